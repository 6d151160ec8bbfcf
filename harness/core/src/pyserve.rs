//! A server for the checks of the Python library: one JSON request per line.
use crate::canon::{self, CmpOpts};
use crate::engine::*;
use crate::props::{c01, c02, pkg};
use hugr::HugrView;
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat};
use hugr::package::Package;
use serde_json::{Value, json};
use std::io::{BufRead, Write};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn bytes(v: &Value) -> Vec<u8> {
    unhex(v.as_str().unwrap())
}
fn load(b: &[u8]) -> Result<Package, Fail> {
    match guard("load", || Package::load(b, Some(&crate::ext::REG)))? {
        Ok(p) => Ok(p),
        Err(e) => {
            let mut s = e.to_string();
            let mut x = std::error::Error::source(&e);
            while let Some(y) = x {
                s.push_str(": ");
                s.push_str(&y.to_string());
                x = y.source();
            }
            let class: String = s.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').take(70).collect();
            fail(format!("rust load: {class}"), s)
        }
    }
}
fn valid(p: &Package) -> R {
    for m in &p.modules {
        if let Err(e) = guard("validate", || m.validate())? {
            let s = format!("{e:?}");
            let class: String = s.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
            return fail(format!("rust validate: {class}"), format!("{e}\n{}", canon::show(m)));
        }
    }
    Ok(())
}
fn format_of(s: &str) -> EnvelopeFormat {
    match s {
        "json" => EnvelopeFormat::PackageJson,
        "model" => EnvelopeFormat::Model,
        "model-exts" => EnvelopeFormat::ModelWithExtensions,
        "text" => EnvelopeFormat::ModelText,
        _ => EnvelopeFormat::ModelTextWithExtensions,
    }
}
fn answer(v: &Value) -> Result<Value, Fail> {
    Ok(match v["do"].as_str().unwrap() {
        // A random package, stored in the format.
        "gen" => {
            let t = match v["tape"].as_array() {
                Some(a) => Tape::replaying(a.iter().map(|x| x.as_u64().unwrap()).collect()),
                None => Tape::random(v["seed"].as_u64().unwrap()),
            };
            let mut t = t;
            let f = format_of(v["format"].as_str().unwrap());
            let size = v["size"].as_u64().unwrap_or(30) as usize;
            let mut p = pkg::package(&mut t, size, |p| {
                p.raw_consts = false;
                if v["copyable"] == json!(true) {
                    p.linear = false;
                    p.collections = false;
                    p.coll_heavy = false;
                }
                if f != EnvelopeFormat::PackageJson || v["model"] == json!(true) {
                    p.aliases = false;
                    p.model = true;
                    p.fn_consts = false;
                }
            });
            if matches!(f, EnvelopeFormat::Model | EnvelopeFormat::ModelText) {
                p.pkg.extensions = Default::default();
            }
            if matches!(f, EnvelopeFormat::ModelText | EnvelopeFormat::ModelTextWithExtensions) || v["model"] == json!(true) {
                p.pkg.modules.iter_mut().for_each(c02::text_names);
            }
            let mut cfg = EnvelopeConfig::new(f);
            if v["zstd"] == json!(true) {
                cfg = cfg.with_zstd(Default::default());
            }
            let mut buf = vec![];
            if let Err(e) = guard("store", || p.pkg.store(&mut buf, cfg))? {
                return fail("rust store", format!("{e}"));
            }
            json!({"hex": hex(&buf), "tape": t.out, "nodes": p.pkg.modules.iter().map(|m| m.num_nodes()).sum::<usize>(), "key": hash_str(&c01::pkg_text(&p.pkg)).to_string(),
                   "show": p.pkg.modules.iter().map(canon::show).collect::<Vec<_>>().join("\n")})
        }
        // Two envelopes hold the same package.
        "same" => {
            let a = load(&bytes(&v["a"])).map_err(|e| Fail { sig: format!("first: {}", e.sig), msg: e.msg })?;
            let b = load(&bytes(&v["b"])).map_err(|e| Fail { sig: format!("second: {}", e.sig), msg: e.msg })?;
            if v["model"] == json!(true) {
                c02::compare(&a, &b)?;
            } else {
                c01::compare(&a, &b, &CmpOpts { blind_opaque: v["blind"] == json!(true), ..Default::default() })?;
            }
            if v["exts"] == json!(true) {
                c01::same_exts(&a, &b)?;
            }
            valid(&b)?;
            json!({})
        }
        "valid" => {
            let p = load(&bytes(&v["a"]))?;
            valid(&p)?;
            json!({"nodes": p.modules.iter().map(|m| m.num_nodes()).sum::<usize>(), "show": p.modules.iter().map(canon::show).collect::<Vec<_>>().join("\n")})
        }
        // The package of an envelope, stored in another format.
        "convert" => {
            let p = load(&bytes(&v["a"]))?;
            let mut buf = vec![];
            if let Err(e) = guard("store", || p.store(&mut buf, EnvelopeConfig::new(format_of(v["format"].as_str().unwrap()))))? {
                return fail("rust store", format!("{e}"));
            }
            json!({"hex": hex(&buf)})
        }
        // The extensions that come with the library.
        "std" => {
            let all: Vec<Value> = hugr::std_extensions::STD_REG.iter().map(|e| serde_json::to_value(&**e).unwrap()).collect();
            json!({"extensions": all})
        }
        x => panic!("request {x}"),
    })
}
pub fn serve() -> i32 {
    install_hook();
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let v: Value = serde_json::from_str(&line).unwrap();
        let r = match answer(&v) {
            Ok(x) => x,
            Err(f) => json!({"sig": f.sig, "msg": f.msg}),
        };
        let mut o = out.lock();
        let _ = writeln!(o, "{r}");
        let _ = o.flush();
    }
    0
}
