//! C27: the command line tool.
use super::{c01, c02, c05, pkg};
use crate::canon;
use crate::engine::*;
use crate::ext::{EXT, EXT2, LOW, REG};
use crate::refval;
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat, GENERATOR_KEY, ZstdConfig, read_envelope};
use hugr::extension::{Extension, ExtensionRegistry, PRELUDE_REGISTRY};
use hugr::hugr::hugrmut::HugrMut;
use hugr::hugr::views::HugrView;
use hugr::ops::OpType;
use hugr::package::Package;
use hugr::std_extensions::STD_REG;
use hugr::{Hugr, NodeIndex};
use hugr_cli::{CliArgs, RunWithIoError};
use hugr_core::Visibility;
use serde_json::{Value as J, json};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "random packages (0-3 modules, every envelope format, compression, embedded or separately supplied extensions; some with a well-formedness fault, damaged bytes, a missing extension) given to validate, convert, describe and mermaid, in process and as a separate process with files and pipes; non-trivial: the package has a module of at least 6 nodes",
        assumptions: &["the envelope reader is decided by C01, C02 and C04; the command line is compared with what it reads"],
        subs: vec![
            Sub { name: "commands", quick: 2_500, thorough: 150_000, f: commands },
            Sub { name: "process", quick: 500, thorough: 20_000, f: process },
            Sub { name: "extensions", quick: 4, thorough: 40, f: extensions },
        ],
        findings: vec![],
    }
}

/// A directory of this case, removed at the end.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("vh-c27-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    fn path(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().to_string()
    }
    fn write(&self, n: &str, b: &[u8]) -> String {
        std::fs::write(self.0.join(n), b).unwrap();
        self.path(n)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

const FORMATS: &[(EnvelopeFormat, &str, u8)] = &[
    (EnvelopeFormat::PackageJson, "json", 63),
    (EnvelopeFormat::Model, "model", 1),
    (EnvelopeFormat::ModelWithExtensions, "model-exts", 2),
    (EnvelopeFormat::ModelText, "model-text", 40),
    (EnvelopeFormat::ModelTextWithExtensions, "model-text-exts", 41),
];
struct Case {
    bytes: Vec<u8>,
    cfg: EnvelopeConfig,
    /// Options for reading: -e and --no-std.
    opts: Vec<String>,
    /// What the file contains, unless it cannot be read.
    read: Option<Package>,
    /// The input was not tampered with.
    sound: bool,
    modules: Vec<Hugr>,
}
fn has_exts(f: EnvelopeFormat) -> bool {
    !matches!(f, EnvelopeFormat::Model | EnvelopeFormat::ModelText)
}
fn case(c: &mut Ctx, dir: &Dir) -> Result<Option<Case>, Fail> {
    let mut p = pkg::package(&mut c.t, 24, |p| {
        p.aliases = false;
        p.model = true;
        p.fn_consts = false;
    });
    let cfg = {
        let (format, ..) = *c.t.pick(FORMATS);
        let z = c.t.chance(1, 3);
        let e = EnvelopeConfig::new(format);
        if z { e.with_zstd(ZstdConfig::default_level()) } else { e }
    };
    // The text formats restrict symbol names (a finding of C02).
    p.pkg.modules.iter_mut().for_each(c02::text_names);
    let mut sound = true;
    if c.t.chance(1, 3) && !p.pkg.modules.is_empty() && matches!(cfg.format, EnvelopeFormat::PackageJson) {
        let i = c.t.below(p.pkg.modules.len());
        let mut h = std::mem::take(&mut p.pkg.modules[i]);
        let k = c05::fault(c, &mut h);
        p.pkg.modules[i] = h;
        if let Some(k) = k {
            c.label("with a fault");
            c.note(|| format!("fault {k} in module {i}"));
            sound = false;
        }
    }
    for m in &mut p.pkg.modules {
        if c.t.chance(1, 3) {
            let g = c.t.pick(&[json!("gen"), json!({"name": "maker", "version": "1.2.3"}), json!({"name": "maker"}), json!("a, b"), json!({"a": 1}), json!(3)]).clone();
            m.set_metadata(m.module_root(), GENERATOR_KEY, g);
        }
    }
    if c.t.flag() && p.embedded > 0 && !has_exts(cfg.format) {
        p.pkg.extensions = Default::default();
    }
    c.note(|| p.pkg.modules.iter().map(canon::show).collect::<Vec<_>>().join("\n"));
    c.note(|| format!("input {cfg:?}"));
    if p.pkg.modules.iter().any(|m| m.num_nodes() >= 6) {
        c.nontrivial(hash_str(&c01::pkg_text(&p.pkg)));
    }
    let mut bytes = vec![];
    if let Err(e) = guard("store", || p.pkg.store(&mut bytes, cfg))? {
        if sound {
            return fail("store", format!("{e}"));
        }
        return Ok(None);
    }
    // What is supplied.
    let supplied: Vec<&Arc<Extension>> = [&*EXT, &*EXT2, &*LOW].into_iter().collect();
    let drop_one = c.t.chance(1, 8);
    let no_std = c.t.chance(1, 12);
    let mut opts = vec![];
    let mut reg = if no_std { PRELUDE_REGISTRY.clone() } else { STD_REG.clone() };
    if no_std {
        opts.push("--no-std".to_string());
        sound = false;
    }
    for (i, e) in supplied.iter().enumerate() {
        let embedded = has_exts(cfg.format) && p.pkg.extensions.contains(e.name());
        if embedded && c.t.flag() {
            continue;
        }
        if drop_one && i == 0 {
            sound = false;
            continue;
        }
        reg.register_updated((***e).clone());
        let s = serde_json::to_vec(&***e).unwrap();
        let f = dir.write(&format!("ext{i}.json"), &s);
        opts.extend([c.t.pick(&["-e", "--extensions"]).to_string(), f]);
    }
    if c.t.chance(1, 8) && !bytes.is_empty() {
        sound = false;
        c.label("damaged");
        for _ in 0..1 + c.t.below(2) {
            match c.t.below(4) {
                0 => {
                    let n = c.t.below(bytes.len() + 1);
                    bytes.truncate(n);
                }
                1 if !bytes.is_empty() => {
                    let i = c.t.below(bytes.len());
                    bytes[i] ^= 1 << c.t.below(8);
                }
                2 if !bytes.is_empty() => {
                    let i = c.t.below(bytes.len().min(12));
                    bytes[i] = c.t.below(256) as u8;
                }
                _ => {
                    let i = c.t.below(bytes.len() + 1);
                    bytes.insert(i, *c.t.pick(b" {}\"0a\xff"));
                }
            }
        }
    }
    let read = match no_panic(|| read_envelope(bytes.as_slice(), &reg)) {
        Ok(Ok((_, p))) => Some(p),
        Ok(Err(_)) => None,
        // decided by C04
        Err(_) => return Ok(None),
    };
    if sound && read.is_none() {
        return fail("a stored package cannot be read", format!("{cfg:?}"));
    }
    c.label_if(read.is_none(), "cannot be read");
    Ok(Some(Case { bytes, cfg, opts, read, sound, modules: p.pkg.modules }))
}
/// Whether all modules are well-formed.
fn all_valid(c: &Case) -> bool {
    c.read.as_ref().is_some_and(|p| p.modules.iter().all(|m| refval::verdict(m).map_or_else(|| m.validate().is_ok(), |v| v.is_ok())))
}
fn op_text(h: &Hugr) -> String {
    match h.get_optype(h.entrypoint()) {
        OpType::FuncDefn(d) => format!("FuncDefn({}: {})", d.func_name(), d.signature()),
        OpType::FuncDecl(d) => format!("FuncDecl({}: {})", d.func_name(), d.signature()),
        OpType::DFG(d) => format!("DFG({})", d.signature),
        o => format!("{o}"),
    }
}
fn generator(h: &Hugr) -> Option<String> {
    let v = h.get_metadata(h.module_root(), GENERATOR_KEY)?;
    Some(match v {
        J::String(s) => s.clone(),
        J::Object(o) => match (o.get("name"), o.get("version")) {
            (Some(J::String(n)), Some(J::String(v))) => format!("{n}-v{v}"),
            (Some(J::String(n)), None) => n.clone(),
            _ => v.to_string(),
        },
        _ => v.to_string(),
    })
}
#[derive(Default, Clone, Copy)]
struct Flags {
    packaged: bool,
    no_resolved: bool,
    symbols: bool,
}
/// The description a package should have.
fn truth(p: &Package, f: Flags) -> J {
    let ext = |e: &Arc<Extension>| json!({"name": e.name().to_string(), "version": e.version().to_string()});
    let modules: Vec<J> = p
        .modules
        .iter()
        .map(|m| {
            let mut o = json!({"num_nodes": m.nodes().count(), "entrypoint": {"node": m.entrypoint().index(), "optype": op_text(m)}});
            if let Some(g) = generator(m) {
                o["generator"] = json!(g);
            }
            if !f.no_resolved {
                o["used_extensions_resolved"] = J::Array(m.extensions().iter().map(ext).collect());
            }
            if f.symbols {
                o["public_symbols"] = J::Array(
                    m.children(m.module_root())
                        .filter_map(|n| match m.get_optype(n) {
                            OpType::FuncDefn(d) if *d.visibility() == Visibility::Public => Some(json!(format!("{}: {}", d.func_name(), d.signature()))),
                            OpType::FuncDecl(d) if *d.visibility() == Visibility::Public => Some(json!(format!("{}: {}", d.func_name(), d.signature()))),
                            _ => None,
                        })
                        .collect(),
                );
            }
            o
        })
        .collect();
    let mut o = json!({"modules": modules});
    if f.packaged && !p.extensions.is_empty() {
        o["packaged_extensions"] = J::Array(p.extensions.iter().map(ext).collect());
    }
    o
}
/// Outcome of a command.
struct Out {
    ok: bool,
    out: Vec<u8>,
}
/// The commands with their expected results.
enum Cmd {
    Validate,
    Mermaid { validate: bool },
    Convert { format: Option<EnvelopeFormat>, zstd: bool },
    Describe { json: bool, flags: Flags },
    Bad,
}
fn command(c: &mut Ctx, k: &Case) -> (Cmd, Vec<String>) {
    let mut args = vec![];
    let cmd = match c.t.weighted(&[3, 1, 4, 3]) {
        0 => {
            args.push("validate".to_string());
            Cmd::Validate
        }
        1 => {
            args.push("mermaid".into());
            let validate = c.t.flag();
            if validate {
                args.push("--validate".into());
            }
            Cmd::Mermaid { validate }
        }
        2 => {
            args.push("convert".into());
            let mut zstd = false;
            // The model formats represent valid modules only.
            let only_json = k.read.is_some() && !all_valid(k);
            let format = match if only_json { c.t.below(2) } else { c.t.below(6) } {
                0 => None,
                1 => {
                    args.push("--text".into());
                    Some(EnvelopeFormat::PackageJson)
                }
                2 => {
                    args.push("--binary".into());
                    zstd = true;
                    Some(EnvelopeFormat::ModelWithExtensions)
                }
                _ => {
                    let (f, n, _) = *c.t.pick(FORMATS);
                    args.extend([c.t.pick(&["-f", "--format"]).to_string(), n.to_string()]);
                    Some(f)
                }
            };
            if c.t.flag() {
                zstd = true;
                args.push("--compress".into());
                if c.t.flag() {
                    args.extend(["--compression-level".into(), (1 + c.t.below(9)).to_string()]);
                }
            }
            Cmd::Convert { format, zstd }
        }
        _ => {
            args.push("describe".into());
            let json = c.t.chance(2, 3);
            let flags = Flags { packaged: c.t.flag(), no_resolved: c.t.flag(), symbols: c.t.flag() };
            for (on, s) in [(json, "--json"), (flags.packaged, "--packaged-extensions"), (flags.no_resolved, "--no-resolved-extensions"), (flags.symbols, "--public-symbols")] {
                if on {
                    args.push(s.into());
                }
            }
            Cmd::Describe { json, flags }
        }
    };
    args.extend(k.opts.iter().cloned());
    (cmd, args)
}
fn judge(c: &mut Ctx, k: &Case, cmd: &Cmd, got: &Out) -> R {
    let text = || String::from_utf8_lossy(&got.out).into_owned();
    let valid = all_valid(k);
    match cmd {
        Cmd::Bad => ensure!(!got.ok && got.out.is_empty(), "bad arguments accepted", "{}", clip(&text(), 300)),
        Cmd::Validate => {
            ensure!(got.ok == valid, if valid { "valid package rejected" } else { "invalid package accepted" }, "");
            ensure!(got.out.is_empty(), "validate writes", "{}", clip(&text(), 300));
            c.label(if valid { "validate: valid" } else { "validate: not valid" });
            ensure!(!k.sound || valid, "sound package judged invalid", "");
        }
        Cmd::Mermaid { validate } => {
            let ok = k.read.is_some() && (!validate || valid);
            ensure!(got.ok == ok, "mermaid status", "success {}", got.ok);
            let want = if ok { k.read.as_ref().unwrap().modules.iter().map(|m| m.mermaid_string() + "\n").collect::<String>() } else { String::new() };
            ensure!(text() == want, "mermaid output", "{}", clip(&text(), 400));
            c.label("mermaid");
        }
        Cmd::Convert { format, zstd } => {
            let Some(p) = &k.read else {
                ensure!(!got.ok, "unreadable input converted", "");
                ensure!(got.out.is_empty(), "output for unreadable input", "{} bytes", got.out.len());
                c.label("convert: unreadable");
                return Ok(());
            };
            let format = format.unwrap_or(k.cfg.format);
            ensure!(got.ok, "conversion failed", "to {format:?}");
            let b = &got.out;
            ensure!(b.len() >= 10 && &b[..8] == b"HUGRiHJv", "no envelope", "{} bytes", b.len());
            let want = FORMATS.iter().find(|f| f.0 == format).unwrap().2;
            ensure!(b[8] == want, "converted to another format", "{} instead of {want}", b[8]);
            ensure!((b[9] & 1 == 1) == *zstd, "compression of the conversion", "{}, expected {zstd}", b[9] & 1 == 1);
            let reg = ExtensionRegistry::new(REG.iter().cloned().chain([LOW.clone()]));
            let q = match guard("read", || read_envelope(b.as_slice(), &reg))? {
                Ok((_, q)) => q,
                Err(e) => {
                    return fail("conversion cannot be read", format!("{e} {:?}", std::error::Error::source(&e).map(|s| s.to_string())));
                }
            };
            ensure!(q.modules.len() == p.modules.len(), "modules of the conversion", "{}", q.modules.len());
            for (x, y) in p.modules.iter().zip(&q.modules) {
                if format == EnvelopeFormat::PackageJson {
                    if let Some(d) = canon::diff(x, y, &canon::CmpOpts { blind_opaque: true, metadata: true, entrypoint: true, ..Default::default() }) {
                        return fail("conversion differs", d);
                    }
                } else {
                    let (a, b) = (c02::model_lines(x), c02::model_lines(y));
                    let d = a.iter().zip(&b).find(|(a, b)| a != b);
                    ensure!(a.len() == b.len() && d.is_none(), "conversion differs", "{d:?}");
                }
            }
            if has_exts(format) {
                let e = |p: &Package| p.extensions.iter().map(|e| serde_json::to_string(e).unwrap()).collect::<Vec<_>>();
                ensure!(e(p) == e(&q), "extensions of the conversion", "{:?}, was {:?}", q.extensions.ids().collect::<Vec<_>>(), p.extensions.ids().collect::<Vec<_>>());
            }
            c.label("convert");
            c.label_if(*zstd, "convert: compressed");
        }
        Cmd::Describe { json: true, flags } => {
            ensure!(got.ok == k.read.is_some(), "describe status", "success {}", got.ok);
            if got.out.is_empty() {
                ensure!(!got.ok, "describe wrote nothing", "");
                return Ok(());
            }
            let j: J = match serde_json::from_slice(&got.out) {
                Ok(j) => j,
                Err(e) => return fail("description is no JSON", format!("{e}: {}", clip(&text(), 300))),
            };
            ensure!(j.get("error").is_some() != got.ok, "error of the description", "{}", j["error"]);
            let Some(p) = &k.read else {
                c.label("describe: partial");
                // What is described of the readable modules is true.
                return Ok(());
            };
            let mut j = j;
            let o = j.as_object_mut().unwrap();
            let head = o.remove("header");
            ensure!(head.as_ref().and_then(|h| h.as_str()).is_some_and(|h| header(h, &k.cfg, &k.bytes)), "described header", "{head:?}");
            let want = truth(p, *flags);
            if j != want {
                return fail("description", format!("{j}\nexpected {want}"));
            }
            if k.sound {
                // and that of the package that was written
                ensure!(p.modules.len() == k.modules.len(), "modules read", "");
                for (a, b) in p.modules.iter().zip(&k.modules) {
                    ensure!(generator(a) == generator(b), "generator read", "");
                    ensure!(op_text(a) == op_text(b), "entrypoint read", "{} / {}", op_text(a), op_text(b));
                }
            }
            c.label("describe: json");
        }
        Cmd::Describe { json: false, flags } => {
            ensure!(got.ok == k.read.is_some(), "describe status", "success {}", got.ok);
            let Some(p) = &k.read else { return Ok(()) };
            let t = text();
            let mut lines = t.lines();
            ensure!(lines.next().is_some_and(|h| header(h, &k.cfg, &k.bytes)), "header line", "{}", clip(&t, 200));
            let s = |n: usize| if n == 1 { "" } else { "s" };
            let (m, e) = (p.modules.len(), p.extensions.len());
            let want = format!("Package contains {m} module{} and {e} extension{}", s(m), s(e));
            ensure!(lines.next() == Some(want.as_str()), "summary line", "{}", clip(&t, 300));
            let flat = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
            let rows: Vec<String> = t.lines().map(flat).collect();
            for (i, h) in p.modules.iter().enumerate() {
                let want = format!("| {i} | {} | {} | ", h.nodes().count(), h.entrypoint().index());
                ensure!(rows.iter().any(|r| r.starts_with(&want)), "module row", "no {want:?} in\n{}", clip(&t, 1500));
                ensure!(rows.iter().any(|r| *r == format!("Module {i}:")), "module heading", "{i}");
                if !flags.no_resolved {
                    for e in h.extensions().iter() {
                        let want = format!("| {} | {} |", e.name(), e.version());
                        ensure!(rows.contains(&want), "extension row", "no {want:?}");
                    }
                }
            }
            if flags.packaged {
                for e in p.extensions.iter() {
                    let want = format!("| {} | {} |", e.name(), e.version());
                    ensure!(rows.contains(&want), "packaged extension row", "no {want:?}");
                }
            }
            c.label("describe: text");
        }
    }
    Ok(())
}
/// The line describes the header.
fn header(line: &str, _: &EnvelopeConfig, bytes: &[u8]) -> bool {
    let l = line.to_lowercase();
    let name = match bytes[8] {
        63 => "json",
        1 | 40 => "model",
        _ => "model",
    };
    l.contains(name) && l.contains("zstd") == (bytes[9] & 1 == 1)
}

fn commands(c: &mut Ctx) -> R {
    let dir = Dir::new();
    let Some(k) = case(c, &dir)? else { return Ok(()) };
    for _ in 0..3 {
        let (cmd, args) = command(c, &k);
        c.note(|| format!("hugr {}", args.join(" ")));
        c.sample(|| format!("hugr {} < {} bytes of {:?}", args.join(" "), k.bytes.len(), k.cfg));
        let res = guard("command", || CliArgs::new_from_args(std::iter::once("hugr".to_string()).chain(args.clone())).run_with_io(k.bytes.as_slice()))?;
        let got = match res {
            Ok(out) => Out { ok: true, out },
            Err(RunWithIoError::Describe { output, .. }) => Out { ok: false, out: output },
            Err(e) => {
                let mut s = String::new();
                write!(s, "{e:?}").unwrap();
                c.note(|| clip(&s, 600).to_string());
                Out { ok: false, out: vec![] }
            }
        };
        judge(c, &k, &cmd, &got)?;
    }
    Ok(())
}

/// The tool as a process of its own.
pub fn tool(args: &[String]) -> i32 {
    CliArgs::new_from_args(std::iter::once("hugr".to_string()).chain(args.iter().cloned())).run_cli();
    0
}
fn run(args: &[String], input: Option<&[u8]>, cwd: &Path) -> (i32, Vec<u8>, String) {
    use std::io::Write;
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .arg("tool")
        .args(args)
        .current_dir(cwd)
        .stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    let mut pipe = ch.stdin.take();
    let data = input.map(|b| b.to_vec());
    let w = std::thread::spawn(move || {
        if let (Some(p), Some(d)) = (&mut pipe, &data) {
            let _ = p.write_all(d);
        }
        drop(pipe);
    });
    let o = ch.wait_with_output().unwrap();
    let _ = w.join();
    (o.status.code().unwrap_or(-1), o.stdout, String::from_utf8_lossy(&o.stderr).into_owned())
}
fn process(c: &mut Ctx) -> R {
    let dir = Dir::new();
    let Some(mut k) = case(c, &dir)? else { return Ok(()) };
    let (mut cmd, mut args) = command(c, &k);
    if c.t.chance(1, 8) {
        // unusable arguments
        match (&cmd, c.t.below(4)) {
            (Cmd::Convert { .. }, 0) => {
                args.retain(|a| a != "--text" && a != "--binary");
                args.extend(["--text".into(), "--binary".into()]);
            }
            (Cmd::Convert { .. }, 1) => {
                args.retain(|a| a != "--compress" && a != "--compression-level" && a.parse::<u8>().is_err());
                args.extend(["--compression-level".into(), "3".into()]);
            }
            (Cmd::Convert { format: Some(_), .. }, 2) => {
                for a in &mut args {
                    if FORMATS.iter().any(|f| f.1 == a) {
                        *a = "yaml".into();
                    }
                }
                if !args.contains(&"yaml".to_string()) {
                    args.push("--nope".into());
                }
            }
            (_, 3) => args.extend(["-e".into(), dir.path("missing.json")]),
            _ => args.push("--nope".into()),
        }
        cmd = Cmd::Bad;
        c.label("bad arguments");
    }
    if matches!(cmd, Cmd::Convert { .. }) && c.t.chance(1, 10) {
        k.read = None;
        args.extend(["--".into(), dir.path("no-such-file")]);
        let (code, out, _) = run(&args, None, &dir.0);
        ensure!(code != 0 && out.is_empty(), "missing file", "exit {code}");
        return Ok(());
    }
    let from_file = c.t.flag();
    let to_file = !matches!(cmd, Cmd::Validate) && c.t.flag();
    let out = dir.path("out");
    if to_file {
        args.extend([c.t.pick(&["-o", "--output"]).to_string(), out.clone()]);
    }
    if from_file {
        args.push(dir.write("input", &k.bytes));
    } else if c.t.flag() {
        args.push("-".into());
    }
    if c.t.chance(1, 3) {
        args.push(c.t.pick(&["-v", "-vv", "-q"]).to_string());
    }
    c.note(|| format!("hugr {}", args.join(" ")));
    c.sample(|| format!("hugr {} < {:?}", args.join(" "), k.cfg));
    let (code, stdout, stderr) = run(&args, (!from_file).then_some(k.bytes.as_slice()), &dir.0);
    c.note(|| format!("exit {code}; {}", clip(&stderr, 600)));
    ensure!(!stderr.contains("panicked at"), "the tool panics", "{}", clip(&stderr, 600));
    ensure!((0..=2).contains(&code), "exit status", "{code}");
    if to_file {
        ensure!(stdout.is_empty(), "output in two places", "{}", clip(&String::from_utf8_lossy(&stdout), 300));
    }
    let data = if to_file { std::fs::read(&out).unwrap_or_default() } else { stdout };
    judge(c, &k, &cmd, &Out { ok: code == 0, out: data })
}
fn extensions(c: &mut Ctx) -> R {
    let dir = Dir::new();
    let sub = c.t.flag();
    let at = if sub { dir.0.join("some/where") } else { dir.0.clone() };
    let mut args = vec!["gen-extensions".to_string()];
    if sub {
        args.extend([c.t.pick(&["-o", "--outdir"]).to_string(), at.to_str().unwrap().into()]);
    }
    let (code, _, err) = run(&args, None, &dir.0);
    ensure!(code == 0, "gen-extensions fails", "{err}");
    let k = c.t.u64();
    c.nontrivial(k);
    let mut n = 0;
    let mut stack = vec![at.clone()];
    while let Some(d) = stack.pop() {
        for f in std::fs::read_dir(&d).unwrap() {
            let f = f.unwrap().path();
            if f.is_dir() {
                stack.push(f)
            } else {
                n += 1;
            }
        }
    }
    ensure!(n == STD_REG.len(), "number of files", "{n}");
    for e in STD_REG.iter() {
        let f = at.join(format!("{}.json", e.name().to_string().replace('.', "/")));
        let Ok(b) = std::fs::read(&f) else { return fail("no file of an extension", format!("{f:?}")) };
        let x: Result<Extension, _> = serde_json::from_slice(&b);
        let Ok(x) = x else { return fail("a written extension cannot be read", format!("{f:?}")) };
        ensure!(super::c30::describe(&x) == super::c30::describe(e), "a written extension differs", "{}", e.name());
        ensure!(b.ends_with(b"}\n"), "end of the file", "{f:?}");
    }
    Ok(())
}
