//! The command line of the check binaries.
use crate::engine::*;
pub fn main_with(get: fn(&str) -> Option<Prop>) {
    let a: Vec<String> = std::env::args().collect();
    let cfg = config();
    let find = |id: &str| match get(id) {
        Some(p) => p,
        None => {
            println!("no such property: {id}");
            std::process::exit(2)
        }
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("work") => work(&find(&a[2]), &cfg),
        Some("pyserve") => crate::pyserve::serve(),
        Some("tool") => crate::props::c27::tool(&a[2..]),
        Some("one") => one(&find(&a[2]), &cfg, &a[3], None, a[4].parse().unwrap(), true),
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let mut cfg = cfg;
            cfg.seed = v["seed"].as_u64().unwrap_or(cfg.seed);
            if let Some(t) = v["tier"].as_str() {
                cfg.thorough = t == "thorough";
            }
            let tape = v["tape"].as_array().map(|t| t.iter().map(|x| x.as_u64().unwrap()).collect());
            one(&find(v["property"].as_str().unwrap()), &cfg, v["sub"].as_str().unwrap(), tape, v["index"].as_u64().unwrap_or(0), true)
        }
        Some(id) => supervise(&find(id), &cfg),
        None => {
            println!("usage: vh <PROPERTY> | work <PROPERTY> | one <PROPERTY> <sub> <index> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
