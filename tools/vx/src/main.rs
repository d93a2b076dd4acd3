//! vx: mechanical extraction of /repo's functions into the Rust subset accepted by Verus.
//!
//! usage: vx CONFIG.json OUT.json   (paths of the source roots come from CONFIG.json)
mod index;
mod lower;
mod mbe;
mod print;

use serde_json::{json, Value};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cfg: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("config")).expect("config json");
    let idx = index::Index::load(&cfg);
    let mut out = serde_json::Map::new();
    let mut errors = vec![];
    errors.extend(idx.errors.iter().cloned());

    for it in &idx.items {
        match lower::lower_item(it, &idx, &cfg) {
            Ok(vs) => {
                for (k, v) in vs {
                    out.insert(k, v);
                }
            }
            Err(e) => errors.push(format!("{}: {}", it.key, e)),
        }
    }
    let res = json!({ "items": Value::Object(out), "errors": errors, "builtins": idx.builtins, "uses": idx.uses });
    std::fs::write(&args[2], serde_json::to_string_pretty(&res).unwrap()).unwrap();
}
