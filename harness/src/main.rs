mod cases;
mod gen;
mod lex;
mod render;
mod rng;
use cases::Case;
use humphrey_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn hexs(b: &[u8]) -> Value { match std::str::from_utf8(b) { Ok(s) => Value::String(format!("t:{}", s)), Err(_) => Value::String(format!("h:{}", b.iter().map(|x| format!("{:02x}", x)).collect::<String>())) } }
fn unhex(v: &Value) -> Vec<u8> { let s = v.as_str().unwrap(); if let Some(t) = s.strip_prefix("t:") { t.as_bytes().to_vec() } else { let h = &s[2..]; (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() } }
fn files(f: &[(String, Vec<u8>)]) -> Value { Value::Array(f.iter().map(|(p, b)| Value::Array(vec![Value::String(p.clone()), hexs(b)])).collect()) }
fn unfiles(v: &Value) -> Vec<(String, Vec<u8>)> { v.as_array().unwrap().iter().map(|e| (e.get(0).unwrap().as_str().unwrap().to_string(), unhex(e.get(1).unwrap()))).collect() }
fn o(kv: Vec<(&str, Value)>) -> Value { Value::Object(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
fn st(s: &str) -> Value { Value::String(s.to_string()) }
fn to_json(c: &Case) -> Value {
    match c {
        Case::Lex { text, plugs } => o(vec![("case", st("lex")), ("text", hexs(text.as_bytes())), ("plugs", Value::Bool(*plugs))]),
        Case::Arg { text } => o(vec![("case", st("arg")), ("text", hexs(text.as_bytes()))]),
        Case::Markdown { text } => o(vec![("case", st("markdown")), ("text", hexs(text.as_bytes()))]),
        Case::Project { files: f, statics, conf, plugs } => o(vec![("case", st("project")), ("files", files(f)), ("statics", files(statics)), ("strip", Value::Bool(conf.strip)), ("data", Value::Bool(conf.data)), ("meta", Value::Bool(conf.meta)), ("plugs", Value::Bool(*plugs))]),
        Case::Merge { a, b } => o(vec![("case", st("merge")), ("a", files(a)), ("b", files(b))]),
        Case::Paths { files: f, paths } => o(vec![("case", st("paths")), ("files", files(f)), ("paths", Value::Array(paths.iter().map(|p| st(p)).collect()))]),
    }
}
fn from_json(v: &Value) -> Case {
    let t = || String::from_utf8(unhex(v.get("text").unwrap())).unwrap();
    let bl = |k: &str| v.get(k).and_then(|b| b.as_bool()).unwrap_or(false);
    match v.get("case").unwrap().as_str().unwrap() {
        "lex" => Case::Lex { text: t(), plugs: bl("plugs") },
        "arg" => Case::Arg { text: t() },
        "markdown" => Case::Markdown { text: t() },
        "project" => Case::Project { files: unfiles(v.get("files").unwrap()), statics: unfiles(v.get("statics").unwrap()), conf: render::Conf { strip: bl("strip"), data: bl("data"), meta: bl("meta") }, plugs: bl("plugs") },
        "merge" => Case::Merge { a: unfiles(v.get("a").unwrap()), b: unfiles(v.get("b").unwrap()) },
        _ => Case::Paths { files: unfiles(v.get("files").unwrap()), paths: v.get("paths").unwrap().as_array().unwrap().iter().map(|p| p.as_str().unwrap().to_string()).collect() },
    }
}

/// runs one case in its own directory; Err describes the disagreement
fn one(c: &Case, prop: &str, dir: &Path) -> Result<bool, String> {
    std::fs::remove_dir_all(dir).ok();
    std::fs::create_dir_all(dir).unwrap();
    match catch_unwind(AssertUnwindSafe(|| cases::run(c, gen::look(prop), dir))) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}

/// smaller cases which still fail
fn shrink(c: &Case) -> Vec<Case> {
    let texts = |t: &str| -> Vec<String> {
        let cs: Vec<char> = t.chars().collect();
        let mut v = vec![];
        let mut k = cs.len() / 2;
        while k > 0 { let mut i = 0; while i + k <= cs.len() { v.push(cs[..i].iter().chain(&cs[i + k..]).collect()); i += k; } k /= 2; }
        v
    };
    match c {
        Case::Lex { text, plugs } => texts(text).into_iter().map(|text| Case::Lex { text, plugs: *plugs }).collect(),
        Case::Arg { text } => texts(text).into_iter().map(|text| Case::Arg { text }).collect(),
        Case::Markdown { text } => texts(text).into_iter().map(|text| Case::Markdown { text }).collect(),
        Case::Project { files, statics, conf, plugs } => {
            let mut v = vec![];
            for i in 0..files.len() { let mut f = files.clone(); f.remove(i); v.push(Case::Project { files: f, statics: statics.clone(), conf: *conf, plugs: *plugs }); }
            for i in 0..statics.len() { let mut f = statics.clone(); f.remove(i); v.push(Case::Project { files: files.clone(), statics: f, conf: *conf, plugs: *plugs }); }
            for i in 0..files.len() { if let Ok(t) = std::str::from_utf8(&files[i].1) { if t.len() < 600 { for t in texts(t) { let mut f = files.clone(); f[i].1 = t.into_bytes(); v.push(Case::Project { files: f, statics: statics.clone(), conf: *conf, plugs: *plugs }); } } } }
            v
        }
        Case::Merge { a, b } => {
            let mut v = vec![];
            for i in 0..a.len() { let mut f = a.clone(); f.remove(i); v.push(Case::Merge { a: f, b: b.clone() }); }
            for i in 0..b.len() { let mut f = b.clone(); f.remove(i); v.push(Case::Merge { a: a.clone(), b: f }); }
            v
        }
        Case::Paths { files, paths } => (0..paths.len()).map(|i| Case::Paths { files: files.clone(), paths: vec![paths[i].clone()] }).collect(),
    }
}

fn tempdir_works(d: &Path) -> bool {
    let p = d.join(format!("stuart-harness-probe-{}", std::process::id()));
    std::fs::create_dir(&p).and_then(|_| std::fs::remove_dir(&p)).is_ok()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| ()));
    // replays use the same kind of file system as the search: what fails may depend on the order of directory listings
    let shm = PathBuf::from("/dev/shm");
    let tmp = if std::env::var_os("TMPDIR").is_none() && tempdir_works(&shm) { shm } else { std::env::temp_dir() };
    let base = tmp.canonicalize().unwrap().join(format!("stuart-harness-{}", std::process::id()));
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn({ let base = base.clone(); move || real_main(a, base) }).unwrap().join();
    std::fs::remove_dir_all(&base).ok();
    std::process::exit(r.unwrap_or(3));
}

/// harness run PROP SEED SECONDS WORKER OUT  |  harness replay FILE
fn real_main(a: Vec<String>, base: PathBuf) -> i32 {
    if a[1] == "replay" {
        let v: Value = humphrey_json::from_str(std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        let prop = v.get("property").unwrap().as_str().unwrap().to_string();
        let c = from_json(v.get("input").unwrap());
        return match one(&c, &prop, &base.join("w")) { Ok(_) => { println!("agrees"); 0 } Err(e) => { println!("DISAGREES: {}", e); 1 } };
    }
    let (prop, seed, secs, worker, out) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap(), a[5].parse::<u64>().unwrap(), PathBuf::from(&a[6]));
    let current: Arc<Mutex<(Instant, Option<Value>)>> = Arc::new(Mutex::new((Instant::now(), None)));
    let report = |c: &Value, what: &str, out: &Path| { std::fs::write(out, o(vec![("property", st(&prop)), ("failure", st(what)), ("input", c.clone())]).serialize()).unwrap(); };
    {
        let (current, prop, out, base) = (current.clone(), prop.clone(), out.clone(), base.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = current.lock().unwrap();
            if let (t, Some(c)) = &*g { if t.elapsed() > Duration::from_secs(20) {
                std::fs::write(&out, o(vec![("property", st(&prop)), ("failure", st("does not terminate (20 s)")), ("input", c.clone())]).serialize()).unwrap();
                std::fs::remove_dir_all(&base).ok();
                println!("FAIL");
                std::process::exit(1);
            } }
        });
    }
    let mut r = rng::Rng::new(seed * 1000 + worker);
    if let Some(d) = std::env::var_os("STUART_HARNESS_DICT") {
        for l in std::fs::read_to_string(d).unwrap_or_default().lines() {
            if let Ok(Value::Array(v)) = humphrey_json::from_str::<Value, _>(l) {
                for x in v { match x { Value::String(s) => r.1.push(s), Value::Number(n) => r.2.push(n as i64), _ => () } }
            }
        }
    }
    let start = Instant::now();
    let (mut n, mut good) = (0usize, 0usize);
    let mut seen = std::collections::HashSet::new();
    let mut samples = vec![];
    let crash = out.with_extension("current");
    while start.elapsed().as_secs_f64() < secs {
        let c = match gen::gen(&prop, &mut r, n) { Some(c) => c, None => return 4 };
        let j = to_json(&c);
        let text = j.serialize();
        *current.lock().unwrap() = (Instant::now(), Some(j.clone()));
        std::fs::write(&crash, &text).ok(); // read if the process dies
        let res = one(&c, &prop, &base.join("w"));
        n += 1;
        match res {
            Ok(nontrivial) => {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                text.hash(&mut h);
                if seen.insert(h.finish()) && nontrivial { good += 1; if samples.len() < 2 && text.len() < 6000 { samples.push(j); } }
            }
            Err(e) => {
                let (mut c, mut e) = (c, e);
                let t = Instant::now();
                'again: while t.elapsed().as_secs() < 20 {
                    for d in shrink(&c) {
                        *current.lock().unwrap() = (Instant::now(), Some(to_json(&d)));
                        if let Err(f) = one(&d, &prop, &base.join("w")) { if f.starts_with("panic") == e.starts_with("panic") { c = d; e = f; continue 'again; } }
                        if t.elapsed().as_secs() >= 20 { break; }
                    }
                    break;
                }
                report(&to_json(&c), &e, &out);
                std::fs::remove_file(&crash).ok();
                println!("FAIL");
                return 1;
            }
        }
    }
    std::fs::remove_file(&crash).ok();
    println!("{}", o(vec![("evaluations", Value::Number(n as f64)), ("distinct_nontrivial", Value::Number(good as f64)), ("samples", Value::Array(samples))]).serialize());
    0
}
