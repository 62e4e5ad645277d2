//! Replays the behaviours written by the TLA+ specifications into the real code and records what
//! it does, for TLC to validate. Nothing is judged here.
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};

mod lex;
mod rng;
mod stream;
mod tokens;
mod total;
mod write;

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".to_owned())
    })
}

/// The text minified as `lang`: (status, output).
pub fn minify(lang: &str, src: &str) -> (String, String) {
    let r = guarded(|| match lang {
        "js" => minifier::js::minify(src).map(|m| m.to_string()),
        "css" => minifier::css::minify(src).map(|m| m.to_string()),
        "json" => Ok(minifier::json::minify(src).to_string()),
        #[cfg(feature = "html")]
        "html" => Ok(minifier::html::minify(src)),
        _ => {
            eprintln!("unknown language {lang}");
            std::process::exit(2)
        }
    });
    match r {
        Ok(Ok(s)) => ("ok".into(), s),
        Ok(Err(e)) => ("err".into(), e.to_string()),
        Err(p) => ("panic".into(), p),
    }
}

pub struct Args(Vec<String>);
impl Args {
    pub fn get(&self, name: &str) -> Option<&str> {
        let k = format!("--{name}");
        self.0.iter().position(|a| *a == k).map(|i| self.0[i + 1].as_str())
    }
    pub fn num(&self, name: &str, default: u64) -> u64 {
        self.get(name).map_or(default, |s| s.parse().unwrap())
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut it = std::env::args().skip(1);
    let cmd = it.next().expect("command");
    let args = Args(it.collect());
    let input = BufReader::new(File::open(args.get("in").expect("--in")).expect("input"));
    let start = args.num("from", 0) as usize;
    let out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(args.get("out").expect("--out"))
        .expect("output");
    let mut out = BufWriter::new(out);
    let seed = args.num("seed", 1);
    let layout = args.get("layout").map(|p| lex::Layout::load(p));
    let table: Value = args
        .get("table")
        .map(|p| serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap())
        .unwrap_or(Value::Null);
    // One record per behaviour; each is flushed before the next one starts, so that a crash or a
    // hang is charged to the right one.
    for (i, line) in input.lines().enumerate() {
        let line = line.expect("line");
        if i < start || line.is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("behaviour");
        let rec = match cmd.as_str() {
            "lex" => lex::run(&args, layout.as_ref().unwrap(), i, seed, &v),
            "tokens" => tokens::run(&args, layout.as_ref().unwrap(), i, seed, &v),
            "write" => write::run(&args, layout.as_ref(), i, seed, &v),
            "names" => tokens::names(i, &v),
            "stream" => stream::run(&args, &table, i, seed, &v),
            "soup" => total::soup(i, &v),
            "muts" => total::muts(&args, layout.as_ref(), &table, i, &v),
            "raw" => {
                // A text and the languages to give it to.
                let src = v["src"].as_str().unwrap();
                let (st, o) = minify(args.get("lang").unwrap(), src);
                let mut rec = v.clone();
                rec["i"] = json!(i);
                rec["st"] = json!(st);
                rec["out"] = json!(o);
                rec
            }
            _ => panic!("unknown command"),
        };
        serde_json::to_writer(&mut out, &rec).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
