//! Texts of no particular form, and mutations of generated programs: how they end.
use serde_json::{json, Value};

use crate::lex::Layout;
use crate::minify;
use crate::rng::Rng;
use crate::Args;

#[derive(Default)]
struct Seen {
    ok: usize,
    err: usize,
    panic: usize,
    samples: Vec<Value>,
}

impl Seen {
    fn run(&mut self, lang: &str, src: &str) {
        let (st, out) = minify(lang, src);
        match st.as_str() {
            "ok" => return self.ok += 1,
            "err" => self.err += 1,
            _ => self.panic += 1,
        }
        if (st == "panic" || lang != "css") && self.samples.len() < 3 {
            self.samples.push(json!([src.chars().take(400).collect::<String>(), st, out]));
        }
    }

    fn record(self, v: &Value, i: usize, lang: &str, d: u64) -> Value {
        let mut rec = v.clone();
        rec["i"] = json!(i);
        rec["lang"] = json!(lang);
        rec["d"] = json!(d);
        rec["n"] = json!(self.ok + self.err + self.panic);
        rec["ok"] = json!(self.ok);
        rec["err"] = json!(self.err);
        rec["panic"] = json!(self.panic);
        rec["samples"] = json!(self.samples);
        rec
    }
}

/// A text given as pieces and how often each is repeated.
pub fn soup(i: usize, v: &Value) -> Value {
    let lang = v["lang"].as_str().unwrap().to_owned();
    let mut src = String::new();
    for p in v["p"].as_array().unwrap() {
        for _ in 0..p[1].as_u64().unwrap() {
            src.push_str(p[0].as_str().unwrap());
        }
    }
    let l = lang.clone();
    // the stack of an ordinary thread
    let seen = std::thread::spawn(move || {
        let mut seen = Seen::default();
        seen.run(&l, &src);
        seen
    })
    .join()
    .unwrap();
    seen.record(v, i, &lang, v["d"].as_u64().unwrap())
}

/// Every prefix of a program, the program without each of its characters, and with fragments
/// inserted at random.
pub fn muts(args: &Args, lay: Option<&Layout>, table: &Value, i: usize, v: &Value) -> Value {
    let lang = args.get("lang").unwrap();
    let frags: Vec<&str> = table[args.get("frags").unwrap()]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| f.as_str().unwrap())
        .collect();
    let mut hash: u64 = 1469598103934665603;
    for b in format!("{}{}", v["t"], v["src"]).bytes() {
        hash = (hash ^ u64::from(b)).wrapping_mul(1099511628211);
    }
    let mut rng = Rng::new(hash, 0);
    let src = match v["src"].as_str() {
        Some(s) => s.to_owned(),
        None => {
            let mut src = String::new();
            let t = v["t"].as_array().unwrap();
            for (j, kind) in v["g"].as_array().unwrap().iter().enumerate() {
                for a in lay.unwrap().gap(kind.as_str().unwrap(), 3, true, &mut rng) {
                    src.push_str(&lay.unwrap().atoms[a].0);
                }
                if let Some(t) = t.get(j) {
                    src.push_str(t.as_str().unwrap());
                }
            }
            src
        }
    };
    let mut seen = Seen::default();
    seen.run(lang, &src);
    let at: Vec<usize> = src.char_indices().map(|(p, _)| p).chain([src.len()]).collect();
    for w in at.windows(2) {
        seen.run(lang, &src[..w[0]]);
        seen.run(lang, &src[w[0]..]);
        seen.run(lang, &format!("{}{}", &src[..w[0]], &src[w[1]..]));
    }
    for _ in 0..args.num("inserts", 40) {
        let p = at[rng.below(at.len())];
        let q = at[rng.below(at.len())].max(p);
        let f = frags[rng.below(frags.len())];
        seen.run(lang, &format!("{}{f}{}", &src[..p], &src[p..]));
        seen.run(lang, &format!("{}{f}{}", &src[..p], &src[q..]));
        seen.run(lang, &format!("{}{}{}", &src[..q], &src[p..q], &src[q..]));
    }
    seen.record(v, i, lang, 0)
}
