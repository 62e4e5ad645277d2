//! Lexeme sequences: lays them out in several ways, minifies each and minifies the result again.
use crate::rng::Rng;
use crate::{minify, Args};
use serde_json::{json, Value};

pub struct Kind {
    min: usize,
    max: usize,
    first: Vec<usize>,
    atoms: Vec<usize>,
    last: Vec<usize>,
    rare: bool,
}
pub struct Layout {
    pub atoms: Vec<(String, String)>,
    kinds: std::collections::HashMap<String, Kind>,
}

impl Layout {
    pub fn load(path: &str) -> Layout {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
        let ids = |v: &Value| -> Vec<usize> {
            v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
        };
        Layout {
            atoms: v["atoms"]
                .as_array()
                .unwrap()
                .iter()
                .map(|a| (a["s"].as_str().unwrap().to_owned(), a["k"].as_str().unwrap().to_owned()))
                .collect(),
            kinds: v["kinds"]
                .as_object()
                .unwrap()
                .iter()
                .map(|(k, v)| {
                    (
                        k.clone(),
                        Kind {
                            min: v["min"].as_u64().unwrap() as usize,
                            max: v["max"].as_u64().unwrap() as usize,
                            first: ids(&v["first"]),
                            atoms: ids(&v["atoms"]),
                            last: ids(&v["last"]),
                            rare: !v["rare"].is_null(),
                        },
                    )
                })
                .collect(),
        }
    }

    /// One gap: `style` 0 is the smallest one, 1 a space wherever it is possible, 2 to 5 more and
    /// more of anything, "ws" only layouts use no comment.
    pub fn gap(&self, kind: &str, style: usize, comments: bool, rng: &mut Rng) -> Vec<usize> {
        let k = self.kinds.get(kind).unwrap_or_else(|| panic!("gap kind {kind}"));
        let ok = |a: &usize| comments || !self.atoms[*a].1.contains('c');
        let pool: Vec<usize> = k.atoms.iter().copied().filter(ok).collect();
        let first: Vec<usize> =
            if k.first.is_empty() { pool.clone() } else { k.first.iter().copied().filter(ok).collect() };
        if k.max == 0 || first.is_empty() {
            return vec![];
        }
        let n = match style {
            _ if k.rare && rng.below(3) > 0 => k.min,
            0 => k.min,
            1 => 1.max(k.min),
            2 => k.min.max(usize::from(rng.below(6) == 0)),
            3 => k.min.max(rng.below(2)),
            _ => k.min.max(rng.below(k.max + 1)),
        };
        let mut res = Vec::new();
        for j in 0..n {
            let pool = if j == 0 { &first } else { &pool };
            res.push(if style < 2 { pool[0] } else { pool[rng.below(pool.len())] });
        }
        if comments && style > 1 && !k.last.is_empty() && rng.below(2) == 0 {
            if res.is_empty() && !k.first.is_empty() {
                res.push(first[rng.below(first.len())]);
            }
            res.push(k.last[rng.below(k.last.len())]);
        }
        res
    }
}

/// The gaps of every run: those of a record that is run again, else drawn ones.
pub fn layouts(lay: &Layout, v: &Value, runs: usize, control: bool, rng: &mut Rng) -> Vec<Vec<Vec<usize>>> {
    let g: Vec<&str> = v["g"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    assert_eq!(g.len(), v["t"].as_array().unwrap().len() + 1);
    (0..runs)
        .map(|k| {
            let (style, comments) = match k {
                _ if control => (2 + k % 3, true),
                0 => (0, false),
                1 => (1, false),
                2 => (3, false),
                _ => (2 + (k % 3), true),
            };
            match v["runs"][k]["l"].as_array() {
                Some(l) => l
                    .iter()
                    .map(|gap| gap.as_array().unwrap().iter().map(|a| a.as_u64().unwrap() as usize).collect())
                    .collect(),
                None => g.iter().map(|kind| lay.gap(kind, style, comments, rng)).collect(),
            }
        })
        .collect()
}

pub fn render(v: &Value, gaps: &[Vec<usize>], f: &dyn Fn(usize, &str) -> String) -> String {
    let t = v["t"].as_array().unwrap();
    let mut src = String::new();
    for (j, gap) in gaps.iter().enumerate() {
        for a in gap {
            src.push_str(&f(*a, v["g"][j].as_str().unwrap()));
        }
        if j < t.len() {
            src.push_str(t[j].as_str().unwrap());
        }
    }
    src
}

pub fn run(args: &Args, lay: &Layout, i: usize, seed: u64, v: &Value) -> Value {
    let lang = args.get("lang").unwrap();
    let runs = args.num("runs", 5) as usize;
    let control = args.get("control").is_some();
    let mut rng = Rng::new(seed, i);
    let mut res = Vec::new();
    for gaps in layouts(lay, v, runs, control, &mut rng) {
        let src = render(v, &gaps, &|a, _| lay.atoms[a].0.clone());
        let (st, out) = minify(lang, &src);
        let re = if st == "ok" && lang != "html" { minify(lang, &out) } else { ("none".into(), String::new()) };
        let mut rec = json!({"l": gaps, "src": src, "st": st, "out": out, "rst": re.0, "re": re.1});
        if control {
            // The same layout where every comment is only the whitespace it stands for.
            let plain = render(v, &gaps, &|a, kind| {
                let (s, k) = &lay.atoms[a];
                match k.as_str() {
                    "lc" | "bcn" => "\n".to_owned(),
                    "bc" if kind == "glue" => String::new(),
                    "bc" | "wbc" => " ".to_owned(),
                    "eof" => String::new(),
                    _ => s.clone(),
                }
            });
            let (st, out) = minify(lang, &plain);
            rec["pst"] = json!(st);
            rec["pout"] = json!(out);
        }
        res.push(rec);
    }
    let mut rec = v.clone();
    rec["i"] = json!(i);
    rec["runs"] = json!(res);
    rec
}
