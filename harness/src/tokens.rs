//! The token list API: what its functions do to the tokens of a laid out program.
use crate::lex::{layouts, render, Layout};
use crate::rng::Rng;
use crate::{guarded, Args};
use minifier::js::*;
use serde_json::{json, Value};

fn dump(tokens: &[Token<'_>]) -> Value {
    Value::Array(tokens.iter().map(pair).collect())
}

fn pair(t: &Token<'_>) -> Value {
    let k = match t {
        Token::Keyword(_) => "Keyword",
        Token::Char(_) => "Char",
        Token::String(_) => "String",
        Token::Comment(_) => "Comment",
        Token::License(_) => "License",
        Token::Other(_) => "Other",
        Token::Regex { .. } => "Regex",
        Token::Condition(_) => "Condition",
        Token::Operation(_) => "Operation",
        Token::CreatedVarDecl(_) => "CreatedVarDecl",
        Token::CreatedVar(_) => "CreatedVar",
        Token::Number(_) => "Number",
        Token::FloatingNumber(_) => "FloatingNumber",
    };
    json!([k, t.to_string()])
}

/// Which tokens a filter says may go; which ones are replaced, and by what.
fn may_go(name: &str, t: &Token<'_>) -> bool {
    match name {
        "all" => true,
        "none" => false,
        "lines" => t.get_char() != Some(ReservedChar::Backline),
        "spaces" => t.get_char() != Some(ReservedChar::Space) && t.get_char() != Some(ReservedChar::Tab),
        "white" => !t.is_white_character(),
        "comments" => !t.is_comment(),
        "semicolons" => t.get_char() != Some(ReservedChar::SemiColon),
        "only-semicolons" => t.get_char() == Some(ReservedChar::SemiColon),
        "only-comments" => t.is_comment(),
        _ => panic!("filter"),
    }
}
const FILTERS: [&str; 9] =
    ["all", "none", "lines", "spaces", "white", "comments", "semicolons", "only-semicolons", "only-comments"];

fn replacement<'a>(name: &str, t: &Token<'a>) -> Option<Token<'static>> {
    match name {
        "none" => None,
        "all" => Some(Token::Number(7)),
        "null" => (*t == Token::Keyword(Keyword::Null)).then_some(Token::Other("N")),
        "strings" => t.is_string().then_some(Token::CreatedVar("s()".into())),
        "words" => t.get_other().map(|_| Token::Keyword(Keyword::This)),
        "commas" => t.eq_char(ReservedChar::Comma).then_some(Token::Char(ReservedChar::SemiColon)),
        "odd" => (t.to_string().len() % 2 == 1).then_some(Token::Comment("odd")),
        "keywords" => t.is_keyword().then_some(Token::String("'k'")),
        _ => panic!("replacement"),
    }
}
const REPLACEMENTS: [&str; 8] = ["none", "all", "null", "strings", "words", "commas", "odd", "keywords"];

pub fn run(args: &Args, lay: &Layout, i: usize, seed: u64, v: &Value) -> Value {
    let runs = args.num("runs", 4) as usize;
    let op = args.get("op").unwrap();
    let mut rng = Rng::new(seed, i);
    let all = layouts(lay, v, runs, false, &mut rng);
    let mut res = Vec::new();
    for (k, gaps) in all.into_iter().enumerate() {
        let src = render(v, &gaps, &|a, _| lay.atoms[a].0.clone());
        let mut rec = one(op, k, &src, &mut rng, &v["runs"][k]);
        rec["l"] = json!(gaps);
        rec["src"] = json!(src);
        res.push(rec);
    }
    let mut rec = v.clone();
    rec["i"] = json!(i);
    rec["runs"] = json!(res);
    rec
}

fn one(op: &str, k: usize, src: &str, rng: &mut Rng, old: &Value) -> Value {
    let pick = |old: &Value, n: usize, rng: &mut Rng| old.as_u64().map_or_else(|| rng.below(n), |x| x as usize);
    let r = guarded(|| -> Result<Value, &'static str> {
        let clean_first = k % 2 == 0;
        let tokens = || {
            simple_minify(src).map(|t| if clean_first { t.apply(clean_tokens) } else { t })
        };
        let b = tokens()?;
        let mut rec = json!({"b": dump(&b)});
        match op {
            "agg" | "arr" => {
                let sep = pick(&old["sepk"], 4, rng);
                rec["sepk"] = json!(sep);
                let sep_token = || match sep {
                    1 => Some(Token::Char(ReservedChar::Backline)),
                    2 => Some(Token::Char(ReservedChar::SemiColon)),
                    3 => Some(Token::License(" sep ")),
                    _ => None,
                };
                rec["sep"] = sep_token().map_or(json!([]), |t| json!([pair(&t)]));
                let t = tokens()?;
                let a = if op == "agg" {
                    match sep_token() {
                        Some(s) => aggregate_strings_with_separation(t, s),
                        None => aggregate_strings(t),
                    }
                } else {
                    // The positions of the literals the filter rejects.
                    let rej: Option<Vec<usize>> = match &old["rej"] {
                        Value::Array(a) => Some(a.iter().map(|x| x.as_u64().unwrap() as usize).collect()),
                        _ => None,
                    };
                    let rej = rej.unwrap_or_else(|| {
                        let n = rng.below(3);
                        (0..t.len()).filter(|p| t[*p].is_string() && n > 0 && rng.below(3 * n) == 0).map(|p| p + 1).collect()
                    });
                    let a = {
                        let f = |_: &Tokens<'_>, pos: usize| !rej.contains(&(pos + 1));
                        match (sep_token(), rej.is_empty()) {
                            (Some(s), true) => aggregate_strings_into_array_with_separation(t, "R", s),
                            (Some(s), false) => aggregate_strings_into_array_with_separation_filter(t, "R", s, f),
                            (None, true) => aggregate_strings_into_array(t, "R"),
                            (None, false) => aggregate_strings_into_array_filter(t, "R", f),
                        }
                    };
                    rec["rej"] = json!(rej);
                    a
                };
                rec["a"] = dump(&a);
                rec["out"] = json!(a.apply(clean_tokens).to_string());
            }
            "clean" => {
                let b = simple_minify(src)?;
                rec["b"] = dump(&b);
                rec["a"] = dump(&b.apply(clean_tokens));
                let mut filters = Vec::new();
                for f in FILTERS {
                    let b = simple_minify(src)?;
                    let go: Vec<bool> = b.iter().map(|t| may_go(f, t)).collect();
                    let a = clean_tokens_except(b, |t| may_go(f, t));
                    filters.push(json!({"name": f, "go": go, "a": dump(&a)}));
                }
                rec["filters"] = json!(filters);
            }
            "edit" => {
                let mut reps = Vec::new();
                for f in REPLACEMENTS {
                    let t = tokens()?;
                    let cb: Vec<Value> =
                        t.iter().map(|t| replacement(f, t).map_or(json!([]), |r| json!([pair(&r)]))).collect();
                    let each: Vec<Value> =
                        t.iter().map(|t| pair(&replace_token_with(t.clone(), &|t: &Token<'_>| replacement(f, t)))).collect();
                    let a = replace_tokens_with(t, |t| replacement(f, t));
                    reps.push(json!({"name": f, "cb": cb, "a": dump(&a), "each": each}));
                }
                rec["reps"] = json!(reps);
                let mut found = Vec::new();
                for pos in 0..b.len() + 2 {
                    let r = get_variable_name_and_value_positions(&b, pos);
                    if pos < b.len() && matches!(b[pos].get_keyword(), Some(Keyword::Var | Keyword::Let)) {
                        let r = match r {
                            None => json!([]),
                            Some((n, None)) => json!([n + 1]),
                            Some((n, Some(v))) => json!([n + 1, v + 1]),
                        };
                        found.push(json!([pos + 1, r]));
                    }
                }
                rec["found"] = json!(found);
            }
            _ => panic!("op"),
        }
        rec["st"] = json!("ok");
        Ok(rec)
    });
    match r {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => json!({"st": "err", "out": e}),
        Err(e) => json!({"st": "panic", "out": e}),
    }
}

/// A program in which n strings stand twice, while some names are taken.
pub fn names(i: usize, v: &Value) -> Value {
    let mut rec = v.clone();
    rec["i"] = json!(i);
    let taken: Vec<&str> = v["taken"].as_array().unwrap().iter().map(|t| t.as_str().unwrap()).collect();
    let n = v["n"].as_u64().unwrap() as usize;
    let q = v["q"].as_str().unwrap();
    let how = v["use"].as_str().unwrap();
    let mut uses = String::new();
    for t in &taken {
        uses.push_str(&match how {
            "var" => format!("var {t}=1;"),
            "let" => format!("let {t};"),
            "property" => format!("x.{t};"),
            "label" => format!("{t}:while(x){{}}"),
            "argument" => format!("x(({t})=>{t});"),
            "function" => format!("function {t}(){{}}"),
            _ => format!("{t}();"),
        });
    }
    let lits: Vec<String> = (0..n).map(|k| format!("{q}the string number {k} here{q}")).collect();
    let body: String = lits.iter().map(|l| format!("x({l},{l});")).collect();
    let src = if how == "later" { body + &uses } else { uses + &body };
    let r = guarded(|| {
        let a = simple_minify(&src).unwrap().apply(aggregate_strings);
        let mut names = Vec::new();
        let mut refs = Vec::new();
        let mut seen = Vec::new();
        for t in a.iter() {
            match t {
                Token::CreatedVarDecl(s) => {
                    let (name, lit) = s.split_once('=').unwrap_or((s, ""));
                    names.push(json!([name, lit]));
                }
                Token::CreatedVar(s) => seen.push(s.clone()),
                Token::String(s) => seen.push(s.to_string()),
                _ => {}
            }
        }
        for (k, w) in seen.chunks(2).enumerate() {
            refs.push(json!([lits.get(k), w[0], w.get(1)]));
        }
        (names, refs)
    });
    match r {
        Ok((names, refs)) => {
            rec["names"] = json!(names);
            rec["refs"] = json!(refs);
            rec["st"] = json!("ok");
        }
        Err(_) => rec["st"] = json!("panic"),
    }
    rec
}
