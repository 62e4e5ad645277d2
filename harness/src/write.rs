//! Writes a minified result into a scripted writer.
use crate::lex::{layouts, render, Layout};
use crate::rng::Rng;
use crate::stream::{kind_name, KINDS};
use crate::{guarded, Args};
use serde_json::{json, Value};
use std::fmt::Write as _;
use std::io::{self, ErrorKind, Write};

struct Sink<'a> {
    resp: Vec<usize>,
    calls: usize,
    at: usize,
    how: &'a str,
    taken: usize,
    ev: &'a mut Vec<Value>,
}

impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        assert!(self.ev.len() < 100_000, "endless writing");
        let n = self.resp[self.calls % self.resp.len()];
        self.calls += 1;
        if n == 0 {
            self.ev.push(json!([buf.len(), "Interrupted", []]));
            return Err(ErrorKind::Interrupted.into());
        }
        let mut k = n.min(buf.len());
        if self.how != "no" {
            if self.taken >= self.at {
                // The failure happens once; what comes after it is taken.
                let how = std::mem::replace(&mut self.how, "no");
                if how == "zero" {
                    self.ev.push(json!([buf.len(), "ok", []]));
                    return Ok(0);
                }
                self.ev.push(json!([buf.len(), how, []]));
                let kind = KINDS.iter().find(|x| x.0 == how).unwrap().1;
                return Err(if self.at % 2 == 0 { io::Error::new(kind, "refused") } else { kind.into() });
            }
            k = k.min(self.at - self.taken);
        }
        self.taken += k;
        self.ev.push(json!([buf.len(), "ok", buf[..k].to_vec()]));
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Limited {
    left: usize,
    taken: Vec<u8>,
    failed: bool,
}
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.taken.extend(s.bytes());
        Ok(())
    }
}

macro_rules! go {
    ($min:expr, $sink:expr, $lim:expr) => {{
        let m = $min;
        let shown = m.to_string();
        let again = format!("{m}");
        let fok = write!($lim, "{m}").is_ok();
        let st = match m.write($sink) {
            Ok(()) => "ok".to_owned(),
            Err(e) => kind_name(e.kind()),
        };
        (shown.clone(), shown == again, fok, st)
    }};
}

pub fn run(_args: &Args, lay: Option<&Layout>, i: usize, seed: u64, v: &Value) -> Value {
    let mut rng = Rng::new(seed, i);
    let src = match v["src"].as_str() {
        Some(s) => s.to_owned(),
        None => {
            let gaps = layouts(lay.unwrap(), v, 4, false, &mut rng);
            render(v, &gaps[3], &|a, _| lay.unwrap().atoms[a].0.clone())
        }
    };
    let mut ev = Vec::new();
    let mut lim = Limited { left: v["at"].as_u64().unwrap() as usize, taken: vec![], failed: false };
    let sink = Sink {
        resp: v["resp"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
        calls: 0,
        at: v["at"].as_u64().unwrap() as usize,
        how: v["how"].as_str().unwrap(),
        taken: 0,
        ev: &mut ev,
    };
    let r = guarded(|| -> Result<_, &'static str> {
        Ok(match v["lang"].as_str().unwrap() {
            "js" => go!(minifier::js::minify(&src)?, sink, lim),
            "css" => go!(minifier::css::minify(&src)?, sink, lim),
            "json" => go!(minifier::json::minify(&src), sink, lim),
            l => panic!("language {l}"),
        })
    });
    let (shown, same, fok, st) = match r {
        Ok(Ok(r)) => r,
        // Not minified: nothing to write.
        Ok(Err(_)) => (String::new(), true, true, "ok".to_owned()),
        Err(_) => (String::new(), true, true, "panic".to_owned()),
    };
    json!({
        "src": src, "lang": v["lang"], "resp": v["resp"], "at": v["at"], "how": v["how"],
        "shown": shown.bytes().collect::<Vec<u8>>(), "same": same, "fok": fok, "ffailed": lim.failed,
        "ftaken": lim.taken, "st": st, "ev": ev,
    })
}
