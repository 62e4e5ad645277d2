//! Reads a scripted source through the streaming JSON minifier.
use crate::rng::Rng;
use crate::{guarded, minify, Args};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::io::{self, ErrorKind, Read};

pub const KINDS: [(&str, ErrorKind); 11] = [
    ("Other", ErrorKind::Other),
    ("UnexpectedEof", ErrorKind::UnexpectedEof),
    ("BrokenPipe", ErrorKind::BrokenPipe),
    ("PermissionDenied", ErrorKind::PermissionDenied),
    ("TimedOut", ErrorKind::TimedOut),
    ("ConnectionReset", ErrorKind::ConnectionReset),
    ("WouldBlock", ErrorKind::WouldBlock),
    ("InvalidInput", ErrorKind::InvalidInput),
    ("NotFound", ErrorKind::NotFound),
    ("WriteZero", ErrorKind::WriteZero),
    ("InvalidData", ErrorKind::InvalidData),
];

pub fn kind_name(k: ErrorKind) -> String {
    KINDS.iter().find(|x| x.1 == k).map_or_else(|| format!("{k:?}"), |x| x.0.to_owned())
}

struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    resp: VecDeque<usize>,
    fail_at: usize,
    kind: ErrorKind,
    message: bool,
    failures: usize,
}

impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.resp.front() == Some(&0) {
            self.resp.pop_front();
            return Err(ErrorKind::Interrupted.into());
        }
        if self.pos == self.fail_at && self.failures > 0 {
            self.failures -= 1;
            return Err(if self.message { io::Error::new(self.kind, "broken") } else { self.kind.into() });
        }
        let resp = self.resp.pop_front();
        let mut n = buf.len().min(self.data.len() - self.pos);
        if self.fail_at > self.pos {
            n = n.min(self.fail_at - self.pos);
        }
        if let Some(k) = resp {
            n = n.min(k);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn run(_args: &Args, table: &Value, i: usize, seed: u64, v: &Value) -> Value {
    let mut rng = Rng::new(seed, i);
    let units: Vec<(String, usize)> = v["units"]
        .as_array()
        .unwrap()
        .iter()
        .map(|u| (u[0].as_str().unwrap().to_owned(), u[1].as_u64().unwrap() as usize))
        .collect();
    let mut bytes: Vec<Vec<u8>> = Vec::new();
    for (j, (c, w)) in units.iter().enumerate() {
        let mut pool: Vec<&Value> = table[format!("{c}{w}")].as_array().unwrap().iter().collect();
        if c == "m" && j + 1 == units.len() {
            pool.extend(table[format!("t{w}")].as_array().unwrap());
        }
        let b = pool[rng.below(pool.len())];
        bytes.push(b.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect());
    }
    if let Some(b) = v["bytes"].as_array() {
        bytes = b.iter().map(|b| b.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()).collect();
    }
    let data: Vec<u8> = bytes.concat();
    let fail_at = v["failAt"].as_u64().unwrap() as usize;
    let mut sound: Vec<u8> = Vec::new();
    for (j, b) in bytes.iter().enumerate() {
        if units[j].0 == "m" || sound.len() + b.len() > fail_at {
            break;
        }
        sound.extend(b);
    }
    let (name, kind) = KINDS[rng.below(KINDS.len())];
    let (name, kind) = match v["fault"].as_str() {
        Some(f) => *KINDS.iter().find(|x| x.0 == f).unwrap_or(&(name, kind)),
        None => (name, kind),
    };
    let fault = if fail_at != 99999 {
        name
    } else if units.iter().any(|u| u.0 == "m") {
        "InvalidData"
    } else {
        ""
    };
    let (st, mem) = minify("json", std::str::from_utf8(&sound).unwrap());
    // A failure that happens once: reading on gives the rest.
    let once = v["once"].as_bool().unwrap();
    let whole = if fail_at != 99999 { minify("json", std::str::from_utf8(&data).unwrap()).1 } else { mem.clone() };
    let mut source = Source {
        data: &data,
        pos: 0,
        resp: v["src"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
        fail_at,
        kind,
        message: rng.below(2) == 0,
        failures: if once { 1 } else { usize::MAX },
    };
    let bufs: Vec<usize> = v["bufs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let mut ev: Vec<Value> = Vec::new();
    let owned = rng.below(2) == 0;
    {
        let limit = 4 * data.len() + 64;
        let mut go = |r: &mut dyn Read| {
            let (mut after, mut j, mut failed) = (0, 0, false);
            let on = once && fail_at != 99999;
            while after < 3 && j < limit {
                let n = bufs[j % bufs.len()];
                // now and then a buffer without room
                let n = if rng.below(12) == 0 { 0 } else { n };
                let mut buf = vec![0xAA; n];
                match guarded(|| r.read(&mut buf)) {
                    Ok(Ok(k)) if k <= n => {
                        ev.push(json!([n, "ok", &buf[..k]]));
                        if k == 0 && n > 0 || after > 0 && !on {
                            after += 1;
                        }
                    }
                    Ok(Ok(k)) => {
                        ev.push(json!([n, "toomuch", k]));
                        return;
                    }
                    Ok(Err(e)) => {
                        ev.push(json!([n, "err", kind_name(e.kind())]));
                        if on && !failed {
                            failed = true;
                        } else {
                            after += 1;
                        }
                    }
                    Err(p) => {
                        ev.push(json!([n, "panic", p]));
                        return;
                    }
                }
                j += 1;
            }
        };
        if owned {
            go(&mut minifier::json::minify_from_read(source));
        } else {
            go(&mut minifier::json::minify_from_read(&mut source));
        }
    }
    json!({"i": i, "units": v["units"], "failAt": fail_at, "src": v["src"], "bufs": v["bufs"],
           "bytes": bytes, "fault": fault, "st": st, "want": mem.as_bytes(), "ev": ev,
           "once": once, "whole": whole.as_bytes()})
}
