//! Concretisation: the specification speaks of namespaces n0.., events e1.., server ids i1.. and
//! payloads p1..; this module picks the real strings, numbers, JSON values and byte buffers they
//! stand for in one scenario, and recognises them again in what the code produces.

use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};
use serde_json::Value;

use crate::util::{hash_str, Rng};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i64),
    UInt(u64),
    Float(f64),
    Str(String),
    Arr(Vec<Val>),
    Map(Vec<(String, Val)>),
    /// A byte buffer; `true`: handed over with `serialize_bytes`, otherwise as a sequence of u8.
    Bytes(Vec<u8>, bool),
}

impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Val::Null => s.serialize_unit(),
            Val::Bool(b) => s.serialize_bool(*b),
            Val::Int(i) => s.serialize_i64(*i),
            Val::UInt(i) => s.serialize_u64(*i),
            Val::Float(f) => s.serialize_f64(*f),
            Val::Str(x) => s.serialize_str(x),
            Val::Arr(xs) => {
                let mut q = s.serialize_seq(Some(xs.len()))?;
                for x in xs {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Val::Map(xs) => {
                let mut q = s.serialize_map(Some(xs.len()))?;
                for (k, v) in xs {
                    q.serialize_entry(k, v)?;
                }
                q.end()
            }
            Val::Bytes(b, true) => s.serialize_bytes(b),
            Val::Bytes(b, false) => {
                let mut q = s.serialize_seq(Some(b.len()))?;
                for x in b {
                    q.serialize_element(x)?;
                }
                q.end()
            }
        }
    }
}

impl Val {
    /// The JSON value a receiver sees when byte buffers are given as arrays of numbers.
    pub fn plain(&self) -> Value {
        match self {
            Val::Null => Value::Null,
            Val::Bool(b) => Value::Bool(*b),
            Val::Int(i) => (*i).into(),
            Val::UInt(i) => (*i).into(),
            Val::Float(f) => (*f).into(),
            Val::Str(s) => Value::String(s.clone()),
            Val::Arr(xs) => Value::Array(xs.iter().map(Val::plain).collect()),
            Val::Map(xs) => {
                Value::Object(xs.iter().map(|(k, v)| (k.clone(), v.plain())).collect())
            }
            Val::Bytes(b, _) => Value::Array(b.iter().map(|x| Value::from(*x)).collect()),
        }
    }

    /// The JSON text for the wire, with placeholders, and the buffers in placeholder order.
    pub fn wire(&self, out: &mut String, bufs: &mut Vec<Vec<u8>>, binary: bool, rng: &mut Rng) {
        let sp = |rng: &mut Rng| if rng.chance(1, 8) { " " } else { "" };
        match self {
            Val::Bytes(b, by) if binary && (*by || !b.is_empty()) => {
                out.push_str(&format!(
                    "{{\"_placeholder\":{}true,\"num\":{}{}}}",
                    sp(rng),
                    sp(rng),
                    bufs.len()
                ));
                bufs.push(b.clone());
            }
            Val::Arr(xs) => {
                out.push('[');
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push_str(sp(rng));
                    x.wire(out, bufs, binary, rng);
                    out.push_str(sp(rng));
                }
                out.push(']');
            }
            Val::Map(xs) => {
                out.push('{');
                for (i, (k, v)) in xs.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push_str(sp(rng));
                    out.push_str(&serde_json::to_string(k).unwrap());
                    out.push_str(sp(rng));
                    out.push(':');
                    v.wire(out, bufs, binary, rng);
                }
                out.push('}');
            }
            Val::Str(s) if rng.chance(1, 6) => {
                // the same string with some characters escaped that need not be
                out.push('"');
                for c in s.chars() {
                    match c {
                        '/' if rng.chance(1, 2) => out.push_str("\\/"),
                        c if rng.chance(1, 3) => {
                            for u in c.encode_utf16(&mut [0; 2]) {
                                out.push_str(&format!("\\u{:04x}", u));
                            }
                        }
                        c => {
                            let q = serde_json::to_string(&c.to_string()).unwrap();
                            out.push_str(&q[1..q.len() - 1]);
                        }
                    }
                }
                out.push('"');
            }
            other => out.push_str(&other.plain().to_string()),
        }
    }
}

const NAMESPACES: &[&str] = &[
    "/nsp", "/a", "/ab", "/a-b", "/chat/room", "/é", "/n[1]", "/x?token=1", "/12", "/5-", "/q\"q",
    "/with space", "/-1", "/deep/1/2-3", "/Nsp", "/nsp2", "//", "/{}", "/日本", "/1-2", "/0", "/[",
];

const EVENTS: &[&str] = &[
    "event", "msg", "e", "", "connect", "ünï", "a\"b", "a\\b", "with space", "[x]", "a,b",
    "message", "1", "\u{1}ctl", "disconnect", "Msg", "msg2", "日本語", "]", "[\"", "event ", "\n", "🦀",
    "loooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooong",
];

/// An argument that fails to serialize, after some of it has been written.
pub struct Failing(pub u64);

impl Serialize for Failing {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::Error;
        let inner = Failing(self.0 / 5);
        match self.0 % 5 {
            0 => Err(S::Error::custom("no")),
            1 => {
                let mut q = s.serialize_seq(None)?;
                q.serialize_element(&Val::Bytes(vec![1, 2, 3], true))?;
                q.serialize_element(&Val::Str("x".into()))?;
                q.serialize_element(&inner)?;
                q.end()
            }
            2 => {
                let mut q = s.serialize_map(None)?;
                q.serialize_entry("a", &Val::Bytes(vec![4], false))?;
                q.serialize_entry("b", &inner)?;
                q.end()
            }
            3 => {
                // not a key
                let mut q = s.serialize_map(Some(1))?;
                q.serialize_entry(&Val::Arr(vec![]), &Val::Null)?;
                q.end()
            }
            _ => {
                let mut q = s.serialize_seq(Some(3))?;
                q.serialize_element(&7u8)?;
                q.serialize_element(&inner)?;
                q.serialize_element(&8u8)?;
                q.end()
            }
        }
    }
}

/// Names that are easily taken for one another: trimmed, folded, normalised, unescaped, cut.
const NEAR_NS: &[&[&str]] = &[
    &["/a", "/a/", "/A", "/a?x=1", "/a?", "/a ", "/ab", "//a", "/a#b", "/a?x=2"],
    &["/é", "/e\u{301}", "/e", "/É", "/%C3%A9", "/\\u00e9", "/é/", "/é?"],
    &["/1", "/1/", "/01", "/1-", "/1?", "/11", "/1.0", "/+1"],
    &["//", "/ ", "/?", "/#", "///", "/.", "/\"", "/\\", "/\u{0}", "/[]"],
    &["/chat/room", "/chat", "/chat/room/", "/chat//room", "/chat/Room", "/chat/room/1", "/chat?room", "/room"],
];

const NEAR_EV: &[&[&str]] = &[
    &["event", "event ", " event", "Event", "EVENT", "events", "even", "\"event\"", "event\n", "event\u{0}"],
    &["é", "e\u{301}", "e", "É", "\\u00e9", "é ", "%C3%A9", "Ã©"],
    &["a\"b", "a\\\"b", "ab", "a\\b", "a\\\\b", "a b", "a/b", "a\\/b"],
    &["", " ", "\"\"", "null", "\\", "[]", "0", "false"],
    &["1", "01", "1.0", "1 ", "+1", "10", "11", "-1"],
];

const IDS: &[&str] = &[
    "0", "1", "7", "9", "10", "12", "99", "100", "255", "256", "65535", "65536", "2147483648",
    "4294967295", "4294967296", "9007199254740993", "9223372036854775808",
    "18446744073709551615",
];

pub const STRINGS: &[&str] = &[
    "", "a", "hello", "a,b", "[1]", "]", "[", ",[", "\"", "\\", "\\\"", "\n", "\t\r", "\u{1}", "é",
    "日本語", "🦀", "{\"k\":1}", "/nsp,", "_placeholder", "42[\"x\"]", "\u{7f}", "\u{2028}", "null", "2-",
    ",[1]", "\"],[\"",
];

pub struct Conc {
    pub seed: u64,
    pub ns: Vec<String>,
    pub ev: Vec<String>,
    pub id: Vec<String>,
    pub big: bool,
    /// Some buffers and texts are larger than all limits one might think of.
    pub huge: bool,
}

impl Conc {
    pub fn new(seed: u64) -> Conc {
        let mut rng = Rng::derive(seed, &[1]);
        let mut near = Rng::derive(seed, &[4]);
        let some = |rng: &mut Rng, pool: &[&str], n: usize| -> Vec<String> {
            let mut v: Vec<String> = Vec::new();
            while v.len() < n {
                let x = rng.pick(pool).to_string();
                if !v.contains(&x) {
                    v.push(x);
                }
            }
            v
        };
        let mut pick = |pool: &[&str], n: usize| -> Vec<String> {
            let mut v: Vec<String> = Vec::new();
            while v.len() < n {
                let x = rng.pick(pool).to_string();
                if !v.contains(&x) {
                    v.push(x);
                }
            }
            v
        };
        let mut ns = vec!["/".to_string()];
        ns.extend(pick(NAMESPACES, 4));
        let mut ev = pick(EVENTS, 6);
        let mut id = pick(IDS, 8);
        if near.chance(1, 2) {
            let near_ns = *near.pick(NEAR_NS);
            let near_ev = *near.pick(NEAR_EV);
            ns.truncate(1);
            ns.extend(some(&mut near, near_ns, 4));
            ev = some(&mut near, near_ev, 6);
        }
        if rng.chance(1, 2) {
            // small ids, which collide with the client's own
            id = ["0", "1", "2", "3", "4", "5", "6", "7"].iter().map(|s| s.to_string()).collect();
            let k = rng.below(8);
            id.rotate_left(k);
        }
        let big = rng.chance(1, 12);
        let huge = big && rng.chance(1, 4);
        Conc {
            seed,
            ns,
            ev,
            id,
            big,
            huge,
        }
    }

    fn idx(tok: &str) -> usize {
        tok[1..].parse().unwrap()
    }

    pub fn ns(&self, tok: &str) -> &str {
        &self.ns[Self::idx(tok)]
    }
    pub fn ev(&self, tok: &str) -> &str {
        &self.ev[Self::idx(tok)]
    }
    pub fn id(&self, tok: &str) -> &str {
        &self.id[Self::idx(tok)]
    }
    pub fn ns_tok(&self, s: &str) -> String {
        tok_of("n", &self.ns, s)
    }
    pub fn ev_tok(&self, s: &str) -> String {
        tok_of("e", &self.ev, s)
    }
    pub fn id_tok(&self, s: &str) -> String {
        tok_of("i", &self.id, s)
    }

    /// The arguments a payload token stands for.  `n` buffers are spread over them.
    pub fn payload(&self, p: &str, n: usize) -> Vec<Val> {
        if p == "p0" && n == 0 {
            return Vec::new();
        }
        let mut rng = Rng::derive(self.seed, &[2, hash_str(p), n as u64]);
        let mut args = vec![Val::Str(format!("m:{}:{}", p, n))];
        let extra = rng.below(4);
        for _ in 0..extra {
            args.push(self.val(&mut rng, 3));
        }
        for i in 0..n {
            let len = match rng.below(if self.big { 10 } else { 9 }) {
                0 => 0,
                1 => 1,
                2..=6 => 1 + rng.below(16),
                7 => 125 + rng.below(4),
                8 => 200 + rng.below(200),
                _ => 65_530 + rng.below(5000),
            };
            let len = if self.huge && i == 0 && rng.chance(1, 4) {
                *rng.pick(&[140_000, 270_000, 1_100_000])
            } else {
                len
            };
            let mut b = rng.bytes(len);
            // make every buffer of the scenario distinguishable, but for a few empty ones
            if len > 0 || rng.chance(1, 2) {
                b.extend_from_slice(format!("{}#{}", p, i).as_bytes());
            }
            let by = b.is_empty() || rng.chance(1, 2);
            let v = Val::Bytes(b, by);
            let v = match rng.below(4) {
                0 => Val::Arr(vec![v]),
                1 => Val::Map(vec![("k".into(), v)]),
                2 => Val::Map(vec![
                    ("a".into(), self.val(&mut rng, 1)),
                    ("b".into(), Val::Arr(vec![self.val(&mut rng, 0), v])),
                ]),
                _ => v,
            };
            args.push(v);
        }
        if self.big && rng.chance(1, 3) {
            let times = if self.huge && rng.chance(1, 3) { 270_000 } else { 20_000 };
            args.push(Val::Str("x,[\"".repeat(times)));
        }
        if rng.chance(1, 2) {
            // arrays in the last position look like an argument list of their own
            args.push(Val::Arr(vec![self.val(&mut rng, 1)]));
        }
        args
    }

    pub fn val(&self, rng: &mut Rng, depth: usize) -> Val {
        match rng.below(if depth == 0 { 6 } else { 8 }) {
            0 => Val::Null,
            1 => Val::Bool(rng.chance(1, 2)),
            2 => Val::Int(*rng.pick(&[0, -1, 1, 255, 256, -129, i64::MAX, i64::MIN])),
            3 => Val::UInt(*rng.pick(&[0, 4, 255, u64::MAX, 1 << 53])),
            4 => Val::Float(*rng.pick(&[0.5, -1.25, 1e300, 1e-7])),
            5 => Val::Str(rng.pick(STRINGS).to_string()),
            6 => {
                let n = rng.below(4);
                Val::Arr((0..n).map(|_| self.val(rng, depth - 1)).collect())
            }
            _ => {
                let n = rng.below(4);
                let mut m: Vec<(String, Val)> = Vec::new();
                for _ in 0..n {
                    let k = rng.pick(STRINGS).to_string();
                    if k != "_placeholder" && !m.iter().any(|(x, _)| *x == k) {
                        m.push((k, self.val(rng, depth - 1)));
                    }
                }
                Val::Map(m)
            }
        }
    }

    /// Recognise arguments as a payload token: the token if they are exactly what it stands for.
    pub fn recognise(&self, args: &[Value]) -> (String, usize) {
        if args.is_empty() {
            return ("p0".into(), 0);
        }
        let m = match args[0].as_str() {
            Some(m) => m,
            None => return ("?".into(), 0),
        };
        let mut it = m.split(':');
        match (it.next(), it.next(), it.next()) {
            (Some("m"), Some(p), Some(n)) => {
                let n: usize = match n.parse() {
                    Ok(n) => n,
                    Err(_) => return ("?".into(), 0),
                };
                let want: Vec<Value> = self.payload(p, n).iter().map(Val::plain).collect();
                if want == args {
                    (p.to_string(), n)
                } else {
                    ("?".into(), n)
                }
            }
            _ => ("?".into(), 0),
        }
    }

    /// The text of an argument list `[ev?, payload...]` and its buffers.
    pub fn args_text(&self, ev: Option<&str>, p: &str, n: i64) -> (String, Vec<Vec<u8>>) {
        let mut vals = Vec::new();
        if let Some(ev) = ev {
            vals.push(Val::Str(ev.to_string()));
        }
        vals.extend(self.payload(p, std::cmp::max(n, 0) as usize));
        let mut out = String::new();
        let mut bufs = Vec::new();
        let mut rng = Rng::derive(self.seed, &[3, hash_str(p)]);
        Val::Arr(vals).wire(&mut out, &mut bufs, n >= 0, &mut rng);
        (out, bufs)
    }
}

fn tok_of(pre: &str, xs: &[String], s: &str) -> String {
    match xs.iter().position(|x| x == s) {
        Some(i) => format!("{}{}", pre, i),
        None => "?".into(),
    }
}
