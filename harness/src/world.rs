//! One session of the real client against a scripted server, driven step by step.  Every step is
//! recorded, together with everything observable (callback invocations, frames the client wrote,
//! outcomes), as one trace for the specification to judge.

use std::{
    cell::Cell,
    collections::{BTreeMap, HashMap},
    future::Future,
    panic::{catch_unwind, AssertUnwindSafe},
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Arc, Mutex, MutexGuard,
    },
    task::{Context, Poll, Wake, Waker},
    time::Duration,
};

use async_tungstenite::tungstenite::Message as WsMessage;
use futures::{
    channel::oneshot,
    future::{select, Either, FutureObj},
    task::{noop_waker_ref, Spawn, SpawnError},
};
use futures_timer::Clock;
use serde_json::{json, Value};
use socket_io_client::{protocol::Args, AckBuilder, Client, Error};

use crate::{
    conc::{Conc, Failing, Val},
    pipe::{self, new_pipe, ClientEnd, Pipe},
    util::{hash_str, Rng},
    ws,
};

thread_local! {
    pub static PANICKED: Cell<bool> = Cell::new(false);
}

/// Poisoning is data, not a reason for the harness itself to fall over.
fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    match m.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}

pub fn sget<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(Value::as_str).unwrap_or("-")
}
fn iget(v: &Value, k: &str, d: i64) -> i64 {
    v.get(k).and_then(Value::as_i64).unwrap_or(d)
}
fn bget(v: &Value, k: &str) -> bool {
    v.get(k).and_then(Value::as_bool).unwrap_or(false)
}

// ---------------------------------------------------------------------------------------------
// Executor

type Hook = Arc<dyn Fn() + Send + Sync>;

struct Flag {
    set: AtomicBool,
    hook: Mutex<Option<Hook>>,
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.set.store(true, SeqCst);
        let h = lock(&self.hook).clone();
        if let Some(h) = h {
            h();
        }
    }
}

fn flag() -> Arc<Flag> {
    Arc::new(Flag {
        set: AtomicBool::new(true),
        hook: Mutex::new(None),
    })
}

struct Task {
    fut: Option<FutureObj<'static, ()>>,
    flag: Arc<Flag>,
}

struct Spawner {
    queue: Arc<Mutex<Vec<FutureObj<'static, ()>>>>,
    fail: bool,
}

impl Spawn for Spawner {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        if self.fail {
            return Err(SpawnError::shutdown());
        }
        lock(&self.queue).push(f);
        Ok(())
    }
}

/// What the server side and the executor own: can be run from any thread.
struct Core {
    pipe: Pipe,
    conc: Arc<Conc>,
    queue: Arc<Mutex<Vec<FutureObj<'static, ()>>>>,
    tasks: Vec<Task>,
    panicked: bool,
    upgraded: bool,
    req: Option<ws::HttpReq>,
    tx: Vec<Value>,
    /// Outbound packet whose attachments are still expected.
    pend: Vec<(String, usize, Vec<u8>)>,
    /// Ids of the acknowledgeable events seen, per payload token.
    ids: BTreeMap<String, Vec<String>>,
    autoack: bool,
    autolog: Vec<Value>,
    frag: bool,
    rng: Rng,
    livelock: bool,
    /// Frames as they are, instead of `tx`.
    raw: Option<Vec<ws::Frame>>,
}

impl Core {
    fn absorb(&mut self) {
        let new: Vec<_> = lock(&self.queue).drain(..).collect();
        for f in new {
            self.tasks.push(Task {
                fut: Some(f),
                flag: flag(),
            });
        }
    }

    /// Poll every woken task once; true if any was.
    fn poll_tasks(&mut self) -> bool {
        self.absorb();
        let mut any = false;
        for t in self.tasks.iter_mut() {
            if t.fut.is_none() || !t.flag.set.swap(false, SeqCst) {
                continue;
            }
            any = true;
            let waker: Waker = t.flag.clone().into();
            let mut cx = Context::from_waker(&waker);
            PANICKED.with(|p| p.set(false));
            let r = catch_unwind(AssertUnwindSafe(|| {
                Pin::new(t.fut.as_mut().unwrap()).poll(&mut cx)
            }));
            if PANICKED.with(|p| p.get()) {
                self.panicked = true;
            }
            match r {
                Ok(Poll::Pending) => (),
                Ok(Poll::Ready(())) => t.fut = None,
                Err(_) => {
                    self.panicked = true;
                    t.fut = None;
                }
            }
        }
        any
    }

    fn task_state(&self) -> &'static str {
        if self.panicked {
            "panic"
        } else if self.tasks.is_empty() {
            "none"
        } else if self.tasks.iter().all(|t| t.fut.is_none()) {
            "done"
        } else {
            "run"
        }
    }

    /// Read what the client wrote.
    fn pump(&mut self) -> bool {
        let mut buf = std::mem::take(&mut lock(&self.pipe).c2s);
        let mut any = false;
        if self.req.is_none() {
            if let Some(r) = ws::take_request(&mut buf) {
                self.req = Some(r);
                any = true;
            }
        }
        if self.req.is_some() {
            while let Some(f) = ws::take_frame(&mut buf) {
                any = true;
                if f.op == 10 && f.masked && f.fin {
                    continue; // the WebSocket layer answers its own pings
                }
                if let Some(raw) = self.raw.as_mut() {
                    raw.push(f);
                    continue;
                }
                let rec = self.classify(f);
                if self.autoack && sget(&rec, "t") == "pkt" && sget(&rec, "k") == "event" {
                    let id = sget(&rec, "id").to_string();
                    let gone = {
                        let s = lock(&self.pipe);
                        s.eof || s.read_err.is_some()
                    };
                    if id != "-" && !gone {
                        let fr = json!({"t":"ack","ns":sget(&rec,"ns"),"id":id,"n":-1,"p":"p90"});
                        let bytes = self.server_bytes(&fr);
                        lock(&self.pipe).s2c.extend(bytes);
                        pipe::wake_reader(&self.pipe);
                        self.autolog.push(fr);
                    }
                }
                self.tx.push(rec);
            }
        }
        let mut s = lock(&self.pipe);
        buf.extend_from_slice(&s.c2s);
        s.c2s = buf;
        any
    }

    /// An id that no emission has had, mostly one between those of others if there is one: it may
    /// have been given to an emission that was not sent.
    fn absent_id(&self, odd: usize) -> String {
        let seen: std::collections::BTreeSet<u64> =
            self.ids.values().flatten().filter_map(|id| id.parse().ok()).collect();
        let max = seen.iter().next_back().cloned().unwrap_or(0).min(100_000);
        let free: Vec<u64> = (0..max).filter(|id| !seen.contains(id)).collect();
        if free.is_empty() || odd % 4 == 0 {
            "999999".into()
        } else {
            free[odd % free.len()].to_string()
        }
    }

    fn unknown(&self, why: &str, f: &ws::Frame) -> Value {
        let x: String = String::from_utf8_lossy(&f.data).chars().take(200).collect();
        json!({"t":"?","x":format!("{}: op {} {:?}", why, f.op, x)})
    }

    /// Abstract one frame written by the client.
    fn classify(&mut self, f: ws::Frame) -> Value {
        if !f.masked || !f.fin {
            return self.unknown("unmasked or fragmented", &f);
        }
        match f.op {
            8 => json!({"t":"wsclose"}),
            1 => {
                let text = match String::from_utf8(f.data.clone()) {
                    Ok(t) => t,
                    Err(_) => return self.unknown("not utf-8", &f),
                };
                if text == "3" {
                    return json!({"t":"pong"});
                }
                if let Some(p) = text.strip_prefix("40/raw,") {
                    return json!({"t":"raw","p":p});
                }
                match self.classify_packet(&text) {
                    Some(v) => v,
                    None => self.unknown("text", &f),
                }
            }
            2 => {
                if f.data.first() != Some(&4) {
                    return self.unknown("binary without header byte", &f);
                }
                if f.data.starts_with(b"\x04raw/") {
                    return json!({"t":"raw","p":String::from_utf8_lossy(&f.data[5..])});
                }
                if self.pend.is_empty() {
                    return self.unknown("unannounced attachment", &f);
                }
                let (p, i, want) = self.pend.remove(0);
                if want[..] != f.data[1..] {
                    return self.unknown("wrong attachment content", &f);
                }
                json!({"t":"att","p":p,"i":i})
            }
            9 if f.data.starts_with(b"w") => json!({"t":"raw","p":String::from_utf8_lossy(&f.data)}),
            _ => self.unknown("opcode", &f),
        }
    }

    /// Independent reading of a well-formed outbound packet.
    fn classify_packet(&mut self, text: &str) -> Option<Value> {
        let rest = text.strip_prefix('4')?;
        let (kind, bin) = match rest.chars().next()? {
            '2' => ("event", false),
            '3' => ("ack", false),
            '5' => ("event", true),
            '6' => ("ack", true),
            _ => return None,
        };
        let mut rest = &rest[1..];
        let mut n: i64 = -1;
        if bin {
            let d = rest.find('-')?;
            let t = &rest[..d];
            if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
                return None;
            }
            n = t.parse().ok()?;
            rest = &rest[d + 1..];
        }
        let mut ns = "/";
        if rest.starts_with('/') {
            let c = rest.find(',')?;
            ns = &rest[..c];
            rest = &rest[c + 1..];
        }
        let d = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
        let id = &rest[..d];
        let json: Vec<Value> = serde_json::from_str(&rest[d..]).ok()?;
        let ns_tok = self.conc.ns_tok(ns);
        let (ev, args) = if kind == "event" {
            let e = json.first()?.as_str()?.to_string();
            (self.conc.ev_tok(&e), json[1..].to_vec())
        } else {
            ("-".to_string(), json)
        };
        let p = if args.is_empty() {
            "p0".to_string()
        } else {
            let m = args[0].as_str()?.to_string();
            let mut it = m.split(':');
            let (_, p, k) = (it.next()?, it.next()?.to_string(), it.next()?.parse::<usize>().ok()?);
            // the arguments must be the payload's, with a placeholder for every buffer
            let vals = self.conc.payload(&p, k);
            let want = if bin {
                let mut t = String::new();
                let mut bufs = Vec::new();
                Val::Arr(vals).wire(&mut t, &mut bufs, true, &mut Rng::new(0));
                if bufs.len() as i64 != n {
                    return None;
                }
                for (i, b) in bufs.into_iter().enumerate() {
                    self.pend.push((p.clone(), i + 1, b));
                }
                serde_json::from_str::<Value>(&t).ok()?
            } else {
                Val::Arr(vals).plain()
            };
            if want != Value::Array(args) {
                return None;
            }
            p
        };
        let id = if id.is_empty() {
            "-".to_string()
        } else if kind == "event" {
            self.ids.entry(p.clone()).or_default().push(id.to_string());
            id.to_string()
        } else {
            self.conc.id_tok(id)
        };
        Some(json!({"t":"pkt","k":kind,"ns":ns_tok,"ev":ev,"id":id,"n":n,"p":p}))
    }

    /// The bytes of one server frame.
    fn server_bytes(&mut self, f: &Value) -> Vec<u8> {
        let conc = self.conc.clone();
        let k = sget(f, "k").to_string();
        let (op, data): (u8, Vec<u8>) = match sget(f, "t") {
            "open" => (
                1,
                [
                    &b"0{\"sid\":\"s1\",\"upgrades\":[],\"pingInterval\":25000,\"pingTimeout\":5000}"[..],
                    b"0{\"pingTimeout\":20000,\"sid\":\"\",\"pingInterval\":25000}",
                    b"0{ \"sid\":\"a\\\"b\",\"upgrades\":[\"x\"],\"maxPayload\":100000,\"pingTimeout\":0,\"pingInterval\":18446744073709551615}",
                ][self.rng.below(3)]
                .to_vec(),
            ),
            "eclose" => (1, b"1".to_vec()),
            "ping" => (1, [&b"2"[..], b"2probe", b"2"][self.rng.below(3)].to_vec()),
            "pong" => (1, [&b"3"[..], b"3probe", b"3"][self.rng.below(3)].to_vec()),
            "wsping" => (9, b"wp".to_vec()),
            "wspong" => (10, b"wq".to_vec()),
            "wsclose" => (8, [vec![], vec![3, 232], vec![3, 233, b'x']][self.rng.below(3)].clone()),
            "connect" | "disconnect" => {
                let d = if sget(f, "t") == "connect" { '0' } else { '1' };
                let ns = conc.ns(sget(f, "ns"));
                let t = if ns == "/" {
                    format!("4{}", d)
                } else {
                    format!("4{}{},", d, ns)
                };
                (1, t.into_bytes())
            }
            t @ "event" | t @ "ack" => {
                let n = iget(f, "n", -1);
                let ev = if t == "event" {
                    Some(conc.ev(sget(f, "ev")))
                } else {
                    None
                };
                // A count that stands for all those that are too large
                let far = n >= 1_000_000;
                let (args, _) = conc.args_text(ev, sget(f, "p"), if far { 2 } else { n });
                let kind = match (t, n >= 0) {
                    ("event", false) => '2',
                    ("event", true) => '5',
                    (_, false) => '3',
                    (_, true) => '6',
                };
                let mut s = format!("4{}", kind);
                if far {
                    let counts = ["1000000", "4294967296", "4294967297", "1099511627776", "9223372036854775807",
                                  "9223372036854775808", "18446744073709551614", "18446744073709551615"];
                    s.push_str(&format!("{}-", counts[self.rng.below(8)]));
                } else if n >= 0 {
                    s.push_str(&format!("{}-", n));
                }
                let ns = conc.ns(sget(f, "ns"));
                if ns != "/" {
                    s.push_str(ns);
                    s.push(',');
                }
                match (t, sget(f, "id")) {
                    (_, "-") => (),
                    ("event", i) => s.push_str(conc.id(i)),
                    (_, i) => s.push_str(i),
                }
                s.push_str(&args);
                (1, s.into_bytes())
            }
            "att" => {
                let n = iget(f, "n", 1);
                let i = iget(f, "i", 1) as usize;
                let (_, bufs) = conc.args_text(None, sget(f, "p"), n);
                let mut d = vec![4u8];
                d.extend_from_slice(&bufs[i - 1]);
                (2, d)
            }
            // violations of the Engine.IO framing
            "ebad" => match k.as_str() {
                "empty" => (1, vec![]),
                "type" => (
                    1,
                    self.rng
                        .pick(&["5", "6", "7", "9", "x", " 2", "é2", "-1", "/", "\u{4}", "٤"])
                        .as_bytes()
                        .to_vec(),
                ),
                "open" => (
                    1,
                    [
                        &b"0"[..],
                        b"0{}",
                        b"0{\"sid\":1,\"pingInterval\":1,\"pingTimeout\":1}",
                        b"0{\"sid\":\"x\",\"pingInterval\":1}",
                        b"0{\"sid\":\"x\",\"pingInterval\":-1,\"pingTimeout\":1}",
                        b"0[1,2",
                    ][self.rng.below(6)]
                    .to_vec(),
                ),
                "bempty" => (2, vec![]),
                "bhdr" => (2, vec![[0u8, 3, 5, b'4', 132, 255][self.rng.below(6)], 1, 2]),
                _ => (1, vec![]),
            },
            // text messages that are no Socket.IO packet
            "sbad" => {
                let pool: &[&str] = match k.as_str() {
                    "syntax" => &[
                        "", "4", "7", "9[\"a\"]", "2x", "2[\"a\"", "2[\"a\"]x", "2\"a\"", "2{}", "2/nsp[\"a\"]",
                        "2nsp,[\"a\"]", "201[\"a\"]", "21-2-[\"a\"]", "x2[\"a\"]", "2 [\"a\"]", "2-1[\"a\"]",
                    ],
                    "json" => &[
                        "2[\"a\",]", "2[\"a\" 1]", "2[\"a\",\"\\x\"]", "2[a]", "2[\"a\"]]", "2[[\"a\"]", "2[\"\u{1}\"]",
                        "2[01]", "2[\"a\",1.]", "2[\"a\",+1]", "2['a']", "2[\"a\",nul]",
                    ],
                    "overflow" => &[
                        "218446744073709551616[\"a\"]",
                        "299999999999999999999999[\"a\"]",
                        "318446744073709551616[\"a\"]",
                        "518446744073709551616-[\"a\",{\"_placeholder\":true,\"num\":0}]",
                        "6340282366920938463463374607431768211456-1[\"a\"]",
                    ],
                    "missing" => &["2", "2[]", "21", "21[]", "2/nsp,", "3[\"a\"]", "3", "3/nsp,[1]", "5[\"a\"]", "6[\"a\"]", "61[\"a\"]", "50-", "50-[]", "60-[1]", "5-[\"a\"]"],
                    "extra" => &["01", "0[\"a\"]", "01-", "1[1]", "17", "0/nsp,1", "1/nsp,[1]", "21-[\"a\"]", "33-1[1]", "29-[\"a\"]"],
                    "evname" => &["2[1]", "2[null,\"a\"]", "2[{\"a\":1}]", "2[[\"a\"]]", "2[true]", "21[4]", "2/nsp,[1.5]"],
                    _ => &["x"],
                };
                (1, format!("4{}", self.rng.pick(pool)).into_bytes())
            }
            // a binary message that is no attachment of anything
            "stray" => (2, vec![4, 1, 2, 3]),
            // violations of the WebSocket protocol
            "wsbad" => {
                let pool: &[&[u8]] = match k.as_str() {
                    "rsv" => &[b"\xc1\x012", b"\xa1\x012", b"\x91\x012", b"\xc9\x00"],
                    "opcode" => &[b"\x83\x012", b"\x87\x00", b"\x8b\x00", b"\x8f\x012"],
                    "control" => &[b"\x09\x00", b"\x0a\x012", b"\x08\x00"],
                    "utf8" => &[b"\x81\x022\xff", b"\x81\x024\xc3", b"\x01\x012\x80\x01\xff", b"\x81\x044\xed\xa0\x80"],
                    "continue" => &[b"\x80\x012", b"\x00\x012", b"\x80\x00"],
                    "nested" => &[b"\x01\x014\x81\x012", b"\x02\x01\x04\x82\x01\x04", b"\x01\x014\x01\x012"],
                    "masked" => &[b"\x81\x81\x00\x00\x00\x002", b"\x82\x81\x01\x02\x03\x04\x05"],
                    "close" => &[b"\x88\x01\x03"],
                    _ => &[b"\xff\xff"],
                };
                let mut b = self.rng.pick(pool).to_vec();
                if k == "control" && self.rng.chance(1, 4) {
                    b = ws::encode(9, true, &[b'x'; 126]);
                }
                return b;
            }
            t => panic!("unknown server frame {}", t),
        };
        let mut out = Vec::new();
        if self.frag && op < 8 && data.len() > 1 && self.rng.chance(1, 2) {
            // WebSocket fragmentation, with a control frame in between now and then
            let cut = 1 + self.rng.below(data.len() - 1);
            out.extend(ws::encode(op, false, &data[..cut]));
            if self.rng.chance(1, 3) {
                out.extend(ws::encode(10, true, b"mid"));
            }
            out.extend(ws::encode(0, true, &data[cut..]));
        } else {
            out.extend(ws::encode(op, true, &data));
        }
        out
    }

    fn run_tasks(&mut self) {
        for _ in 0..200_000 {
            let a = self.poll_tasks();
            let b = self.pump();
            if !a && !b {
                return;
            }
        }
        self.livelock = true;
    }
}

// ---------------------------------------------------------------------------------------------
// What callbacks can reach

pub struct Shared {
    conc: Arc<Conc>,
    client: Mutex<Option<Client>>,
    calls: Mutex<Vec<Value>>,
    /// What was found instead of a known payload, per call.
    notes: Mutex<Vec<String>>,
    stash: Mutex<Vec<Option<AckBuilder>>>,
    /// What became of a close() within a callback.
    closed: Mutex<Option<String>>,
    /// Cloned into every callback: tells when all of them have been released.
    token: Arc<()>,
    /// How many operations there were: they take turns to be made in equivalent ways.
    turns: AtomicU64,
}

fn args_values(args: &Args) -> Option<Vec<Value>> {
    let mut out = Vec::new();
    for a in args.iter() {
        out.push(a.to_json_value().ok()?);
    }
    if out.len() != args.len() {
        return None;
    }
    Some(out)
}

/// Gives a builder its arguments and sends it, unless it is to be abandoned.  With "x": "ref" some
/// additions fail in between; with "arg" one does that takes the builder with it.
macro_rules! give_args {
    ($sh:expr, $op:expr, $b:expr, $vals:expr) => {{
        let (sh, op, vals) = ($sh, $op, $vals);
        let mut b = Some($b);
        let x = op.get("x").and_then(Value::as_str).unwrap_or("-");
        let mut rng = Rng::derive(sh.conc.seed, &[5, hash_str(sget(op, "p"))]);
        let at = rng.below(vals.len() + 1);
        for i in 0..=vals.len() {
            if x == "ref" && (i == at || rng.chance(1, 2)) {
                let r = b.as_mut().unwrap().arg_ref(&Failing(rng.next()));
                if r.is_ok() {
                    lock(&sh.calls).push(
                        json!({"k":"failure not reported","h":"-","ev":"-","p":"-","n":0,"ack":false}),
                    );
                    lock(&sh.notes).push(String::new());
                }
            } else if x == "arg" && i == at {
                b = b.unwrap().arg(&Failing(rng.next())).ok();
                if b.is_none() {
                    break;
                }
            }
            if let Some(v) = vals.get(i) {
                if i % 2 == 0 {
                    b = Some(b.unwrap().arg(v).expect("arg"));
                } else {
                    b.as_mut().unwrap().arg_ref(v).expect("arg");
                }
            }
        }
        if let (Some(b), true) = (b, sget(op, "a") != "abandon") {
            b.send();
        }
    }};
}

fn on_event(sh: &Arc<Shared>, h: &str, script: &[Value], args: &Args, ack: Option<AckBuilder>) {
    let (ev, p, n) = match args_values(args) {
        Some(v) if !v.is_empty() => {
            let ev = v[0].as_str().map(|s| sh.conc.ev_tok(s)).unwrap_or("?".into());
            let (p, n) = sh.conc.recognise(&v[1..]);
            (ev, p, n)
        }
        _ => ("?".into(), "?".into(), 0),
    };
    let x = if p == "?" || ev == "?" {
        format!("{:?}", args_values(args)).chars().take(300).collect()
    } else {
        String::new()
    };
    lock(&sh.calls).push(
        json!({"k":"ev","h":h,"ev":ev,"p":p,"n":n,"ack":ack.is_some()}),
    );
    lock(&sh.notes).push(x);
    run_script(sh, script, ack);
}

fn run_script(sh: &Arc<Shared>, script: &[Value], mut ack: Option<AckBuilder>) {
    for op in script {
        match sget(op, "a") {
            "reply" => {
                if let Some(a) = ack.take() {
                    send_ack(sh, a, op);
                }
            }
            "keep" => {
                if let Some(a) = ack.take() {
                    lock(&sh.stash).push(Some(a));
                }
            }
            _ => client_op(sh, op),
        }
    }
}

fn send_ack(sh: &Arc<Shared>, a: AckBuilder, op: &Value) {
    let conc = &sh.conc;
    let bin = bget(op, "bin");
    let vals = conc.payload(sget(op, "p"), iget(op, "n", 0) as usize);
    let mut way = Rng::derive(conc.seed, &[8, sh.turns.fetch_add(1, SeqCst)]);
    let a = match way.below(4) {
        0 => a.binary(!bin).binary(bin),
        1 if !bin => a,
        _ => a.binary(bin),
    };
    let b = a.args();
    give_args!(sh, op, b, vals);
}

/// An operation on the client, from the application or from inside a callback.
fn client_op(sh: &Arc<Shared>, op: &Value) {
    if sget(op, "a") == "dropme" {
        let c = lock(&sh.client).take();
        drop(c);
        return;
    }
    let mut guard = lock(&sh.client);
    let c = match guard.as_mut() {
        Some(c) => c,
        None => return,
    };
    if sget(op, "a") == "closeme" {
        // start to close, and give up on it
        let mut f = Box::pin(c.close());
        let r = f.as_mut().poll(&mut Context::from_waker(noop_waker_ref()));
        drop(f);
        *lock(&sh.closed) = Some(match r {
            Poll::Pending => "cancelled".into(),
            Poll::Ready(Ok(())) => "ok".into(),
            Poll::Ready(Err(e)) => format!("err:{}", class(&e)),
        });
        return;
    }
    let conc = sh.conc.clone();
    let script: Vec<Value> = op
        .get("s")
        .and_then(Value::as_array)
        .cloned()
        .unwrap_or_default();
    let h = sget(op, "h").to_string();
    let ns_t = sget(op, "ns").to_string();
    let ns = if ns_t == "-" { "/" } else { conc.ns(&ns_t) };
    let mut way = Rng::derive(conc.seed, &[7, sh.turns.fetch_add(1, SeqCst)]);
    let short = way.chance(1, 2) && ns == "/";
    match sget(op, "a") {
        "reg" => {
            let sh2 = sh.clone();
            let token = sh.token.clone();
            let f = move |a: &Args, k: Option<AckBuilder>| {
                let _ = &token;
                on_event(&sh2, &h, &script, a, k)
            };
            if short {
                c.set_event_callback(conc.ev(sget(op, "ev")), f)
            } else {
                c.set_namespace_event_callback(ns, conc.ev(sget(op, "ev")), f)
            }
        }
        "fb" => {
            let sh2 = sh.clone();
            let token = sh.token.clone();
            let f = move |a: &Args, k: Option<AckBuilder>| {
                let _ = &token;
                on_event(&sh2, &h, &script, a, k)
            };
            if short {
                c.set_fallback_callback(f)
            } else {
                c.set_namespace_fallback_callback(ns, f)
            }
        }
        "unreg" => {
            if short {
                c.clear_event_callback(conc.ev(sget(op, "ev")))
            } else {
                c.clear_namespace_event_callback(ns, conc.ev(sget(op, "ev")))
            }
        }
        "unfb" => {
            if short {
                c.clear_fallback_callback()
            } else {
                c.clear_namespace_fallback_callback(ns)
            }
        }
        "emit" | "abandon" => {
            let ev = conc.ev(sget(op, "ev"));
            let n = iget(op, "n", 0) as usize;
            let bin = bget(op, "bin");
            let vals = conc.payload(sget(op, "p"), n);
            let mut b = if short {
                c.emit(ev)
            } else {
                c.namespace_emit(ns, ev)
            };
            // binary before or after the callback
            let late = way.chance(1, 2);
            if !late {
                if bin || way.chance(1, 2) {
                    b = b.binary(bin);
                }
            } else if way.chance(1, 4) {
                b = b.binary(!bin);
            }
            let cb = sget(op, "cb").to_string();
            if cb != "-" {
                if way.chance(1, 8) {
                    // a callback that is replaced
                    let sh2 = sh.clone();
                    let token = sh.token.clone();
                    b = b.callback(move |_: &Args| {
                        let _ = &token;
                        lock(&sh2.calls).push(
                            json!({"k":"a replaced callback","h":"-","ev":"-","p":"-","n":0,"ack":false}),
                        );
                        lock(&sh2.notes).push(String::new());
                    });
                }
                let sh2 = sh.clone();
                let token = sh.token.clone();
                b = b.callback(move |args: &Args| {
                    let _ = &token;
                    let (p, n) = match args_values(args) {
                        Some(v) => sh2.conc.recognise(&v),
                        None => ("?".into(), 0),
                    };
                    let x = if p == "?" {
                        format!("{:?}", args_values(args)).chars().take(300).collect()
                    } else {
                        String::new()
                    };
                    lock(&sh2.calls).push(
                        json!({"k":"ak","h":cb,"ev":"-","p":p,"n":n,"ack":false}),
                    );
                    lock(&sh2.notes).push(x);
                    run_script(&sh2, &script, None);
                });
            }
            if late {
                b = b.binary(bin);
            }
            let b = b.args();
            give_args!(sh, op, b, vals);
        }
        "raw" => {
            // texts, binary messages and pings
            let batch = (1..=iget(op, "k", 1))
                .map(|j| {
                    let p = format!("{}x{}", sget(op, "p"), j);
                    match j % 3 {
                        1 => WsMessage::Text(format!("40/raw,{}", p)),
                        2 => WsMessage::Binary(format!("\x04raw/{}", p).into_bytes()),
                        _ => WsMessage::Ping(p.into_bytes()),
                    }
                })
                .collect();
            let _ = c.send.unbounded_send(batch);
        }
        a => panic!("unknown op {}", a),
    }
}

// ---------------------------------------------------------------------------------------------

/// What the application's connector fails with: to be returned as it is.
#[derive(Debug)]
pub struct Refused;

impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "refused")
    }
}

impl std::error::Error for Refused {}

pub fn class(e: &Error) -> &'static str {
    match e {
        Error::UrlError(..) => "url",
        Error::WebsocketError(_) => "ws",
        Error::ConnectionError(e) if e.is::<Refused>() => "conn",
        Error::ConnectionError(_) => "conn?",
        Error::SpawnError(_) => "spawn",
        Error::ProcessingError(_) => "proc",
        Error::Timeout(_) => "timeout",
        Error::AlreadyClosed => "already",
    }
}

type ConnectFut = Pin<Box<dyn Future<Output = Result<Client, Error>>>>;
/// The client comes back with the result, or without one if the call was given up.
type CloseFut = Pin<Box<dyn Future<Output = (Client, Option<Result<(), Error>>)>>>;

pub struct World {
    core: Arc<Mutex<Core>>,
    pipe: Pipe,
    clock: Clock,
    shared: Arc<Shared>,
    connect: Option<(ConnectFut, Arc<Flag>)>,
    close: Option<(CloseFut, Arc<Flag>)>,
    give_up: Option<oneshot::Sender<()>>,
    dial: Option<oneshot::Sender<bool>>,
    by_connector: bool,
    conn: String,
    closed: String,
    ev: Vec<Value>,
    last: Value,
    eager: bool,
    spawn_fail: bool,
}

fn poll_main<T>(f: &mut Pin<Box<dyn Future<Output = T>>>, fl: &Arc<Flag>) -> Result<Option<T>, ()> {
    if !fl.set.swap(false, SeqCst) {
        return Ok(None);
    }
    let waker: Waker = fl.clone().into();
    let mut cx = Context::from_waker(&waker);
    match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut cx))) {
        Ok(Poll::Ready(x)) => Ok(Some(x)),
        Ok(Poll::Pending) => Ok(None),
        Err(_) => Err(()),
    }
}

impl World {
    pub fn new(script: &Value, seed: u64) -> World {
        let cfg = script.get("cfg").cloned().unwrap_or(json!({}));
        let conc = Arc::new(Conc::new(seed));
        let pipe = new_pipe(seed ^ 0x51);
        {
            let mut s = lock(&pipe);
            let mut rng = Rng::derive(seed, &[7]);
            if cfg.get("net").is_some() {
                match sget(&cfg, "net") {
                    "whole" => (),
                    "bytes" => {
                        s.max_read = 1;
                        s.max_write = 1;
                    }
                    "jitter" => s.jitter = true,
                    "spurious" => {
                        s.jitter = true;
                        s.spurious = 6;
                    }
                    _ => (),
                }
            } else if !conc.big {
                match rng.below(5) {
                    0 => s.jitter = true,
                    1 => {
                        s.jitter = true;
                        s.spurious = 4;
                    }
                    2 => {
                        s.max_read = 1 + rng.below(7);
                        s.max_write = 1 + rng.below(7);
                    }
                    _ => (),
                }
            }
        }
        let clock = Clock::new();
        clock.install();
        let queue = Arc::new(Mutex::new(Vec::new()));
        let core = Core {
            pipe: pipe.clone(),
            conc: conc.clone(),
            queue,
            tasks: Vec::new(),
            panicked: false,
            upgraded: false,
            req: None,
            tx: Vec::new(),
            pend: Vec::new(),
            ids: BTreeMap::new(),
            autoack: bget(&cfg, "eager"),
            autolog: Vec::new(),
            frag: sget(&cfg, "net") == "frag" || (cfg.get("net").is_none() && seed % 3 == 0),
            rng: Rng::derive(seed, &[9]),
            livelock: false,
            raw: None,
        };
        World {
            core: Arc::new(Mutex::new(core)),
            pipe,
            clock,
            shared: Arc::new(Shared {
                closed: Mutex::new(None),
                conc,
                client: Mutex::new(None),
                calls: Mutex::new(Vec::new()),
                notes: Mutex::new(Vec::new()),
                stash: Mutex::new(Vec::new()),
                token: Arc::new(()),
                turns: AtomicU64::new(0),
            }),
            connect: None,
            close: None,
            give_up: None,
            dial: None,
            by_connector: seed % 5 < 2,
            conn: "-".into(),
            closed: "-".into(),
            ev: Vec::new(),
            last: Value::Null,
            eager: bget(&cfg, "eager"),
            spawn_fail: bget(&cfg, "spawnfail"),
        }
    }

    /// Let everything that can run, run.
    fn settle(&mut self) {
        for _ in 0..200_000 {
            let mut any = false;
            if let Some((f, fl)) = self.connect.as_mut() {
                let was = fl.set.load(SeqCst);
                match poll_main(f, fl) {
                    Ok(Some(r)) => {
                        match r {
                            Ok(c) => {
                                *lock(&self.shared.client) = Some(c);
                                self.conn = "ok".into();
                            }
                            Err(e) => self.conn = format!("err:{}", class(&e)),
                        }
                        self.connect = None;
                    }
                    Ok(None) => (),
                    Err(()) => {
                        self.conn = "panic".into();
                        self.connect = None;
                    }
                }
                any |= was;
            }
            if let Some((_, fl)) = self.close.as_ref() {
                any |= fl.set.load(SeqCst);
                self.poll_close();
            }
            {
                let mut c = lock(&self.core);
                any |= c.poll_tasks();
                any |= c.pump();
            }
            if !any {
                return;
            }
        }
        lock(&self.core).livelock = true;
    }

    fn poll_close(&mut self) {
        let (f, fl) = match self.close.as_mut() {
            Some(x) => x,
            None => return,
        };
        match poll_main(f, fl) {
            Ok(Some((c, r))) => {
                self.closed = match r {
                    Some(Ok(())) => "ok".into(),
                    Some(Err(e)) => format!("err:{}", class(&e)),
                    None => "cancelled".into(),
                };
                *lock(&self.shared.client) = Some(c);
            }
            Ok(None) => return,
            Err(()) => self.closed = "panic".into(),
        }
        self.close = None;
        self.give_up = None;
    }

    fn obs(&mut self, q: bool) {
        let (nt, task, live, autos) = {
            let mut c = lock(&self.core);
            let autos: Vec<Value> = c.autolog.drain(..).collect();
            (c.tx.len(), c.task_state(), c.livelock, autos)
        };
        if !autos.is_empty() {
            self.ev.push(json!({"a":"srv","f":autos}));
        }
        let nc = lock(&self.shared.calls).len();
        let drop = lock(&self.pipe).dropped;
        let rel = Arc::strong_count(&self.shared.token) == 1;
        if let Some(c) = lock(&self.shared.closed).take() {
            self.closed = c;
        }
        let rec = json!({"a":"obs","q":q,"nc":nc,"nt":nt,"conn":self.conn,"close":self.closed,
            "task": if live { "livelock" } else { task }, "gone": drop, "rel": rel});
        let mut key = rec.clone();
        key["q"] = json!(false);
        if q || key != self.last {
            self.ev.push(rec);
            self.last = key;
        }
    }

    /// In eager mode, run the connection on another thread whenever it is woken, and let it finish
    /// before the waking thread continues: the schedule an idle multi-threaded executor produces.
    fn install_eager(&mut self) {
        let core = self.core.clone();
        let me = std::thread::current().id();
        let busy = Arc::new(AtomicBool::new(false));
        let hook: Hook = Arc::new(move || {
            if std::thread::current().id() != me || busy.swap(true, SeqCst) {
                return;
            }
            let core = core.clone();
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                lock(&core).run_tasks();
                let _ = tx.send(());
            });
            let _ = rx.recv_timeout(Duration::from_millis(500));
            busy.store(false, SeqCst);
        });
        for t in lock(&self.core).tasks.iter() {
            *lock(&t.flag.hook) = Some(hook.clone());
        }
    }

    fn eager_off(&mut self) {
        for t in lock(&self.core).tasks.iter() {
            *lock(&t.flag.hook) = None;
        }
    }

    pub fn step(&mut self, st: &Value) {
        let a = sget(st, "a").to_string();
        if a != "run" {
            self.obs(false);
        }
        match a.as_str() {
            "connect" => {
                let end = ClientEnd(self.pipe.clone());
                let spawner = Spawner {
                    queue: lock(&self.core).queue.clone(),
                    fail: self.spawn_fail,
                };
                let later = sget(st, "via") == "later";
                self.ev.push(json!({"a":"connect","via": if later { "later" } else { "now" }}));
                self.conn = "pend".into();
                const URL: &str = "http://localhost:8000/socket.io/";
                let f: ConnectFut = if later || self.by_connector {
                    let (tx, rx) = oneshot::channel::<bool>();
                    if later {
                        self.dial = Some(tx);
                    } else {
                        let _ = tx.send(true);
                    }
                    let slot = Mutex::new(Some((end, rx)));
                    let connector = move |_host: String, _port: u16| {
                        let it = lock(&slot).take();
                        async move {
                            if let Some((end, rx)) = it {
                                if rx.await == Ok(true) {
                                    return Ok(end);
                                }
                            }
                            Err(Refused)
                        }
                    };
                    Box::pin(async move { Client::connect(URL, connector, &spawner).await })
                } else {
                    Box::pin(async move { Client::from_stream(URL, end, &spawner).await })
                };
                self.connect = Some((f, flag()));
                self.settle();
                self.obs(true);
            }
            "dial" => {
                // the connector is done
                if let (Some(d), true) = (self.dial.take(), self.connect.is_some()) {
                    self.ev.push(st.clone());
                    let _ = d.send(sget(st, "k") == "ok");
                }
            }
            "http" => {
                // the upgrade request must have been written by now
                let k = sget(st, "k").to_string();
                {
                    let s = lock(&self.pipe);
                    if s.eof || s.read_err.is_some() {
                        return;
                    }
                }
                let mut rec = st.clone();
                let mut c = lock(&self.core);
                if c.req.is_none() && (self.conn != "pend" || self.dial.is_some()) {
                    return; // there never was a connection
                }
                let bytes = match (k.as_str(), &c.req) {
                    (_, None) => {
                        rec["k"] = json!("norequest");
                        Vec::new()
                    }
                    ("ok", Some(r)) => match ws::accept_response(r) {
                        Some(b) => b,
                        None => {
                            rec["k"] = json!("badrequest");
                            Vec::new()
                        }
                    },
                    ("404", _) => b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n".to_vec(),
                    ("200", _) => b"HTTP/1.1 200 OK\r\n\r\n".to_vec(),
                    ("key", Some(r)) => {
                        let b = ws::accept_response(r).unwrap_or_default();
                        let mut t = String::from_utf8_lossy(&b).to_string();
                        if let Some(i) = t.to_lowercase().find("sec-websocket-accept: ") {
                            t.replace_range(i + 22..i + 23, if &t[i + 22..i + 23] == "A" { "B" } else { "A" });
                        }
                        t.into_bytes()
                    }
                    ("garbage", _) => b"\x00\x01\x02 hello\r\n\r\n".to_vec(),
                    ("part", Some(r)) => {
                        let b = ws::accept_response(r).unwrap_or_default();
                        b[..b.len() / 2].to_vec()
                    }
                    ("rest", Some(r)) => {
                        let b = ws::accept_response(r).unwrap_or_default();
                        b[b.len() / 2..].to_vec()
                    }
                    (k, _) => panic!("http {}", k),
                };
                c.upgraded = k == "ok" || k == "rest";
                drop(c);
                lock(&self.pipe).s2c.extend(bytes);
                pipe::wake_reader(&self.pipe);
                self.ev.push(rec);
            }
            "srv" => {
                {
                    // nothing is sent before the upgrade, or by a server that is gone
                    let s = lock(&self.pipe);
                    if s.eof || s.read_err.is_some() || !lock(&self.core).upgraded {
                        return;
                    }
                }
                let mut out = Vec::new();
                for f in st["f"].as_array().cloned().unwrap_or_default() {
                    let mut f = f;
                    if sget(&f, "t") == "ack" && f.get("id").is_none() {
                        // acknowledge the k-th emission of a payload, if it was seen
                        let of = sget(&f, "of").to_string();
                        let k = iget(&f, "k", 0) as usize;
                        let odd = self.ev.len();
                        let id = {
                            let core = lock(&self.core);
                            match core.ids.get(&of).and_then(|v| v.get(k)) {
                                Some(id) => id.clone(),
                                None => core.absent_id(odd),
                            }
                        };
                        f["id"] = json!(id);
                    }
                    let b = lock(&self.core).server_bytes(&f);
                    lock(&self.pipe).s2c.extend(b);
                    out.push(f);
                }
                self.ev.push(json!({"a":"srv","f":out}));
                pipe::wake_reader(&self.pipe);
            }
            "run" => {
                self.settle();
                self.obs(true);
            }
            "eof" | "rderr" if lock(&self.pipe).eof || lock(&self.pipe).read_err.is_some() => (),
            "eof" => {
                lock(&self.pipe).eof = true;
                self.ev.push(st.clone());
                pipe::wake_reader(&self.pipe);
            }
            "rderr" => {
                lock(&self.pipe).read_err = Some(std::io::ErrorKind::ConnectionAborted);
                self.ev.push(st.clone());
                pipe::wake_reader(&self.pipe);
            }
            "wrerr" => {
                lock(&self.pipe).write_err = Some(std::io::ErrorKind::BrokenPipe);
                self.ev.push(st.clone());
                pipe::wake_writer(&self.pipe);
            }
            "stall" => {
                lock(&self.pipe).stalled = true;
                self.ev.push(st.clone());
            }
            "unstall" => {
                lock(&self.pipe).stalled = false;
                self.ev.push(st.clone());
                pipe::wake_writer(&self.pipe);
            }
            "tick" => {
                self.ev.push(st.clone());
                self.clock
                    .advance(Duration::from_millis(iget(st, "ms", 0) as u64));
            }
            "ack" => {
                let j = iget(st, "j", 1) as usize;
                let b = lock(&self.shared.stash)
                    .get_mut(j - 1)
                    .and_then(Option::take);
                if let Some(b) = b {
                    self.ev.push(st.clone());
                    let sh = self.shared.clone();
                    self.guarded(|| send_ack(&sh, b, st));
                    self.ev.push(json!({"a":"ret"}));
                }
            }
            "close" => {
                if self.close.is_some() {
                    return;
                }
                let c = lock(&self.shared.client).take();
                if let Some(mut c) = c {
                    self.ev.push(st.clone());
                    self.closed = "pend".into();
                    let (tx, rx) = oneshot::channel::<()>();
                    let f: CloseFut = Box::pin(async move {
                        let r = match select(Box::pin(c.close()), rx).await {
                            Either::Left((r, _)) => Some(r),
                            Either::Right(_) => None,
                        };
                        (c, r)
                    });
                    self.give_up = Some(tx);
                    self.close = Some((f, flag()));
                    // the call itself runs up to its first wait
                    self.poll_close();
                }
            }
            "cclose" => {
                // give up on a pending close(), unless it is done by now
                if let Some(g) = self.give_up.take() {
                    let _ = g.send(());
                    self.poll_close();
                    if self.closed == "cancelled" {
                        self.ev.push(st.clone());
                    }
                }
            }
            "drop" => {
                // a client that is being closed is dropped together with its close() call
                let had = self.close.take().is_some();
                self.give_up = None;
                let c = lock(&self.shared.client).take();
                if c.is_some() || had {
                    self.ev.push(st.clone());
                    drop(c);
                    if had {
                        self.closed = "-".into();
                    }
                }
            }
            "cancel" => {
                // give up on a pending connect()
                if self.connect.take().is_some() {
                    self.ev.push(st.clone());
                    self.conn = "cancelled".into();
                }
            }
            _ => {
                if lock(&self.shared.client).is_none() {
                    return;
                }
                self.ev.push(st.clone());
                if self.eager {
                    self.install_eager();
                }
                let sh = self.shared.clone();
                self.guarded(|| client_op(&sh, st));
                if self.eager {
                    self.eager_off();
                    self.obs(false);
                }
                self.ev.push(json!({"a":"ret"}));
            }
        }
    }

    fn guarded(&mut self, f: impl FnOnce()) {
        if catch_unwind(AssertUnwindSafe(f)).is_err() {
            self.ev.push(json!({"a":"oppanic"}));
        }
    }

    pub fn finish(self, id: &Value, seed: u64) -> Value {
        let core = lock(&self.core);
        let calls = lock(&self.shared.calls).clone();
        let ids: HashMap<String, Vec<String>> = core.ids.clone().into_iter().collect();
        let notes: Vec<String> = lock(&self.shared.notes).iter().filter(|x| !x.is_empty()).cloned().collect();
        json!({"id":id,"seed":seed.to_string(),"calls":calls,"tx":core.tx,"ev":self.ev,"ids":ids,
            "eager":self.eager,"spawnable":!self.spawn_fail,"notes":notes})
    }
}

pub fn run_script_file(script: &Value, seed: u64) -> Value {
    let mut w = World::new(script, seed);
    for st in script["steps"].as_array().cloned().unwrap_or_default() {
        w.step(&st);
    }
    let id = script.get("id").cloned().unwrap_or(Value::Null);
    w.finish(&id, seed)
}

// ---------------------------------------------------------------------------------------------

const SOAK_NS: [&str; 3] = ["/", "/a", "/chat/x"];

fn soak_text(kind: char, ns: usize, id: &str, args: &str) -> Vec<u8> {
    let ns = if ns == 0 { String::new() } else { format!("{},", SOAK_NS[ns]) };
    format!("4{}{}{}{}", kind, ns, id, args).into_bytes()
}

/// What a client wrote in a long session: [t, ns, id, k].
fn soak_frame(f: &ws::Frame) -> Value {
    let read = || -> Option<Value> {
        if f.op != 1 || !f.masked || !f.fin {
            return None;
        }
        let t = std::str::from_utf8(&f.data).ok()?;
        if t == "3" {
            return Some(json!({"t":"pong","ns":-1,"id":"-","k":-1}));
        }
        let kind = if t.starts_with("42") { "ev" } else if t.starts_with("43") { "rep" } else { return None };
        let mut t = &t[2..];
        let mut ns = 0;
        if t.starts_with('/') {
            let c = t.find(',')?;
            ns = SOAK_NS.iter().position(|n| *n == &t[..c])?;
            t = &t[c + 1..];
        }
        let d = t.find('[')?;
        let id = if d == 0 { "-" } else { &t[..d] };
        let v: Vec<Value> = serde_json::from_str(&t[d..]).ok()?;
        let k = v.last()?.as_i64()?;
        if (kind == "ev") != (v.len() == 2 && v[0] == "e") || (kind == "rep") != (v.len() == 1) {
            return None;
        }
        Some(json!({"t":kind,"ns":ns,"id":id,"k":k}))
    };
    read().unwrap_or_else(|| {
        let x: String = String::from_utf8_lossy(&f.data).chars().take(200).collect();
        json!({"t":"?","ns":-1,"id":x,"k":-1})
    })
}

/// A long session in rounds: the application emits, the server answers, the connection runs.
pub fn soak(case: &Value, seed: u64) -> Value {
    let mut rng = Rng::derive(seed, &[31]);
    let mut w = World::new(&json!({"cfg":{"net":"whole"}}), seed);
    for st in [
        json!({"a":"connect"}),
        json!({"a":"http","k":"ok"}),
        json!({"a":"run"}),
        json!({"a":"srv","f":[{"t":"open"}]}),
        json!({"a":"run"}),
    ] {
        w.step(&st);
    }
    lock(&w.core).raw = Some(Vec::new());
    let calls: Arc<Mutex<Vec<Value>>> = Default::default();
    if let Some(c) = lock(&w.shared.client).as_mut() {
        for (i, ns) in SOAK_NS.iter().enumerate() {
            let calls = calls.clone();
            c.set_namespace_event_callback(ns, "e", move |args: &Args, ack: Option<AckBuilder>| {
                let k = args.get(1).and_then(|a| a.deserialize::<i64>().ok()).unwrap_or(-2);
                lock(&calls).push(json!({"t":"ev","h":i,"k":k,"ack":ack.is_some()}));
                if let Some(a) = ack {
                    if let Ok(b) = a.args().arg(&k) {
                        b.send();
                    }
                }
            });
        }
    }
    let total = iget(case, "n", 1000);
    let per = iget(case, "per", 300);
    let keep = iget(case, "keep", 100) as usize;
    let mut sent = 0i64;
    let mut k = 0i64;
    let mut open: Vec<(i64, usize, String)> = Vec::new();
    let mut rounds: Vec<Value> = Vec::new();
    let mut used: Vec<String> = Vec::new();
    while rounds.len() < 5000 && (sent < total || !open.is_empty()) {
        let mut emits = Vec::new();
        for _ in 0..per {
            if sent >= total {
                break;
            }
            k += 1;
            let ns = rng.below(3);
            let cb = !rng.chance(1, 10);
            emits.push(json!({"ns":ns,"k":k,"cb":cb}));
            if let Some(c) = lock(&w.shared.client).as_mut() {
                let mut b = c.namespace_emit(SOAK_NS[ns], "e");
                if cb {
                    let (calls, h) = (calls.clone(), k);
                    b = b.callback(move |args: &Args| {
                        let k = args.get(0).and_then(|a| a.deserialize::<i64>().ok()).unwrap_or(-2);
                        lock(&calls).push(json!({"t":"ak","h":h,"k":k,"ack":false}));
                    });
                    sent += 1;
                }
                if let Ok(b) = b.args().arg(&k) {
                    b.send();
                }
            }
        }
        // the server answers some of what it saw in earlier rounds, in any order
        let mut ins = Vec::new();
        let mut bytes = Vec::new();
        let left = if sent < total { keep } else { 0 };
        while open.len() > left {
            let i = rng.below(open.len());
            let (of, ns, id) = open.swap_remove(i);
            k += 1;
            bytes.extend(ws::encode(1, true, &soak_text('3', ns, &id, &format!("[{}]", k))));
            ins.push(json!({"t":"ack","ns":ns,"id":id,"k":k,"of":of}));
            match rng.below(12) {
                0 => {
                    bytes.extend(ws::encode(1, true, b"2"));
                    ins.push(json!({"t":"ping","ns":-1,"id":"-","k":-1,"of":-1}));
                }
                1 | 2 => {
                    k += 1;
                    let ns = rng.below(3);
                    let id = if rng.chance(1, 2) { k.to_string() } else { "-".to_string() };
                    let t = if id == "-" { "" } else { &id };
                    bytes.extend(ws::encode(1, true, &soak_text('2', ns, t, &format!("[\"e\",{}]", k))));
                    ins.push(json!({"t":"ev","ns":ns,"id":id,"k":k,"of":-1}));
                }
                _ => (),
            }
        }
        lock(&w.pipe).s2c.extend(bytes);
        pipe::wake_reader(&w.pipe);
        w.settle();
        let frames = std::mem::take(lock(&w.core).raw.as_mut().unwrap());
        let wire: Vec<Value> = frames.iter().map(soak_frame).collect();
        for f in &wire {
            if sget(f, "t") == "ev" && sget(f, "id") != "-" {
                used.push(sget(f, "id").to_string());
                open.push((iget(f, "k", -1), iget(f, "ns", 0).max(0) as usize, sget(f, "id").to_string()));
            }
        }
        let called = std::mem::take(&mut *lock(&calls));
        let task = lock(&w.core).task_state();
        rounds.push(json!({"emits":emits,"ins":ins,"wire":wire,"calls":called,"task":task}));
        if task != "run" {
            break;
        }
    }
    json!({"id":case["id"],"rounds":rounds,"ids":used,"done":open.is_empty() && sent >= total})
}
