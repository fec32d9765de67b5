//! Sessions on real threads: the connection on one, the server on another, two that emit and
//! register through one client, and one with a clone of the public sender.  What each did and saw is
//! recorded for the specification of concurrent histories (SioRace) to judge.

use std::{
    collections::VecDeque,
    io,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        mpsc, Arc, Mutex, MutexGuard,
    },
    task::{Context, Poll, Waker},
    thread,
    time::{Duration, Instant},
};

use async_tungstenite::{accept_async, tungstenite::Message, WebSocketStream};
use futures::{
    executor::block_on,
    future::{FutureExt, FutureObj},
    io::{AsyncRead, AsyncWrite},
    sink::SinkExt,
    stream::StreamExt,
    task::{Spawn, SpawnError},
};
use serde::{Serialize, Serializer};
use serde_json::{json, Value};
use socket_io_client::{protocol::Args, AckBuilder, Client};

use crate::util::*;

/// How long nothing may happen before it is taken to be stuck; not that long if it was often before.
fn stuck() -> Duration {
    Duration::from_millis(if STUCK.load(SeqCst) < 6 { 30_000 } else { 300 })
}

static STUCK: AtomicU64 = AtomicU64::new(0);

fn lock<T: ?Sized>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

#[derive(Default)]
struct Half {
    data: VecDeque<u8>,
    closed: bool,
    wakers: Vec<Waker>,
}

struct End {
    rx: Arc<Mutex<Half>>,
    tx: Arc<Mutex<Half>>,
}

fn wake(m: &Mutex<Half>, f: impl FnOnce(&mut Half)) {
    let w = {
        let mut h = lock(m);
        f(&mut h);
        std::mem::take(&mut h.wakers)
    };
    w.into_iter().for_each(Waker::wake);
}

impl AsyncRead for End {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut h = lock(&self.rx);
        if h.data.is_empty() {
            if h.closed {
                return Poll::Ready(Ok(0));
            }
            h.wakers.push(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(h.data.len());
        for x in buf[..n].iter_mut() {
            *x = h.data.pop_front().unwrap();
        }
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for End {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context, buf: &[u8]) -> Poll<io::Result<usize>> {
        if lock(&self.tx).closed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        wake(&self.tx, |h| h.data.extend(buf));
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
        wake(&self.tx, |h| h.closed = true);
        Poll::Ready(Ok(()))
    }
}

impl Drop for End {
    fn drop(&mut self) {
        wake(&self.rx, |h| h.closed = true);
        wake(&self.tx, |h| h.closed = true);
    }
}

/// Every task on a thread of its own.
struct Threads;

impl Spawn for Threads {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        thread::spawn(move || block_on(f));
        Ok(())
    }
}

struct Bytes(Vec<u8>);

impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}

/// Namespaces and events; the last one has a fallback for its callback.
const NS: [&str; 3] = ["/", "/n", "/m"];

struct Shared {
    client: Mutex<Option<Client>>,
    sends: Mutex<Vec<Value>>,
    calls: Mutex<Vec<Value>>,
    begun: AtomicU64,
    next: AtomicU64,
    /// Callbacks registered so far: about to be, and in force, per namespace.
    started: [AtomicU64; 3],
    done: [AtomicU64; 3],
    token: Arc<()>,
    // of the server
    ins: Mutex<Vec<Value>>,
    wire: Mutex<Vec<Value>>,
    batches: Mutex<Vec<Value>>,
    eof: AtomicBool,
}

fn kth(args: &Args, i: usize) -> i64 {
    args.get(i).and_then(|a| a.deserialize().ok()).unwrap_or(-2)
}

fn emit(sh: &Arc<Shared>, c: &mut Client, rng: &mut Rng) {
    let k = sh.next.fetch_add(1, SeqCst) as i64;
    let ns = rng.below(3);
    let cb = rng.chance(3, 4);
    let bin = rng.chance(1, 3);
    let n = if bin { rng.below(3) } else { 0 };
    let mut b = c.namespace_emit(NS[ns], "e").binary(bin);
    if cb {
        let s = sh.clone();
        let token = sh.token.clone();
        b = b.callback(move |args: &Args| {
            let _ = &token;
            s.begun.fetch_add(1, SeqCst);
            lock(&s.calls).push(json!({"t":"ak","i":-1,"h":k,"hi":0,"k":kth(args, 0),"ack":false}));
        });
    }
    let mut b = b.args().arg(&k).expect("arg");
    for j in 0..n {
        b.arg_ref(&Bytes(vec![k as u8, j as u8])).expect("arg");
    }
    lock(&sh.sends).push(json!({"ns":ns,"k":k,"n":n,"cb":cb}));
    b.send();
}

/// The attachments of the reply to an event.
fn attached(k: i64) -> i64 {
    if k % 3 == 0 {
        1 + k / 3 % 3
    } else {
        0
    }
}

fn register(sh: &Arc<Shared>, c: &mut Client, i: usize, seed: u64) {
    let v = sh.started[i].fetch_add(1, SeqCst) + 1;
    let s = sh.clone();
    let token = sh.token.clone();
    let mut rng = Rng::derive(seed, &[i as u64, v]);
    let f = move |args: &Args, ack: Option<AckBuilder>| {
        let _ = &token;
        s.begun.fetch_add(1, SeqCst);
        let k = kth(args, 1);
        let hi = s.started[i].load(SeqCst);
        let x = match args.get(2) {
            None => 0,
            Some(a) => (a.deserialize::<Vec<u8>>().ok() == Some(vec![k as u8, 1])) as i64 - 2,
        };
        lock(&s.calls).push(json!({"t":"ev","i":i,"h":v,"hi":hi,"k": if x < -1 { -3 } else { k },"ack":ack.is_some()}));
        if rng.chance(1, 8) {
            if let Some(c) = lock(&s.client).as_mut() {
                emit(&s, c, &mut rng);
            }
        }
        if let Some(a) = ack {
            let n = attached(k);
            if let Ok(mut b) = a.binary(n > 0).args().arg(&k) {
                for j in 0..n {
                    let _ = b.arg_ref(&Bytes(vec![k as u8, j as u8]));
                }
                b.send();
            }
        }
    };
    // the last namespace's events are for the fallback or a callback of their own, in turns
    let own = |v: u64| v / 2 % 2 == 1;
    if i == 2 {
        if own(v) {
            c.set_namespace_event_callback(NS[i], "z", f);
        } else {
            c.set_namespace_fallback_callback(NS[i], f);
        }
        if own(v) && !own(v - 1) {
            c.clear_namespace_fallback_callback(NS[i]);
        } else if own(v - 1) && !own(v) {
            c.clear_namespace_event_callback(NS[i], "z");
        }
    } else {
        c.set_namespace_event_callback(NS[i], "e", f);
    }
    sh.done[i].fetch_max(v, SeqCst);
}

/// An application thread.
fn app(sh: &Arc<Shared>, n: usize, regs: usize, seed: u64) {
    let mut rng = Rng::new(seed);
    for _ in 0..n {
        {
            let mut g = lock(&sh.client);
            let c = match g.as_mut() {
                Some(c) => c,
                None => return,
            };
            if regs > 100 {
                // as often as possible
                register(sh, c, 2, seed);
                continue;
            }
            if rng.below(100) < regs {
                match rng.below(8) {
                    0 => c.set_namespace_event_callback(NS[rng.below(2)], "other", |_: &Args, _| ()),
                    1 => c.clear_namespace_event_callback(NS[rng.below(3)], "other"),
                    _ => register(sh, c, rng.below(3), seed),
                }
            } else {
                emit(sh, c, &mut rng);
            }
        }
        pause(&mut rng);
    }
}

fn pause(rng: &mut Rng) {
    match rng.below(8) {
        0 | 1 => thread::yield_now(),
        2 => thread::sleep(Duration::from_micros(rng.below(60) as u64)),
        3 => (0..rng.below(2000)).for_each(|_| std::hint::spin_loop()),
        _ => (),
    }
}

/// What the client has written: packets, put together.
#[derive(Default)]
struct Reader {
    part: Option<(Value, i64)>,
}

impl Reader {
    fn message(&mut self, m: Message) -> Option<Value> {
        let odd = |m: &Message| Some(json!({"t":"?","ns":-1,"id":"-","k":-1,"n":-1,"what":format!("{:?}", m).chars().take(100).collect::<String>()}));
        if let Some((p, mut left)) = self.part.take() {
            let (k, n) = (p["k"].as_i64().unwrap_or(-1), p["n"].as_i64().unwrap_or(-1));
            return match &m {
                Message::Binary(b) if *b == [4, k as u8, (n - left) as u8] => {
                    left -= 1;
                    if left == 0 {
                        Some(p)
                    } else {
                        self.part = Some((p, left));
                        None
                    }
                }
                _ => odd(&m),
            };
        }
        let read = || -> Option<Value> {
            let t = m.to_text().ok()?;
            if !m.is_text() {
                return None;
            }
            if t == "3" {
                return Some(json!({"t":"pong","ns":-1,"id":"-","k":-1,"n":0}));
            }
            let bin = t.starts_with("45") || t.starts_with("46");
            let kind = match t.get(..2)? {
                "42" | "45" => "ev",
                "43" | "46" => "rep",
                _ => return None,
            };
            let mut t = &t[2..];
            let mut n = 0;
            if bin {
                let d = t.find('-')?;
                n = t[..d].parse().ok()?;
                t = &t[d + 1..];
            }
            let mut ns = 0;
            if t.starts_with('/') {
                let c = t.find(',')?;
                ns = NS.iter().position(|x| *x == &t[..c])?;
                t = &t[c + 1..];
            }
            let d = t.find('[')?;
            let id = if d == 0 { "-" } else { &t[..d] };
            let v: Vec<Value> = serde_json::from_str(&t[d..]).ok()?;
            let placed = |v: &[Value]| v.len() as i64 == n && v.iter().enumerate().all(|(i, x)| *x == json!({"_placeholder":true,"num":i}));
            if kind == "rep" {
                return placed(v.get(1..)?).then(|| json!({"t":"rep","ns":ns,"id":id,"k":v[0],"n":n}));
            }
            if v.get(0)? == "raw" {
                return Some(json!({"t":"raw","ns":v.get(2)?,"id":"-","k":v.get(1)?,"n":v.get(3)?}));
            }
            (v[0] == "e" && placed(v.get(2..)?)).then(|| json!({"t":"ev","ns":ns,"id":id,"k":v[1],"n":n}))
        };
        match read() {
            None => odd(&m),
            Some(p) if (p["t"] == "ev" || p["t"] == "rep") && p["n"] != 0 => {
                let n = p["n"].as_i64().unwrap_or(1);
                self.part = Some((p, n));
                None
            }
            Some(p) => Some(p),
        }
    }
}

/// Returns whether the client's close came, and the connection's end.
async fn server(sh: Arc<Shared>, end: End, m: usize, seed: u64, stop: Arc<AtomicBool>) {
    let mut rng = Rng::derive(seed, &[9]);
    let mut s: WebSocketStream<End> = match accept_async(end).await {
        Ok(s) => s,
        Err(_) => return,
    };
    const OPEN: &str = r#"0{"sid":"s","upgrades":[],"pingInterval":25000,"pingTimeout":5000}"#;
    if s.send(Message::Text(OPEN.into())).await.is_err() {
        return;
    }
    // What comes before its callback would be for nobody
    while (0..3).any(|i| sh.done[i].load(SeqCst) == 0) {
        thread::sleep(Duration::from_millis(1));
    }
    let mut reader = Reader::default();
    let mut acks: Vec<(usize, String, i64)> = Vec::new();
    let mut sent = 0;
    let mut closing = false;
    loop {
        let idle = closing || stop.load(SeqCst) || (sent >= m && acks.is_empty());
        let got = if idle { Some(s.next().await) } else { s.next().now_or_never() };
        match got {
            Some(Some(Ok(Message::Close(_)))) => {
                lock(&sh.wire).push(json!({"t":"close","ns":-1,"id":"-","k":-1,"n":0}));
                closing = true;
                continue;
            }
            Some(Some(Ok(x))) => {
                if let Some(p) = reader.message(x) {
                    if p["t"] == "ev" && p["id"] != "-" {
                        acks.push((p["ns"].as_u64().unwrap_or(0) as usize, p["id"].as_str().unwrap_or("").into(), p["k"].as_i64().unwrap_or(-1)));
                    }
                    lock(&sh.wire).push(p);
                }
                continue;
            }
            Some(_) => break, // the end
            None => (),
        }
        let name = |ns: usize| if ns == 0 { String::new() } else { format!("{},", NS[ns]) };
        let mut out: Vec<Message> = Vec::new();
        let mut ins: Vec<Value> = Vec::new();
        if !acks.is_empty() && (sent >= m || rng.chance(2, 3)) {
            let at = rng.below(acks.len());
            let (ns, id, k) = acks.swap_remove(at);
            out.push(Message::Text(format!("43{}{}[{}]", name(ns), id, k + 1)));
            ins.push(json!({"t":"ak","ns":ns,"id":"-","k":k + 1,"of":k,"lo":0}));
        } else if rng.chance(1, 6) {
            out.push(Message::Text("2".into()));
            ins.push(json!({"t":"ping","ns":-1,"id":"-","k":-1,"of":0,"lo":0}));
        } else {
            sent += 1;
            let k = sent as i64;
            let ns = rng.below(3);
            let id = if rng.chance(1, 2) { format!("{}", k * 7) } else { "-".into() };
            let lo = sh.done[ns].load(SeqCst);
            let shown = if id == "-" { "" } else { id.as_str() };
            let ev = if ns == 2 { "z" } else { "e" };
            let ping = rng.chance(1, 8);
            if rng.chance(1, 4) {
                out.push(Message::Text(format!("451-{}{}[\"{}\",{},{{\"_placeholder\":true,\"num\":0}}]", name(ns), shown, ev, k)));
                if ping {
                    out.push(Message::Text("2".into()));
                    ins.push(json!({"t":"ping","ns":-1,"id":"-","k":-1,"of":0,"lo":0}));
                }
                out.push(Message::Binary(vec![4, k as u8, 1]));
            } else {
                out.push(Message::Text(format!("42{}{}[\"{}\",{}]", name(ns), shown, ev, k)));
            }
            ins.push(json!({"t":"ev","ns":ns,"id":id,"k":k,"of":attached(k),"lo":lo}));
        }
        // before it is sent: what it causes may be seen at once
        lock(&sh.ins).extend(ins);
        for x in out {
            if s.send(x).await.is_err() {
                break;
            }
        }
    }
    sh.eof.store(true, SeqCst);
}

pub fn race(case: &Value, seed: u64) -> Value {
    let num = |k: &str| case.get(k).and_then(Value::as_u64).unwrap_or(0) as usize;
    let (n, m, regs, raws) = (num("n"), num("m"), num("regs"), num("raws"));
    let dropped = case["end"] == "drop";
    let mut rng = Rng::derive(seed, &[3]);
    let zero = || [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
    let sh = Arc::new(Shared {
        client: Mutex::new(None),
        sends: Default::default(),
        calls: Default::default(),
        begun: AtomicU64::new(0),
        next: AtomicU64::new(1),
        started: zero(),
        done: zero(),
        token: Arc::new(()),
        ins: Default::default(),
        wire: Default::default(),
        batches: Default::default(),
        eof: AtomicBool::new(false),
    });
    let (a, b) = (Arc::<Mutex<Half>>::default(), Arc::<Mutex<Half>>::default());
    let end = End { rx: a.clone(), tx: b.clone() };
    let other = End { rx: b, tx: a };
    let stop = Arc::new(AtomicBool::new(false));
    let go = Arc::new(AtomicBool::new(false));
    let (tx, ended) = mpsc::channel();
    {
        let (sh, stop, tx) = (sh.clone(), stop.clone(), tx.clone());
        thread::spawn(move || {
            block_on(server(sh, other, m, seed, stop));
            let _ = tx.send("server");
        });
    }
    let connected = block_on(Client::from_stream("ws://localhost/", end, &Threads));
    let mut client = match connected {
        Ok(c) => c,
        Err(e) => return json!({"id":case["id"],"seed":seed.to_string(),"failed":format!("{:?}", e)}),
    };
    for i in 0..3 {
        register(&sh, &mut client, i, seed);
    }
    let sender = client.send.clone();
    *lock(&sh.client) = Some(client);
    let mut threads = Vec::new();
    for _ in 0..2 {
        let (sh, go) = (sh.clone(), go.clone());
        let s = rng.next();
        threads.push(thread::spawn(move || {
            while !go.load(SeqCst) {
                thread::yield_now();
            }
            app(&sh, n, regs, s)
        }));
    }
    {
        let (sh, go) = (sh.clone(), go.clone());
        let mut rng = Rng::new(rng.next());
        threads.push(thread::spawn(move || {
            while !go.load(SeqCst) {
                thread::yield_now();
            }
            for b in 0..raws {
                let j = rng.below(4);
                let batch = (0..j).map(|i| Message::Text(format!("42[\"raw\",{},{},{}]", b, i, j))).collect();
                lock(&sh.batches).push(json!({"k":b,"n":j}));
                let _ = sender.unbounded_send(batch);
                pause(&mut rng);
            }
        }));
    }
    go.store(true, SeqCst);
    let mut outcome = "-".to_string();
    let mut after = 0;
    if dropped {
        // somewhere in the middle
        let (most, since) = (rng.below(m + 1) as u64, Instant::now());
        while sh.begun.load(SeqCst) < most && since.elapsed() < Duration::from_millis(20) {
            std::hint::spin_loop();
        }
        let c = lock(&sh.client).take();
        drop(c);
        after = sh.begun.load(SeqCst);
    }
    let mut died = 0;
    for t in threads {
        died += t.join().is_err() as i64;
    }
    let raw_count = |w: &[Value], t: &str| w.iter().filter(|x| x["t"] == t).count();
    if !dropped {
        // until everything has arrived, or nothing happens anymore
        let mut last = (0, 0, 0);
        let mut since = Instant::now();
        loop {
            let (now, done) = {
                // all of them at one moment
                let (calls, wire, ins, sends) = (lock(&sh.calls), lock(&sh.wire), lock(&sh.ins), lock(&sh.sends));
                let pings = raw_count(&ins, "ping");
                let answers = pings + ins.iter().filter(|x| x["t"] == "ev" && x["id"] != "-").count();
                let done = raw_count(&ins, "ev") >= m
                    && calls.len() == ins.len() - pings
                    && raw_count(&wire, "ev") == sends.len()
                    && raw_count(&wire, "rep") + raw_count(&wire, "pong") == answers
                    && raw_count(&ins, "ak") == sends.iter().filter(|x| x["cb"] == true).count();
                ((calls.len(), wire.len(), ins.len()), done)
            };
            if now != last {
                last = now;
                since = Instant::now();
            }
            let over = since.elapsed() > stuck();
            STUCK.fetch_add(over as u64, SeqCst);
            if done || over {
                break;
            }
            thread::sleep(Duration::from_millis(3));
        }
        stop.store(true, SeqCst);
        let c = lock(&sh.client).take();
        if let Some(mut c) = c {
            let (tx, rx) = mpsc::channel();
            thread::spawn(move || {
                let r = block_on(c.close());
                let _ = tx.send(match r {
                    Ok(()) => "ok".to_string(),
                    Err(e) => format!("{:?}", e),
                });
                drop(c);
            });
            outcome = match rx.recv_timeout(stuck()) {
                Ok(r) => r,
                Err(_) => {
                    STUCK.fetch_add(1, SeqCst);
                    "stuck or died".into()
                }
            };
        }
    }
    let ended = ended.recv_timeout(stuck()).is_ok();
    let since = Instant::now();
    while Arc::strong_count(&sh.token) > 1 && since.elapsed() < stuck() {
        thread::sleep(Duration::from_millis(2));
    }
    let released = Arc::strong_count(&sh.token) == 1;
    STUCK.fetch_add(!(ended && released) as u64, SeqCst);
    let rec = json!({
        "id": case["id"], "seed": seed.to_string(), "end": case["end"], "failed": "-",
        "sends": lock(&sh.sends).clone(), "calls": lock(&sh.calls).clone(), "ins": lock(&sh.ins).clone(),
        "wire": lock(&sh.wire).clone(), "batches": lock(&sh.batches).clone(), "outcome": outcome, "died": died,
        "after": after, "begun": sh.begun.load(SeqCst),
        "released": released, "eof": ended && sh.eof.load(SeqCst),
    });
    rec
}
