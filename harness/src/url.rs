//! Connecting by URL: what the connector is called with and what the client then writes first.

use std::{
    future::Future,
    io,
    panic::{catch_unwind, AssertUnwindSafe},
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
};

use futures::{
    future::FutureObj,
    task::{noop_waker, Spawn, SpawnError},
};
use futures_timer::Clock;
use serde_json::{json, Value};
use socket_io_client::Client;

use crate::{
    pipe::{self, new_pipe, ClientEnd},
    util::Rng,
    world::{class, sget, Refused},
    ws,
};

struct Queue(Arc<Mutex<Vec<FutureObj<'static, ()>>>>);

impl Spawn for Queue {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.0.lock().unwrap().push(f);
        Ok(())
    }
}

pub fn url(case: &Value, seed: u64) -> Value {
    let clock = Clock::new();
    clock.install();
    let mut rng = Rng::new(seed);
    let text = sget(case, "url").to_string();
    let via = sget(case, "via").to_string();
    let queue = Arc::new(Mutex::new(Vec::new()));
    let calls: Arc<Mutex<Vec<(String, u16)>>> = Arc::default();
    let pipe = new_pipe(seed);
    pipe.lock().unwrap().jitter = rng.chance(1, 2);
    let (c2, p2, v2) = (calls.clone(), pipe.clone(), via.clone());
    let q2 = queue.clone();
    let mut fut: Pin<Box<dyn Future<Output = Result<Client, socket_io_client::Error>>>> = Box::pin(async move {
        let spawn = Queue(q2);
        if v2 == "stream" {
            Client::from_stream(&text, ClientEnd(p2), &spawn).await
        } else {
            let connect = move |h: String, p: u16| {
                c2.lock().unwrap().push((h, p));
                let r = if v2 == "fail" {
                    Err(Refused)
                } else {
                    Ok(ClientEnd(p2.clone()))
                };
                async move { r }
            };
            Client::connect(text.clone(), connect, &spawn).await
        }
    });
    let mut tasks: Vec<FutureObj<'static, ()>> = Vec::new();
    let mut client = None;
    let mut res = "pending".to_string();
    let mut req: Option<ws::HttpReq> = None;
    let mut up = false;
    let mut first = Vec::new();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let w = noop_waker();
        let mut cx = Context::from_waker(&w);
        for _ in 0..400 {
            if res == "pending" {
                match fut.as_mut().poll(&mut cx) {
                    Poll::Ready(Ok(c)) => {
                        client = Some(c);
                        res = "ok".into();
                    }
                    Poll::Ready(Err(e)) => {
                        let _ = (e.to_string(), format!("{:?}", e));
                        res = class(&e).into();
                    }
                    Poll::Pending => (),
                }
            }
            tasks.extend(queue.lock().unwrap().drain(..));
            tasks = std::mem::take(&mut tasks)
                .into_iter()
                .filter_map(|mut t| match Pin::new(&mut t).poll(&mut cx) {
                    Poll::Ready(()) => None,
                    Poll::Pending => Some(t),
                })
                .collect();
            let mut buf = std::mem::take(&mut pipe.lock().unwrap().c2s);
            if first.len() < 4096 {
                first.extend_from_slice(&buf);
            }
            if req.is_none() && first.first() == Some(&b'G') {
                let mut head = first.clone();
                if let Some(q) = ws::take_request(&mut head) {
                    if let Some(resp) = ws::accept_response(&q) {
                        up = true;
                        let mut p = pipe.lock().unwrap();
                        p.s2c.extend(resp);
                        p.s2c.extend(ws::encode(1, true, b"0{\"sid\":\"x\",\"pingTimeout\":1,\"pingInterval\":2}"));
                        drop(p);
                        pipe::wake_reader(&pipe);
                    }
                    req = Some(q);
                }
            }
            buf.clear();
        }
    }));
    if r.is_err() {
        res = "panic".into();
    }
    drop(client);
    let calls = calls.lock().unwrap().clone();
    let kind = match first.first() {
        None => "none",
        Some(b'G') => "http",
        Some(0x16) => "tls",
        _ => "other",
    };
    let hosts: Vec<String> = req
        .iter()
        .flat_map(|q| q.headers.iter())
        .filter(|(k, _)| k.eq_ignore_ascii_case("host"))
        .map(|(_, v)| v.clone())
        .collect();
    let sni = sget(case, "name");
    json!({"id":case["id"],"u":case["u"],"bad":case["bad"],"via":via,"res":res,
        "calls":calls.iter().map(|(h, p)| json!({"host":h,"port":p})).collect::<Vec<_>>(),
        "first":kind,"up":up,
        "line":req.as_ref().map_or("-".to_string(), |q| q.line.clone()),
        "hosts":hosts,
        "sni":!sni.is_empty() && first.windows(sni.len()).any(|w| w == sni.as_bytes())})
}
