//! The codec as plain functions: one case in, what the code did with it out.

use std::panic::{catch_unwind, AssertUnwindSafe};

use owned_subslice::OwnedSubslice;
use serde_json::{json, value::RawValue, Value};
use socket_io_protocol::{
    engine::{self, Decoder, Message as EngineMessage, Packet as EnginePacket},
    socket::{self, Args, Data, DeserializeResult, Packet, Partial},
};

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

pub fn text_of(v: &Value) -> String {
    v.as_array()
        .unwrap()
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
        .collect()
}

pub fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u8).collect()
}

pub fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!({"r":"panic"}))
}

fn arg_texts(args: &Args) -> Value {
    Value::Array(
        (0..args.len())
            .map(|i| match args.get(i) {
                Some(a) => match a.deserialize::<&RawValue>() {
                    Ok(raw) => cps(raw.get()),
                    Err(_) => json!(["unreadable"]),
                },
                None => json!(["missing"]),
            })
            .collect(),
    )
}

pub fn show_packet(p: &Packet) -> Value {
    let ns = cps(p.namespace());
    match p.data() {
        Data::Connect => json!({"r":"pkt","kind":"connect","ns":ns,"id":[],"len":0,"args":[]}),
        Data::Disconnect => json!({"r":"pkt","kind":"disconnect","ns":ns,"id":[],"len":0,"args":[]}),
        Data::Event { id, args } => json!({"r":"pkt","kind":"event","ns":ns,
            "id":id.map_or(json!([]), |i| cps(&i.to_string())),"len":args.len(),"args":arg_texts(&args)}),
        Data::Ack { id, args } => json!({"r":"pkt","kind":"ack","ns":ns,
            "id":cps(&id.to_string()),"len":args.len(),"args":arg_texts(&args)}),
    }
}

/// The ways in which a text may reach the decoder.
fn message(way: usize, text: &str) -> EngineMessage {
    match way {
        0 => EngineMessage::Text(text.to_string().into()),
        1 => {
            let mut d = Decoder::new();
            d.decode(engine_open()).unwrap();
            match d.decode(engine::encode_message(text)) {
                Ok(EnginePacket::Message(m)) => m,
                x => panic!("not a message: {:?}", x),
            }
        }
        _ => {
            let s = OwnedSubslice::new(format!("é[{}]\"", text), 3..3 + text.len());
            EngineMessage::Text(s)
        }
    }
}

pub fn engine_open() -> async_tungstenite::tungstenite::Message {
    async_tungstenite::tungstenite::Message::Text(
        r#"0{"sid":"s","upgrades":[],"pingInterval":25000,"pingTimeout":5000}"#.into(),
    )
}

fn attachment(i: usize) -> EngineMessage {
    match i % 2 {
        0 => EngineMessage::Binary(vec![i as u8; i % 3].into()),
        _ => EngineMessage::Binary(OwnedSubslice::new(vec![4, 1, 2, i as u8, 9], 1..4)),
    }
}

fn partial(way: usize, text: &str) -> Partial {
    match socket::deserialize(message(way, text)) {
        Ok(DeserializeResult::DataNeeded(p)) => p,
        _ => panic!("another result for the same text"),
    }
}

fn completed(way: usize, text: &str, with: Vec<EngineMessage>) -> Value {
    guarded(|| match socket::deserialize_partial(partial(way, text), with) {
        Ok(p) => show_packet(&p),
        Err(e) => {
            let _ = (e.to_string(), format!("{:?}", e));
            json!({"r":"err"})
        }
    })
}

pub fn text(case: &Value, _: u64) -> Value {
    let text = text_of(&case["cp"]);
    let out: Vec<Value> = (0..3)
        .map(|way| {
            guarded(|| match socket::deserialize(message(way, &text)) {
                Ok(DeserializeResult::Packet(p)) => {
                    let _ = (p.to_string(), format!("{:?}", p));
                    show_packet(&p)
                }
                Ok(DeserializeResult::DataNeeded(p)) => {
                    let _ = format!("{:?}", p);
                    let n = p.attachments();
                    let digits = cps(&n.to_string());
                    if n > 300 {
                        return json!({"r":"need","n":digits,"fin":{"r":"-"},"short":"-","long":"-","text":"-"});
                    }
                    let n = n as usize;
                    let all = |k: usize| (0..k).map(attachment).collect::<Vec<_>>();
                    let mut spoilt = all(n);
                    spoilt[(text.len() + way) % n] = EngineMessage::Text("2[\"x\"]".to_string().into());
                    let r = |v: Value| v["r"].clone();
                    json!({"r":"need","n":digits,
                        "fin":completed(way, &text, all(n)),
                        "short":r(completed(way, &text, all(n - 1))),
                        "long":r(completed(way, &text, all(n + 1))),
                        "text":r(completed(way, &text, spoilt))})
                }
                Err(e) => {
                    let _ = (e.to_string(), format!("{:?}", e));
                    json!({"r":"err"})
                }
            })
        })
        .collect();
    json!({"id":case["id"],"cp":case["cp"],"out":out})
}

// ---------------------------------------------------------------------------------------------
// Owned subslices

/// Negative numbers are ends far beyond everything.
fn end(b: i64) -> usize {
    if b < 0 {
        usize::MAX - (-1 - b) as usize
    } else {
        b as usize
    }
}

fn eqs<S, O: ?Sized>(o: &OwnedSubslice<S>, same: OwnedSubslice<S>, other: OwnedSubslice<S>) -> bool
where
    S: std::ops::Index<std::ops::Range<usize>, Output = O>,
    O: PartialEq + 'static,
{
    let (a, b): (&O, &O) = (&*same, &*other);
    *o == same && same == *o && *o != other && other != *o && *o == a && a == *o && *o != b && b != *o
}

macro_rules! slices {
    ($name:ident, $ty:ty, $make:expr, $mutate:expr, $bytes:expr, $disp:expr, $flags:expr, $extend:expr) => {
        fn $name(case: &Value) -> Vec<Value> {
            let data: $ty = $make(bytes_of(&case["data"]));
            let num = |v: &Value| v.as_i64().unwrap();
            let mut out = Vec::new();
            let look = |o: &OwnedSubslice<$ty>| {
                guarded(|| {
                    let deref: Vec<u8> = $bytes(&**o);
                    let copy: $ty = $make(deref.clone());
                    let mut more = copy.clone();
                    $extend(&mut more);
                    let n = deref.len();
                    let same = if n % 2 == 0 { OwnedSubslice::from(copy) } else { OwnedSubslice::new(more.clone(), 0..n) };
                    json!({"r":"ok","deref":deref,"disp":$disp(o),"dbg":format!("{:?}", o).into_bytes(), "flags": $flags(o),
                        "eq":eqs(o, same, OwnedSubslice::from(more))})
                })
            };
            let made = catch_unwind(AssertUnwindSafe(|| {
                if num(&case["b"]) < 0 {
                    OwnedSubslice::from(data)
                } else {
                    OwnedSubslice::new(data, end(num(&case["a"]))..end(num(&case["b"])))
                }
            }));
            let mut o = made.ok();
            let first = o.as_ref().map_or(json!({"r":"panic"}), look);
            out.push(first);
            for op in case["ops"].as_array().unwrap() {
                let cur = o.take();
                o = cur.and_then(|mut s| {
                    catch_unwind(AssertUnwindSafe(|| match op["op"].as_str().unwrap() {
                        "sub" => s.subslice(end(num(&op["a"]))..end(num(&op["b"]))),
                        "mut" => {
                            $mutate(&mut *s);
                            s
                        }
                        _ => s.clone(),
                    }))
                    .ok()
                });
                out.push(o.as_ref().map_or(json!({"r":"panic"}), look));
            }
            out
        }
    };
}

slices!(
    str_slices,
    String,
    |v: Vec<u8>| String::from_utf8(v).unwrap(),
    |s: &mut str| s.make_ascii_uppercase(),
    |s: &str| s.as_bytes().to_vec(),
    |o: &OwnedSubslice<String>| o.to_string().into_bytes(),
    |o: &OwnedSubslice<String>| format!("{:*>5}|{:.2}", o, o).into_bytes(),
    |s: &mut String| s.push('x')
);
slices!(
    vec_slices,
    Vec<u8>,
    |v: Vec<u8>| v,
    |s: &mut [u8]| s.iter_mut().for_each(|b| *b = b.wrapping_add(1)),
    |s: &[u8]| s.to_vec(),
    |_: &OwnedSubslice<Vec<u8>>| Vec::<u8>::new(),
    |o: &OwnedSubslice<Vec<u8>>| format!("{:3?}", o).into_bytes(),
    |s: &mut Vec<u8>| s.push(0)
);

pub fn slice(case: &Value, _: u64) -> Value {
    let out = if case["str"] == json!(true) { str_slices(case) } else { vec_slices(case) };
    json!({"id":case["id"],"str":case["str"],"data":case["data"],"a":case["a"],"b":case["b"],"ops":case["ops"],"out":out})
}

// ---------------------------------------------------------------------------------------------
// Engine.IO sessions

use async_tungstenite::tungstenite::{
    protocol::{frame::coding::CloseCode, CloseFrame},
    Message as WsMessage,
};

fn shown(m: &WsMessage) -> Value {
    match m {
        WsMessage::Text(t) => json!({"t":"text","d":cps(t)}),
        WsMessage::Binary(b) => json!({"t":"bin","d":b}),
        WsMessage::Ping(b) => json!({"t":"ping","d":b}),
        WsMessage::Pong(b) => json!({"t":"pong","d":b}),
        WsMessage::Close(_) => json!({"t":"close","d":[]}),
    }
}

pub fn engine(case: &Value, _: u64) -> Value {
    let mut d = Decoder::new();
    let (mut out, mut w) = (Vec::new(), Vec::new());
    for (i, m) in case["h"].as_array().unwrap().iter().enumerate() {
        let data = &m["d"];
        let made = catch_unwind(AssertUnwindSafe(|| match m["t"].as_str().unwrap() {
            "text" => WsMessage::Text(text_of(data)),
            "bin" => WsMessage::Binary(bytes_of(data)),
            "ping" => WsMessage::Ping(bytes_of(data)),
            "pong" => WsMessage::Pong(bytes_of(data)),
            "close" if data == &json!([]) => WsMessage::Close(None),
            "close" => WsMessage::Close(Some(CloseFrame { code: CloseCode::Normal, reason: text_of(data).into() })),
            "etext" if i % 2 == 0 => engine::package_message(format!("4{}", text_of(data))),
            "etext" => engine::encode_message(&text_of(data)),
            "ebin" if i % 2 == 0 => {
                let mut v = vec![engine::BINARY_HEADER];
                v.extend(bytes_of(data));
                engine::package_binary(v)
            }
            "ebin" => engine::encode_binary(&bytes_of(data)),
            "eping" => engine::encode_ping(),
            _ => engine::encode_pong(),
        }));
        let msg = match made {
            Ok(m) => m,
            Err(_) => {
                out.push(json!({"r":"panic"}));
                w.push(json!({"t":"panic","d":[]}));
                break;
            }
        };
        w.push(if m["t"] == json!("close") { json!({"t":"close","d":data}) } else { shown(&msg) });
        let r = guarded(|| match d.decode(msg) {
            Ok(p) => {
                let _ = format!("{:?}", p);
                match &p {
                    EnginePacket::Open(o) => json!({"r":"open","sid":cps(&o.sid),
                        "to":cps(&o.ping_timeout.to_string()),"iv":cps(&o.ping_interval.to_string())}),
                    EnginePacket::Close => json!({"r":"eclose"}),
                    EnginePacket::Ping => json!({"r":"eping"}),
                    EnginePacket::Pong => json!({"r":"epong"}),
                    EnginePacket::Message(EngineMessage::Text(t)) => json!({"r":"text","d":cps(t)}),
                    EnginePacket::Message(EngineMessage::Binary(b)) => json!({"r":"bin","d":b.to_vec()}),
                }
            }
            Err(e) => {
                let _ = (e.to_string(), format!("{:?}", e));
                json!({"r":"err"})
            }
        });
        let stop = r["r"] == json!("panic");
        out.push(r);
        if stop {
            break;
        }
    }
    json!({"id":case["id"],"h":case["h"],"out":out,"w":w})
}
