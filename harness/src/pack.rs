//! Packets on their way out: arguments described as data, written by the builder.

use std::{
    collections::HashSet,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::Mutex,
};

use async_tungstenite::tungstenite::Message as WsMessage;
use serde::{
    ser::{
        Error as _, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
        SerializeTupleStruct, SerializeTupleVariant,
    },
    Serialize, Serializer,
};
use serde_json::{json, value::RawValue, Value};
use socket_io_protocol::{
    engine::{Decoder, Message as EngineMessage, Packet as EnginePacket},
    socket::{self, DeserializeResult, PacketBuilder},
};

use crate::pure::{bytes_of, cps, engine_open, guarded, show_packet, text_of};

static NAMES: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);

/// Names in serde's data model are static.
pub fn name(v: &Value) -> &'static str {
    let s = text_of(v);
    let mut names = NAMES.lock().unwrap();
    let names = names.get_or_insert_with(HashSet::new);
    match names.get(s.as_str()) {
        Some(n) => n,
        None => {
            let n: &'static str = Box::leak(s.into_boxed_str());
            names.insert(n);
            n
        }
    }
}

pub struct Node<'a>(pub &'a Value);

struct Bytes<'a>(&'a [u8]);

impl<'a> Serialize for Bytes<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}

fn number<T: std::str::FromStr>(s: &str) -> T {
    s.parse().unwrap_or_else(|_| panic!("number {}", s))
}

impl<'a> Node<'a> {
    fn list(&self) -> &'a Vec<Value> {
        self.0["v"].as_array().unwrap()
    }
    fn inner(&self) -> Node<'a> {
        Node(&self.0["v"])
    }
    fn fields(&self) -> usize {
        self.list().iter().filter(|f| f["skip"] != json!(true)).count()
    }
    fn hint(&self) -> Option<usize> {
        if self.0["hint"] == json!(true) {
            Some(self.list().len())
        } else {
            None
        }
    }
}

impl<'a> Serialize for Node<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let n = self.0;
        let text = || text_of(&n["cp"]);
        match n["k"].as_str().unwrap() {
            "bool" => s.serialize_bool(n["b"] == json!(true)),
            "int" => {
                let t = text();
                match n["ty"].as_str().unwrap() {
                    "i8" => s.serialize_i8(number(&t)),
                    "i16" => s.serialize_i16(number(&t)),
                    "i32" => s.serialize_i32(number(&t)),
                    "i64" => s.serialize_i64(number(&t)),
                    "i128" => s.serialize_i128(number(&t)),
                    "u8" => s.serialize_u8(number(&t)),
                    "u16" => s.serialize_u16(number(&t)),
                    "u32" => s.serialize_u32(number(&t)),
                    "u64" => s.serialize_u64(number(&t)),
                    "u128" => s.serialize_u128(number(&t)),
                    t => panic!("type {}", t),
                }
            }
            "float" => match n["ty"].as_str().unwrap() {
                "f32" => s.serialize_f32(number(&text())),
                _ => s.serialize_f64(number(&text())),
            },
            "char" => s.serialize_char(text().chars().next().unwrap()),
            "str" => s.serialize_str(&text()),
            "hr" => {
                if s.is_human_readable() {
                    s.serialize_str(&text())
                } else {
                    s.serialize_bytes(text().as_bytes())
                }
            }
            "disp" => s.collect_str(&text()),
            "raw" => RawValue::from_string(text()).unwrap().serialize(s),
            "bytes" => s.serialize_bytes(&bytes_of(&n["d"])),
            "none" => s.serialize_none(),
            "unit" => s.serialize_unit(),
            "ustruct" => s.serialize_unit_struct("Unit"),
            "uvar" => s.serialize_unit_variant("Enum", 3, name(&n["cp"])),
            "some" => s.serialize_some(&self.inner()),
            "newtype" => s.serialize_newtype_struct("New", &self.inner()),
            "newvar" => s.serialize_newtype_variant("Enum", 1, name(&n["cp"]), &self.inner()),
            "seq" => {
                let mut q = s.serialize_seq(self.hint())?;
                for x in self.list() {
                    q.serialize_element(&Node(x))?;
                }
                q.end()
            }
            "tuple" => {
                let mut q = s.serialize_tuple(self.list().len())?;
                for x in self.list() {
                    q.serialize_element(&Node(x))?;
                }
                q.end()
            }
            "tstruct" => {
                let mut q = s.serialize_tuple_struct("Tup", self.list().len())?;
                for x in self.list() {
                    q.serialize_field(&Node(x))?;
                }
                q.end()
            }
            "tvar" => {
                let mut q = s.serialize_tuple_variant("Enum", 2, name(&n["cp"]), self.list().len())?;
                for x in self.list() {
                    q.serialize_field(&Node(x))?;
                }
                q.end()
            }
            "map" => {
                let mut q = s.serialize_map(self.hint())?;
                for e in self.list() {
                    if n["kv"] == json!(true) {
                        q.serialize_key(&Node(&e["key"]))?;
                        q.serialize_value(&Node(&e["v"]))?;
                    } else {
                        q.serialize_entry(&Node(&e["key"]), &Node(&e["v"]))?;
                    }
                }
                q.end()
            }
            "struct" => {
                let mut q = s.serialize_struct("Struct", self.fields())?;
                for f in self.list() {
                    if f["skip"] == json!(true) {
                        q.skip_field(name(&f["cp"]))?;
                    } else {
                        q.serialize_field(name(&f["cp"]), &Node(&f["v"]))?;
                    }
                }
                q.end()
            }
            "svar" => {
                let mut q = s.serialize_struct_variant("Enum", 0, name(&n["cp"]), self.fields())?;
                for f in self.list() {
                    if f["skip"] == json!(true) {
                        q.skip_field(name(&f["cp"]))?;
                    } else {
                        q.serialize_field(name(&f["cp"]), &Node(&f["v"]))?;
                    }
                }
                q.end()
            }
            "fail" => Err(S::Error::custom("told to fail")),
            k => panic!("kind {}", k),
        }
    }
}

fn builder(case: &Value) -> PacketBuilder {
    let ns = text_of(&case["ns"]);
    let id = match text_of(&case["pid"]).as_str() {
        "" => None,
        d => Some(number::<u64>(d)),
    };
    let bin = case["bin"] == json!(true);
    if case["kind"] == json!("event") {
        PacketBuilder::new_event(&text_of(&case["ev"]), ns, id, bin)
    } else {
        PacketBuilder::new_ack(ns, id.unwrap(), bin)
    }
}

fn add(b: &mut PacketBuilder, x: &Value) -> bool {
    // bytes at the top are also what applications pass as slices
    match b.serialize_arg(&Node(x)) {
        Ok(()) => true,
        Err(e) => {
            let _ = (e.to_string(), format!("{:?}", e));
            false
        }
    }
}

/// What the peer makes of the messages.
fn read_back(msgs: &[WsMessage]) -> Value {
    guarded(|| {
        let mut d = Decoder::new();
        d.decode(engine_open()).unwrap();
        let mut rest: Vec<EngineMessage> = Vec::new();
        for m in msgs {
            match d.decode(m.clone()) {
                Ok(EnginePacket::Message(m)) => rest.push(m),
                _ => return json!({"r":"not a message"}),
            }
        }
        let first = rest.remove(0);
        match socket::deserialize(first) {
            Ok(DeserializeResult::Packet(p)) if rest.is_empty() => show_packet(&p),
            Ok(DeserializeResult::DataNeeded(part)) => match socket::deserialize_partial(part, rest) {
                Ok(p) => show_packet(&p),
                Err(_) => json!({"r":"err"}),
            },
            Ok(_) => json!({"r":"too many messages"}),
            Err(_) => json!({"r":"err"}),
        }
    })
}

pub fn pack(case: &Value, _: u64) -> Value {
    let mut rec = case.clone();
    let no_args = vec![];
    let args = case["args"].as_array().unwrap_or(&no_args);
    rec["out"] = guarded(|| {
        let kind = case["kind"].as_str().unwrap();
        if kind == "connect" || kind == "disconnect" {
            let ns = text_of(&case["ns"]);
            let m = if kind == "connect" { socket::serialize_connect(&ns) } else { socket::serialize_disconnect(&ns) };
            let t = match m {
                EngineMessage::Text(t) => t.to_string(),
                EngineMessage::Binary(_) => return json!({"r":"binary"}),
            };
            return json!({"r":"ok","res":[],"text":cps(&t),"atts":[],"odd":false,"same":true,
                "back":read_back(&[WsMessage::Text(t)])});
        }
        let mut b = builder(case);
        let res: Vec<bool> = args.iter().map(|x| add(&mut b, x)).collect();
        let msgs = b.finish();
        let same = catch_unwind(AssertUnwindSafe(|| {
            let mut b = builder(case);
            for (x, ok) in args.iter().zip(&res) {
                if *ok {
                    add(&mut b, x);
                }
            }
            b.finish() == msgs
        }))
        .unwrap_or(false);
        let mut odd = false;
        let text = match msgs.first() {
            Some(WsMessage::Text(t)) => cps(t),
            _ => {
                odd = true;
                json!([])
            }
        };
        let atts: Vec<Value> = msgs
            .iter()
            .skip(1)
            .map(|m| match m {
                WsMessage::Binary(b) => json!(b),
                _ => {
                    odd = true;
                    json!([])
                }
            })
            .collect();
        json!({"r":"ok","res":res,"text":text,"atts":atts,"odd":odd,"same":same,
            "back":if odd { json!({"r":"-"}) } else { read_back(&msgs) }})
    });
    rec
}
