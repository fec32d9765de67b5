//! Arguments on their way in: asked for as types that are described as data, or are given here.

use std::{borrow::Cow, cell::RefCell, collections::BTreeMap, collections::HashMap, fmt, time::Duration};

use owned_subslice::OwnedSubslice;
use serde::{
    de::{
        self, DeserializeSeed, EnumAccess, Error as _, IgnoredAny, MapAccess, SeqAccess,
        VariantAccess, Visitor,
    },
    Deserialize, Deserializer,
};
use serde_json::{json, value::RawValue, Value};
use socket_io_protocol::{
    engine::Message as EngineMessage,
    socket::{self, Arg, Args, Data, DeserializeResult, Packet},
};

use crate::{
    pack::name,
    pure::{bytes_of, cps, guarded, text_of},
    util::Rng,
};

fn num(s: String) -> Value {
    json!({"k":"num","s":cps(&s)})
}
fn string(s: &str) -> Value {
    json!({"k":"str","s":cps(s)})
}
fn bytes(b: &[u8]) -> Value {
    json!({"k":"bytes","d":b})
}
fn text<T: fmt::Debug>(t: T) -> Value {
    json!({"k":"text","s":cps(&format!("{:?}", t))})
}

/// What is visited when anything is asked for.
struct AnyVisitor;

impl<'de> Visitor<'de> for AnyVisitor {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<Value, E> {
        Ok(json!({"k":"bool","b":v}))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Value, E> {
        Ok(num(v.to_string()))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Value, E> {
        Ok(num(v.to_string()))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Value, E> {
        Ok(num(format!("{:?}", v)))
    }
    fn visit_str<E>(self, v: &str) -> Result<Value, E> {
        Ok(string(v))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Value, E> {
        Ok(bytes(v))
    }
    fn visit_unit<E>(self) -> Result<Value, E> {
        Ok(json!({"k":"unit"}))
    }
    fn visit_none<E>(self) -> Result<Value, E> {
        Ok(json!({"k":"none"}))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        Ok(json!({"k":"some","v":d.deserialize_any(AnyVisitor)?}))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        d.deserialize_any(AnyVisitor)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element_seed(AnySeed)? {
            v.push(x);
        }
        Ok(json!({"k":"list","v":v}))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = Vec::new();
        while let Some(k) = a.next_key::<String>()? {
            v.push(json!({"key":string(&k),"v":a.next_value_seed(AnySeed)?}));
        }
        Ok(json!({"k":"pairs","v":v}))
    }
}

struct AnySeed;
impl<'de> DeserializeSeed<'de> for AnySeed {
    type Value = Value;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        d.deserialize_any(AnyVisitor)
    }
}

/// Owned bytes, as types made for them ask.
struct Buf(Vec<u8>);
struct BufVisitor;
impl<'de> Visitor<'de> for BufVisitor {
    type Value = Buf;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Buf, E> {
        Ok(Buf(v.to_vec()))
    }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Buf, E> {
        Ok(Buf(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Buf, E> {
        Ok(Buf(v.as_bytes().to_vec()))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Buf, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element()? {
            v.push(x);
        }
        Ok(Buf(v))
    }
}
impl<'de> Deserialize<'de> for Buf {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_byte_buf(BufVisitor)
    }
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Derived {
    id: u32,
    tags: Vec<String>,
    extra: Option<Box<Derived>>,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Flat {
    id: Option<u64>,
    #[serde(flatten)]
    rest: BTreeMap<String, Value>,
}
#[derive(Deserialize, Debug)]
#[serde(untagged)]
#[allow(dead_code)]
enum Untagged {
    Num(i64),
    Text(String),
    List(Vec<Untagged>),
    Obj { a: Value },
    Other(Value),
}
#[derive(Deserialize, Debug)]
#[serde(tag = "kind")]
#[allow(dead_code)]
enum Tagged {
    A { x: u8 },
    B,
}
#[derive(Deserialize, Debug)]
#[serde(tag = "t", content = "c")]
#[allow(dead_code)]
enum Adjacent {
    A(u8, u8),
    B,
}
#[derive(Deserialize, Debug)]
#[serde(default, deny_unknown_fields)]
#[allow(dead_code)]
struct Defaults {
    id: u16,
    name: String,
}
impl Default for Defaults {
    fn default() -> Self {
        Defaults { id: 1, name: "none".into() }
    }
}
#[derive(Deserialize, Debug)]
struct UnitStruct;
#[derive(Deserialize, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
enum Var {
    Unit,
    A,
    #[serde(rename = "k")]
    K,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct NewU8(u8);

fn ordered<K: fmt::Debug, V: fmt::Debug>(m: HashMap<K, V>) -> Value {
    let mut v: Vec<String> = m.iter().map(|e| format!("{:?}", e)).collect();
    v.sort();
    text(v)
}

struct Seed<'t>(&'t Value);

impl<'t> Seed<'t> {
    fn inner(&self) -> Seed<'t> {
        Seed(&self.0["t"])
    }
}

impl<'t, 'de> DeserializeSeed<'de> for Seed<'t> {
    type Value = Value;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        let t = self.0;
        if !d.is_human_readable() {
            return Err(D::Error::custom("not the representation that JSON has"));
        }
        Ok(match t["k"].as_str().unwrap() {
            "bool" => json!({"k":"bool","b":bool::deserialize(d)?}),
            "u8" => num(u8::deserialize(d)?.to_string()),
            "i64" => num(i64::deserialize(d)?.to_string()),
            "u64" => num(u64::deserialize(d)?.to_string()),
            "f64" => num(format!("{:?}", f64::deserialize(d)?)),
            "char" => string(&char::deserialize(d)?.to_string()),
            "str" => string(&String::deserialize(d)?),
            "bstr" => string(<&str>::deserialize(d)?),
            "bytes" => bytes(<&[u8]>::deserialize(d)?),
            "buf" => bytes(&Buf::deserialize(d)?.0),
            "unit" => {
                <()>::deserialize(d)?;
                json!({"k":"unit"})
            }
            "ign" => {
                IgnoredAny::deserialize(d)?;
                json!({"k":"ign"})
            }
            "any" => d.deserialize_any(AnyVisitor)?,
            "opt" => d.deserialize_option(OptVisitor(self.inner()))?,
            "newtype" => d.deserialize_newtype_struct("New", NewVisitor(self.inner()))?,
            "seq" => d.deserialize_seq(SeqVisitor(self.inner()))?,
            "tuple" => {
                let ts = t["ts"].as_array().unwrap();
                if ts.len() % 2 == 0 {
                    d.deserialize_tuple(ts.len(), TupleVisitor(ts))?
                } else {
                    d.deserialize_tuple_struct("Tup", ts.len(), TupleVisitor(ts))?
                }
            }
            "map" => d.deserialize_map(MapVisitor(&t["key"], self.inner()))?,
            "struct" => {
                let fs = &t["fs"];
                d.deserialize_struct("Struct", names(fs), StructVisitor(fs.as_array().unwrap()))?
            }
            "enum" => d.deserialize_enum("Enum", names(&t["vs"]), EnumVisitor(t["vs"].as_array().unwrap()))?,
            // these are only compared
            "i8" => num(i8::deserialize(d)?.to_string()),
            "u16" => num(u16::deserialize(d)?.to_string()),
            "i32" => num(i32::deserialize(d)?.to_string()),
            "u32" => num(u32::deserialize(d)?.to_string()),
            "f32" => text(f32::deserialize(d)?),
            "i128" => text(i128::deserialize(d)?),
            "u128" => text(u128::deserialize(d)?),
            "raw" => text(<&RawValue>::deserialize(d)?.get()),
            "value" => text(Value::deserialize(d)?),
            "cow" | "cowkey" => text(Cow::<str>::deserialize(d)?),
            "boxu8" => text(Box::<[u8]>::deserialize(d)?),
            "vecu8" => text(Vec::<u8>::deserialize(d)?),
            "hmap" => ordered(HashMap::<String, Value>::deserialize(d)?),
            "btree" => text(BTreeMap::<i32, u8>::deserialize(d)?),
            "keyed" => ordered(HashMap::<Var, u64>::deserialize(d)?),
            "derived" => text(Derived::deserialize(d)?),
            "flat" => text(Flat::deserialize(d)?),
            "untagged" => text(Untagged::deserialize(d)?),
            "tagged" => text(Tagged::deserialize(d)?),
            "adjacent" => text(Adjacent::deserialize(d)?),
            "defaults" => text(Defaults::deserialize(d)?),
            "result" => text(Result::<u8, String>::deserialize(d)?),
            "unitstruct" => text(UnitStruct::deserialize(d)?),
            "arr3" => text(<[u8; 3]>::deserialize(d)?),
            "string" => text(Box::<str>::deserialize(d)?),
            "duration" => text(Duration::deserialize(d)?),
            "optopt" => text(Option::<Option<u8>>::deserialize(d)?),
            "optstr" => text(Option::<String>::deserialize(d)?),
            "newu8" => text(NewU8::deserialize(d)?),
            "unitvar" => text(Var::deserialize(d)?),
            "ignkey" => text(IgnoredAny::deserialize(d)?),
            k => panic!("type {}", k),
        })
    }
}

/// The names of fields or variants, which serde wants to be static.
fn names(of: &Value) -> &'static [&'static str] {
    thread_local! {
        static LISTS: RefCell<HashMap<Vec<&'static str>, &'static [&'static str]>> = RefCell::new(HashMap::new());
    }
    let list: Vec<&'static str> = of.as_array().unwrap().iter().map(|f| name(&f["cp"])).collect();
    LISTS.with(|l| *l.borrow_mut().entry(list.clone()).or_insert_with(|| Box::leak(list.into_boxed_slice())))
}

struct OptVisitor<'t>(Seed<'t>);
impl<'t, 'de> Visitor<'de> for OptVisitor<'t> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an option")
    }
    fn visit_none<E>(self) -> Result<Value, E> {
        Ok(json!({"k":"none"}))
    }
    fn visit_unit<E>(self) -> Result<Value, E> {
        Ok(json!({"k":"none"}))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        Ok(json!({"k":"some","v":self.0.deserialize(d)?}))
    }
}

struct NewVisitor<'t>(Seed<'t>);
impl<'t, 'de> Visitor<'de> for NewVisitor<'t> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a newtype")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        self.0.deserialize(d)
    }
}

struct SeqVisitor<'t>(Seed<'t>);
impl<'t, 'de> Visitor<'de> for SeqVisitor<'t> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element_seed(Seed((self.0).0))? {
            v.push(x);
        }
        Ok(json!({"k":"list","v":v}))
    }
}

struct TupleVisitor<'t>(&'t [Value]);
impl<'t, 'de> Visitor<'de> for TupleVisitor<'t> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a tuple of {}", self.0.len())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = Vec::new();
        for (i, t) in self.0.iter().enumerate() {
            match a.next_element_seed(Seed(t))? {
                Some(x) => v.push(x),
                None => return Err(A::Error::invalid_length(i, &self)),
            }
        }
        Ok(json!({"k":"list","v":v}))
    }
}

struct MapVisitor<'t>(&'t Value, Seed<'t>);
impl<'t, 'de> Visitor<'de> for MapVisitor<'t> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = Vec::new();
        while let Some(k) = a.next_key_seed(Seed(self.0))? {
            let x = a.next_value_seed(Seed((self.1).0))?;
            v.push(json!({"key":k,"v":x}));
        }
        Ok(json!({"k":"pairs","v":v}))
    }
}

/// Which of the names: as serde's derive macro asks for it.
struct NameSeed<'t>(&'t [Value], bool);
impl<'t, 'de> DeserializeSeed<'de> for NameSeed<'t> {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'t, 'de> Visitor<'de> for NameSeed<'t> {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a name")
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        match self.0.iter().position(|f| text_of(&f["cp"]) == v) {
            None if self.1 => Err(E::custom("unknown variant")),
            p => Ok(p),
        }
    }
}

struct StructVisitor<'t>(&'t [Value]);
impl<'t, 'de> Visitor<'de> for StructVisitor<'t> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a struct")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = Vec::new();
        for (i, f) in self.0.iter().enumerate() {
            match a.next_element_seed(Seed(&f["t"]))? {
                Some(x) => v.push(x),
                None => return Err(A::Error::invalid_length(i, &self)),
            }
        }
        Ok(json!({"k":"list","v":v}))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut got: Vec<Option<Value>> = vec![None; self.0.len()];
        while let Some(i) = a.next_key_seed(NameSeed(self.0, false))? {
            match i {
                Some(i) => {
                    if got[i].is_some() {
                        return Err(A::Error::custom("duplicate field"));
                    }
                    got[i] = Some(a.next_value_seed(Seed(&self.0[i]["t"]))?);
                }
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut v = Vec::new();
        for (f, x) in self.0.iter().zip(got) {
            v.push(match x {
                Some(x) => x,
                None if f["t"]["k"] == json!("opt") => json!({"k":"none"}),
                None => return Err(A::Error::custom("missing field")),
            });
        }
        Ok(json!({"k":"list","v":v}))
    }
}

struct EnumVisitor<'t>(&'t [Value]);
impl<'t, 'de> Visitor<'de> for EnumVisitor<'t> {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an enum")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Value, A::Error> {
        let (i, data) = a.variant_seed(NameSeed(self.0, true))?;
        let v = &self.0[i.unwrap()];
        let x = match v["kind"].as_str().unwrap() {
            "unit" => {
                data.unit_variant()?;
                json!({"k":"unit"})
            }
            "new" => data.newtype_variant_seed(Seed(&v["ts"][0]))?,
            "tup" => {
                let ts = v["ts"].as_array().unwrap();
                data.tuple_variant(ts.len(), TupleVisitor(ts))?
            }
            _ => data.struct_variant(names(&v["fs"]), StructVisitor(v["fs"].as_array().unwrap()))?,
        };
        Ok(json!({"k":"var","s":v["cp"],"v":x}))
    }
}

thread_local! {
    static TYPE: RefCell<Value> = RefCell::new(Value::Null);
}

/// Whatever the thread's type is.
struct Dynamic(Value);
impl<'de> Deserialize<'de> for Dynamic {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = TYPE.with(|t| t.borrow().clone());
        Seed(&t).deserialize(d).map(Dynamic)
    }
}

/// The packet 5n-["e",docs...] with attachments, or 2["e",docs...] without.
pub fn packet(docs: &[String], atts: Option<&Vec<Value>>, rng: &mut Rng) -> Packet {
    let body: String = docs.iter().map(|d| format!(",{}", d)).collect();
    packet_of(false, &format!("[\"e\"{}]", body), atts, rng)
}

/// An event or an ack whose arguments are the array `body`.
fn packet_of(ack: bool, body: &str, atts: Option<&Vec<Value>>, rng: &mut Rng) -> Packet {
    match atts {
        None => match socket::deserialize(EngineMessage::Text(format!("{}{}", if ack { "37" } else { "2" }, body).into())) {
            Ok(DeserializeResult::Packet(p)) => p,
            _ => panic!("no packet"),
        },
        Some(atts) => {
            let text = format!("{}{}-{}{}", if ack { 6 } else { 5 }, atts.len(), if ack { "18446744073709551615" } else { "" }, body);
            let msgs: Vec<EngineMessage> = atts
                .iter()
                .map(|a| {
                    let b = bytes_of(a);
                    let (l, r) = (rng.below(3), rng.below(3));
                    let mut v = vec![4; l];
                    v.extend(&b);
                    v.extend(vec![99; r]);
                    EngineMessage::Binary(OwnedSubslice::new(v, l..l + b.len()))
                })
                .collect();
            match socket::deserialize(EngineMessage::Text(text.into())) {
                Ok(DeserializeResult::DataNeeded(p)) => socket::deserialize_partial(p, msgs).unwrap(),
                Ok(DeserializeResult::Packet(p)) => p,
                _ => panic!("no packet"),
            }
        }
    }
}

fn args_of(p: &Packet) -> Args<'_> {
    match p.data() {
        Data::Event { args, .. } | Data::Ack { args, .. } => args,
        _ => panic!("no arguments"),
    }
}

fn asked(arg: Arg<'_>) -> Value {
    match arg.deserialize::<Dynamic>() {
        Ok(d) => json!({"r":"ok","v":d.0}),
        Err(e) => {
            let _ = (e.to_string(), format!("{:?}", e));
            json!({"r":"err"})
        }
    }
}

pub fn de(case: &Value, seed: u64) -> Value {
    let mut rec = case.clone();
    let mut rng = Rng::derive(seed, &[7]);
    TYPE.with(|t| *t.borrow_mut() = case["t"].clone());
    let doc = vec![text_of(&case["doc"])];
    let atts = case["atts"].as_array().unwrap();
    rec["out"] = guarded(|| asked(args_of(&packet(&doc, Some(atts), &mut rng)).get(1).unwrap()));
    rec["plain"] = guarded(|| asked(args_of(&packet(&doc, None, &mut rng)).get(1).unwrap()));
    rec
}

// ---------------------------------------------------------------------------------------------
// Views of arguments

fn look(arg: &Arg<'_>, rng: &mut Rng) -> Value {
    let raw = match arg.deserialize::<&RawValue>() {
        Ok(r) => cps(r.get()),
        Err(_) => json!(["unreadable"]),
    };
    let mut seen: Vec<Value> = Vec::new();
    let mut shown: Vec<Value> = Vec::new();
    // several times, in any order
    for _ in 0..(2 + rng.below(3)) {
        if rng.below(2) == 0 {
            seen.push(match arg.to_json_value() {
                Ok(v) => json!({"r":"ok","s":cps(&v.to_string())}),
                Err(e) => {
                    let _ = (e.to_string(), format!("{:?}", e));
                    json!({"r":"err"})
                }
            });
        } else {
            shown.push(cps(&arg.to_string()));
            let _ = format!("{:?}", arg);
        }
    }
    json!({"raw":raw,"seen":seen,"shown":shown})
}

pub fn view(case: &Value, seed: u64) -> Value {
    let mut rec = case.clone();
    let mut rng = Rng::derive(seed, &[8]);
    let docs: Vec<String> = case["docs"].as_array().unwrap().iter().map(text_of).collect();
    let atts = case["atts"].as_array().unwrap();
    let bin = case["bin"] == json!(true);
    let ack = case["ack"] == json!(true);
    rec["out"] = guarded(|| {
        // an event has its name before the documents
        let name = if ack { None } else { Some("\"e\"".to_string()) };
        let all: Vec<String> = name.into_iter().chain(docs.iter().cloned()).collect();
        let body = format!("[{}]", all.join([",", " ,", ", ", "\n,\t"][rng.below(4)]));
        let p = packet_of(ack, &body, if bin { Some(atts) } else { None }, &mut rng);
        let mut looks: Vec<Value> = Vec::new();
        for _ in 0..(3 + rng.below(6)) {
            let args = args_of(&p);
            looks.push(match rng.below(6) {
                0 => json!({"l":"len","n":args.len(),"empty":args.is_empty()}),
                1 => {
                    let i = rng.below(docs.len() + 4);
                    match args.get(i) {
                        Some(a) => json!({"l":"get","i":i,"some":true,"x":look(&a, &mut rng)}),
                        None => json!({"l":"get","i":i,"some":false}),
                    }
                }
                2 => match args.get(usize::MAX - rng.below(2)) {
                    Some(_) => json!({"l":"get","i":9999,"some":true,"x":{"raw":[],"seen":[],"shown":[]}}),
                    None => json!({"l":"get","i":9999,"some":false}),
                },
                3 => {
                    let mut it = args.iter();
                    let mut all: Vec<Value> = Vec::new();
                    while let Some(a) = it.next() {
                        all.push(look(&a, &mut rng));
                        if all.len() > docs.len() + 3 {
                            break;
                        }
                    }
                    json!({"l":"iter","all":all,"end":it.next().is_none()})
                }
                4 => json!({"l":"show","s":cps(&args.to_string())}),
                _ => {
                    let _ = (format!("{:?}", args), format!("{}", p), format!("{:?}", p));
                    let args = args.clone();
                    json!({"l":"iter","all":args.iter().map(|a| look(&a.clone(), &mut rng)).collect::<Vec<_>>(),"end":true})
                }
            });
        }
        json!({"r":"ok","looks":looks})
    });
    rec
}
