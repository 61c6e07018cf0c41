//! C23: bells and stages through serde.

use super::bell_stage::STAGE_NAMES;
use super::*;
use crate::model::*;
use bellframe::{Bell, Stage};
use serde::{
    de::{self, DeserializeOwned, Visitor},
    ser::{self, Impossible},
    Deserialize, Deserializer, Serialize, Serializer,
};
use serde_json::json;
use std::{
    collections::{BTreeMap, HashMap},
    fmt,
};

#[derive(Debug)]
struct Er(#[allow(dead_code)] String);
impl fmt::Display for Er {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Er {}
impl de::Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Er(m.to_string())
    }
}
impl ser::Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Er(m.to_string())
    }
}

// ------------------------------------------------------------------ a binary, not self-describing format

struct BinSer(Vec<u8>);

macro_rules! put {
    ($($f:ident: $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), Er> { self.0.extend_from_slice(&v.to_le_bytes()); Ok(()) })* };
}

impl Serializer for &mut BinSer {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = Impossible<(), Er>;
    type SerializeTuple = Impossible<(), Er>;
    type SerializeTupleStruct = Impossible<(), Er>;
    type SerializeTupleVariant = Impossible<(), Er>;
    type SerializeMap = Impossible<(), Er>;
    type SerializeStruct = Impossible<(), Er>;
    type SerializeStructVariant = Impossible<(), Er>;
    fn is_human_readable(&self) -> bool {
        false
    }
    put! { serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_i128: i128,
           serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_u128: u128,
           serialize_f32: f32, serialize_f64: f64 }
    fn serialize_bool(self, v: bool) -> Result<(), Er> {
        self.0.push(v as u8);
        Ok(())
    }
    fn serialize_char(self, v: char) -> Result<(), Er> {
        self.serialize_u32(v as u32)
    }
    fn serialize_str(self, v: &str) -> Result<(), Er> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Er> {
        self.0.extend_from_slice(&(v.len() as u64).to_le_bytes());
        self.0.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> Result<(), Er> {
        self.serialize_u8(0)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Er> {
        self.0.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Er> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Er> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), Er> {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Er> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Er> {
        Err(Er("variant".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Er> {
        Err(Er("seq".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Er> {
        Err(Er("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Er> {
        Err(Er("tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Er> {
        Err(Er("variant".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Er> {
        Err(Er("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Er> {
        Err(Er("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Er> {
        Err(Er("variant".into()))
    }
}

/// Reads whatever type it is asked for; like real binary formats it can't tell what is there.
struct BinDe<'a>(&'a [u8]);

impl<'a> BinDe<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Er> {
        if self.0.len() < n {
            return Err(Er("end of input".into()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn text(&mut self) -> Result<&'a str, Er> {
        let n = u64::from_le_bytes(self.take(8)?.try_into().unwrap()) as usize;
        std::str::from_utf8(self.take(n)?).map_err(|e| Er(e.to_string()))
    }
}

macro_rules! get {
    ($($f:ident, $v:ident: $t:ty);*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        let b = self.take(std::mem::size_of::<$t>())?;
        v.$v(<$t>::from_le_bytes(b.try_into().unwrap()))
    })* };
}

impl<'de> Deserializer<'de> for &mut BinDe<'de> {
    type Error = Er;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Er> {
        Err(Er("this format can't tell what comes next".into()))
    }
    get! { deserialize_i8, visit_i8: i8; deserialize_i16, visit_i16: i16; deserialize_i32, visit_i32: i32; deserialize_i64, visit_i64: i64;
           deserialize_i128, visit_i128: i128; deserialize_u8, visit_u8: u8; deserialize_u16, visit_u16: u16; deserialize_u32, visit_u32: u32;
           deserialize_u64, visit_u64: u64; deserialize_u128, visit_u128: u128; deserialize_f32, visit_f32: f32; deserialize_f64, visit_f64: f64 }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_str(self.text()?)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_string(self.text()?.to_owned())
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Er> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool char bytes byte_buf option unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

// ------------------------------------------------------------------ a format that offers one given value

#[derive(Clone, Debug, PartialEq)]
enum Given {
    I8(i8), I16(i16), I32(i32), I64(i64), I128(i128),
    U8(u8), U16(u16), U32(u32), U64(u64), U128(u128),
    F32(f32), F64(f64), Bool(bool), Char(char),
    Str(String), Borrowed(String), Owned(String), Bytes(Vec<u8>), Unit, None, Seq, Map,
}

struct GivenDe<'a>(&'a Given);
struct Nothing;
impl<'de> de::SeqAccess<'de> for Nothing {
    type Error = Er;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, _: T) -> Result<Option<T::Value>, Er> {
        Ok(None)
    }
}
impl<'de> de::MapAccess<'de> for Nothing {
    type Error = Er;
    fn next_key_seed<T: de::DeserializeSeed<'de>>(&mut self, _: T) -> Result<Option<T::Value>, Er> {
        Ok(None)
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, _: T) -> Result<T::Value, Er> {
        Err(Er("no value".into()))
    }
}

impl<'de> Deserializer<'de> for GivenDe<'de> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        match self.0 {
            Given::I8(x) => v.visit_i8(*x),
            Given::I16(x) => v.visit_i16(*x),
            Given::I32(x) => v.visit_i32(*x),
            Given::I64(x) => v.visit_i64(*x),
            Given::I128(x) => v.visit_i128(*x),
            Given::U8(x) => v.visit_u8(*x),
            Given::U16(x) => v.visit_u16(*x),
            Given::U32(x) => v.visit_u32(*x),
            Given::U64(x) => v.visit_u64(*x),
            Given::U128(x) => v.visit_u128(*x),
            Given::F32(x) => v.visit_f32(*x),
            Given::F64(x) => v.visit_f64(*x),
            Given::Bool(x) => v.visit_bool(*x),
            Given::Char(x) => v.visit_char(*x),
            Given::Str(x) => v.visit_str(x),
            Given::Borrowed(x) => v.visit_borrowed_str(x),
            Given::Owned(x) => v.visit_string(x.clone()),
            Given::Bytes(x) => v.visit_bytes(x),
            Given::Unit => v.visit_unit(),
            Given::None => v.visit_none(),
            Given::Seq => v.visit_seq(Nothing),
            Given::Map => v.visit_map(Nothing),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// What an input may mean
#[derive(PartialEq, Debug)]
enum Want {
    /// Exactly this number
    Is(usize),
    /// An error
    Bad,
    /// An error or this number (inputs whose meaning is clear, but whose type is unusual)
    Maybe(usize),
}

fn int(x: i128) -> Want {
    if (1..=usize::MAX as i128).contains(&x) {
        Want::Is(x as usize)
    } else {
        Want::Bad
    }
}

fn lenient(w: Want) -> Want {
    match w {
        Want::Is(x) => Want::Maybe(x),
        w => w,
    }
}

fn float(x: f64) -> Want {
    if x.fract() == 0.0 && x >= 1.0 && x < 9e15 {
        Want::Maybe(x as usize)
    } else {
        Want::Bad
    }
}

fn bell_name(s: &str) -> Want {
    let mut cs = s.chars();
    match (cs.next().and_then(bell_of_char), cs.next()) {
        (Some(b), None) => Want::Is(b + 1),
        _ => number_text(s),
    }
}

/// Numbers may also be accepted as text: formats like JSON have nothing else for the keys of a map
fn number_text(s: &str) -> Want {
    match s.parse::<usize>() {
        Ok(x) if x > 0 && x.to_string() == s => Want::Maybe(x),
        _ => Want::Bad,
    }
}

fn stage_name(s: &str) -> Want {
    match STAGE_NAMES.iter().position(|n| n.eq_ignore_ascii_case(s)) {
        Some(i) => Want::Is(i + 1),
        None => number_text(s),
    }
}

fn meaning_of(g: &Given, name: fn(&str) -> Want) -> Want {
    match g {
        Given::I8(x) => int(*x as i128),
        Given::I16(x) => int(*x as i128),
        Given::I32(x) => int(*x as i128),
        Given::I64(x) => int(*x as i128),
        Given::U8(x) => int(*x as i128),
        Given::U16(x) => int(*x as i128),
        Given::U32(x) => int(*x as i128),
        Given::U64(x) => int(*x as i128),
        Given::I128(x) => lenient(int(*x)),
        Given::U128(x) => lenient(i128::try_from(*x).map_or(Want::Bad, int)),
        Given::F32(x) => float(*x as f64),
        Given::F64(x) => float(*x),
        Given::Char(x) => name(&x.to_string()),
        Given::Str(x) | Given::Borrowed(x) | Given::Owned(x) => name(x),
        Given::Bytes(b) => lenient(std::str::from_utf8(b).map_or(Want::Bad, name)),
        Given::Bool(_) | Given::Unit | Given::None | Given::Seq | Given::Map => Want::Bad,
    }
}

fn agree(got: Result<usize, String>, want: Want, what: &dyn fmt::Debug) -> Result<(), String> {
    let ok = match (&got, &want) {
        (Ok(x), Want::Is(y) | Want::Maybe(y)) => x == y,
        (Err(_), Want::Bad | Want::Maybe(_)) => true,
        _ => false,
    };
    ensure!(ok, "{what:?}: got {got:?}, expected {want:?}");
    Ok(())
}

fn number<T: Into<Num>, E: fmt::Display>(r: Result<T, E>) -> Result<usize, String> {
    r.map(|x| x.into().0).map_err(|e| e.to_string())
}
struct Num(usize);
impl From<Bell> for Num {
    fn from(b: Bell) -> Num {
        // `number` could overflow for an impossible value
        Num(b.index().wrapping_add(1))
    }
}
impl From<Stage> for Num {
    fn from(s: Stage) -> Num {
        Num(s.num_bells())
    }
}

fn given_case(g: &Given, o: &mut Obs) -> Result<(), String> {
    agree(number(Bell::deserialize(GivenDe(g))), meaning_of(g, bell_name), &("bell", g))?;
    agree(number(Stage::deserialize(GivenDe(g))), meaning_of(g, stage_name), &("stage", g))?;
    o.step(2);
    o.see(&format!("{g:?}"));
    Ok(())
}

fn json_meaning(v: &serde_json::Value, name: fn(&str) -> Want) -> Want {
    match v {
        serde_json::Value::Number(n) => match (n.as_u64(), n.as_i64(), n.as_f64()) {
            (Some(x), _, _) => int(x as i128),
            (_, Some(x), _) => int(x as i128),
            (_, _, Some(x)) => float(x),
            _ => Want::Bad,
        },
        serde_json::Value::String(s) => name(s),
        _ => Want::Bad,
    }
}

fn json_case(s: &str, o: &mut Obs) -> Result<(), String> {
    let v: Option<serde_json::Value> = serde_json::from_str(s).ok();
    let m = |name| v.as_ref().map_or(Want::Bad, |v| json_meaning(v, name));
    agree(number(serde_json::from_str::<Bell>(s)), m(bell_name), &("bell", s))?;
    agree(number(serde_json::from_str::<Stage>(s)), m(stage_name), &("stage", s))?;
    agree(number(serde_json::from_reader::<_, Bell>(s.as_bytes())), m(bell_name), &("bell from reader", s))?;
    agree(number(serde_json::from_reader::<_, Stage>(s.as_bytes())), m(stage_name), &("stage from reader", s))?;
    if let Some(v) = &v {
        agree(number(serde_json::from_value::<Bell>(v.clone())), m(bell_name), &("bell from value", s))?;
        agree(number(serde_json::from_value::<Stage>(v.clone())), m(stage_name), &("stage from value", s))?;
    }
    o.step(6);
    o.see(&(s, v.is_some()));
    Ok(())
}

/// As the key of a map, where JSON only has text
fn key_trip<T: Serialize + DeserializeOwned + Ord + std::hash::Hash + fmt::Debug + Copy>(x: T) -> Result<(), String> {
    let e = |e: serde_json::Error| e.to_string();
    let map = BTreeMap::from([(x, 7u8)]);
    let text = serde_json::to_string(&map).map_err(e)?;
    eq!(serde_json::from_str::<BTreeMap<T, u8>>(&text).map_err(e)?, map, "as a key of {text}");
    eq!(serde_json::from_reader::<_, HashMap<T, u8>>(text.as_bytes()).map_err(e)?, HashMap::from([(x, 7u8)]), "as a key of the bytes of {text}");
    let v = serde_json::to_value(&map).map_err(e)?;
    eq!(serde_json::from_value::<BTreeMap<T, u8>>(v.clone()).map_err(e)?, map, "as a key of the JSON value {v}");
    Ok(())
}

fn trip<T: Serialize + DeserializeOwned + PartialEq + fmt::Debug + Clone>(x: T) -> Result<(), String> {
    let e = |e: serde_json::Error| e.to_string();
    let text = serde_json::to_string(&x).map_err(e)?;
    eq!(serde_json::from_str::<T>(&text).map_err(e)?, x, "through JSON text {text}");
    eq!(serde_json::from_reader::<_, T>(text.as_bytes()).map_err(e)?, x, "through JSON bytes {text}");
    let v = serde_json::to_value(&x).map_err(e)?;
    eq!(serde_json::from_value::<T>(v.clone()).map_err(e)?, x, "through the JSON value {v}");
    let many = vec![x.clone(), x.clone()];
    let v = serde_json::to_string(&many).map_err(e)?;
    eq!(serde_json::from_str::<Vec<T>>(&v).map_err(e)?, many, "through the JSON list {v}");
    let mut b = BinSer(vec![]);
    x.serialize(&mut b).map_err(|e| e.to_string())?;
    let mut d = BinDe(&b.0);
    eq!(T::deserialize(&mut d).map_err(|e| e.to_string())?, x, "through bytes {:?}", b.0);
    eq!(d.0.len(), 0, "bytes left over");
    for cut in 0..b.0.len() {
        ensure!(T::deserialize(&mut BinDe(&b.0[..cut])).is_err(), "{x:?} cut to {cut} bytes was accepted");
    }
    Ok(())
}

fn trip_case(i: usize, o: &mut Obs) -> Result<(), String> {
    if i < usize::MAX {
        trip(bell(i))?;
        key_trip(bell(i))?;
        // Numbers are 1-based in both directions
        eq!(serde_json::to_value(bell(i)).ok(), Some(json!(i + 1)), "JSON of bell {i}");
        o.step(8);
    }
    if i > 0 {
        trip(stage(i))?;
        key_trip(stage(i))?;
        eq!(serde_json::to_value(stage(i)).ok(), Some(json!(i)), "JSON of stage {i}");
        o.step(8);
    }
    o.see(&i);
    Ok(())
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        level: "exploration",
        rule: "A case is one value taken through JSON and a binary format, one value of some type offered to the \
               deserializer, or one JSON text.  Distinct by input.",
        bounds: |t| {
            json!({"round_trips": format!("every bell and stage up to {} and around every power of two, as values and as keys of maps", t.pick(70_000, 1_000_000)),
                "offered": "every 8- and 16-bit integer, wider ones around powers of two, floats, every character, every edit and letter case of stage names, other types",
                "json_texts": {"alphabet": "0 1 2 9 - . e \" space T [", "length": [0, t.pick(5, 6)]}})
        },
        assumptions: &["inputs of unusual types with a clear meaning (1.0, 128-bit integers, byte strings) may be refused or accepted", "text that spells a number may be refused except as the key of a map"],
        units: |t| {
            let mut u = vec![];
            let max = t.pick(70_000usize, 1_000_000);
            split_unit(&mut u, "round-trips", 16, move |c, part| {
                for i in 0..=max {
                    if part.mine() {
                        c.case(|| format!("{i}"), |o| trip_case(i, o));
                    }
                }
                for p in 16..=64u32 {
                    for d in -3i128..=3 {
                        let x = (1i128 << p) + d;
                        if let Ok(i) = usize::try_from(x) {
                            if i > max && part.mine() {
                                c.case(|| format!("{i}"), |o| trip_case(i, o));
                            }
                        }
                    }
                }
            });
            split_unit(&mut u, "integers", 8, |c, part| {
                let mut go = |c: &mut Ctx, g: Given| {
                    if part.mine() {
                        c.case(|| format!("{g:?}"), |o| given_case(&g, o));
                    }
                };
                for x in i8::MIN..=i8::MAX {
                    go(c, Given::I8(x));
                    go(c, Given::U8(x as u8));
                }
                for x in i16::MIN..=i16::MAX {
                    go(c, Given::I16(x));
                    go(c, Given::U16(x as u16));
                    go(c, Given::I32(x as i32));
                    go(c, Given::I64(x as i64));
                    go(c, Given::U64(x as u16 as u64));
                    go(c, Given::U32(x as u16 as u32));
                }
                for p in 0..=127u32 {
                    for d in -4i128..=4 {
                        for s in [1i128, -1] {
                            let x = (1i128 << p.min(126)).wrapping_add(d) * s;
                            go(c, Given::I32(x as i32));
                            go(c, Given::U32(x as u32));
                            go(c, Given::I64(x as i64));
                            go(c, Given::U64(x as u64));
                            go(c, Given::I128(x));
                            go(c, Given::U128(x as u128));
                            go(c, Given::F64(x as f64));
                            go(c, Given::F32(x as f32));
                            go(c, Given::F64(x as f64 + 0.5));
                            go(c, Given::F64(1.0 / (x as f64)));
                        }
                    }
                }
                for g in [
                    Given::F64(f64::NAN), Given::F64(f64::INFINITY), Given::F64(f64::NEG_INFINITY), Given::F64(-0.0), Given::F64(f64::MIN_POSITIVE), Given::F32(f32::NAN),
                    Given::I128(i128::MAX), Given::I128(i128::MIN), Given::U128(u128::MAX), Given::U128(1 << 127),
                    Given::Bool(true), Given::Bool(false), Given::Unit, Given::None, Given::Seq, Given::Map, Given::Bytes(vec![]), Given::Bytes(b"1".to_vec()), Given::Bytes(b"Minor".to_vec()), Given::Bytes(vec![1, 0, 0, 0, 0, 0, 0, 0]), Given::Bytes(vec![255]),
                ] {
                    go(c, g);
                }
            });
            split_unit(&mut u, "characters", 8, |c, part| {
                for ch in '\0'..=char::MAX {
                    if part.mine() {
                        c.case(|| format!("character {ch:?}"), |o| {
                            given_case(&Given::Char(ch), o)?;
                            let s = ch.to_string();
                            given_case(&Given::Str(s.clone()), o)?;
                            given_case(&Given::Borrowed(s.clone()), o)?;
                            given_case(&Given::Owned(s.clone()), o)?;
                            given_case(&Given::Str(format!("{ch}1")), o)?;
                            given_case(&Given::Str(format!("1{ch}")), o)?;
                            given_case(&Given::Str(format!("Mino{ch}")), o)?;
                            given_case(&Given::Str(format!("{ch}inor")), o)?;
                            given_case(&Given::Str(format!("T{ch}o")), o)?;
                            given_case(&Given::Str(format!("minor{ch}")), o)
                        });
                    }
                }
            });
            split_unit(&mut u, "stage-names", 8, |c, part| {
                let mut go = |c: &mut Ctx, s: &str| {
                    if part.mine() {
                        let s = s.to_owned();
                        c.case(|| format!("name {s:?}"), |o| {
                            given_case(&Given::Str(s.clone()), o)?;
                            given_case(&Given::Borrowed(s.clone()), o)?;
                            given_case(&Given::Owned(s.clone()), o)?;
                            json_case(&serde_json::to_string(&s).unwrap(), o)
                        });
                    }
                };
                for name in STAGE_NAMES {
                    // Every letter case
                    let cs: Vec<char> = name.chars().collect();
                    for bits in 0..1u32 << cs.len() {
                        let s: String = cs.iter().enumerate().map(|(i, ch)| if bits >> i & 1 == 1 { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() }).collect();
                        go(c, &s);
                    }
                    for i in 0..=cs.len() {
                        for a in (' '..='~').chain(['é', 'ı', 'İ', 'ſ', '\u{212a}', '\0', '\n']) {
                            let mut x = cs.clone();
                            x.insert(i, a);
                            go(c, &x.iter().collect::<String>());
                            if i < cs.len() {
                                x = cs.clone();
                                x[i] = a;
                                go(c, &x.iter().collect::<String>());
                            }
                        }
                        if i < cs.len() {
                            let mut x = cs.clone();
                            x.remove(i);
                            go(c, &x.iter().collect::<String>());
                        }
                    }
                    for other in STAGE_NAMES {
                        go(c, &format!("{name} {other}"));
                        go(c, &format!("{name}{other}"));
                    }
                }
                for n in 0..=300 {
                    go(c, &n.to_string());
                    go(c, &format!("{n} bells"));
                    go(c, &format!("<{n}>"));
                }
            });
            let len = t.pick(5, 6);
            split_unit(&mut u, "json", 16, move |c, part| {
                all_strings(&['0', '1', '2', '9', '-', '.', 'e', '"', ' ', 'T', '['], len, &mut |s| {
                    if part.mine() {
                        let s = s.to_owned();
                        c.case(|| format!("JSON {s:?}"), |o| json_case(&s, o));
                    }
                });
                for s in [
                    "18446744073709551615", "18446744073709551616", "18446744073709551614", "-9223372036854775808", "-9223372036854775809", "9223372036854775807", "9223372036854775808",
                    "1e2", "1E+2", "100e-1", "1e400", "null", "true", "false", "{}", "[]", "[1]", "{\"1\":1}", "\"\\u0031\"", "\"\\u00e9\"", "\"\\ud83e\\udd80\"", "4294967296", "4294967297", "-1", "-256", "-0", "256", "257", "65536", "65537",
                ] {
                    if part.mine() {
                        c.case(|| format!("JSON {s:?}"), |o| json_case(s, o));
                    }
                }
            });
            u
        },
    }
}
