//! Serialisation round trips through two formats that carry every data item of serde's model:
//! a self-describing one (structures as maps with field names, variants by name) and a positional
//! one (structures as sequences, variants by number).
use crate::model::*;
use crate::sym::*;
use rangetools::*;
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug)]
pub enum V {
    Unit,
    Bool(bool),
    U(u64),
    I(i64),
    Str(String),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
    /// variant: name, number, content
    Var(&'static str, u32, Box<V>),
    None,
    Some(Box<V>),
}

#[derive(Debug)]
pub struct E;
impl fmt::Display for E {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E
    }
}

#[derive(Clone, Copy)]
pub struct S {
    named: bool,
}
pub struct Items {
    s: S,
    v: Vec<V>,
    m: Vec<(V, V)>,
    key: Option<V>,
    variant: Option<(&'static str, u32)>,
}
impl S {
    fn items(self, variant: Option<(&'static str, u32)>) -> Items {
        Items { s: self, v: vec![], m: vec![], key: None, variant }
    }
}
impl Items {
    fn done(self, map: bool) -> V {
        let c = if map { V::Map(self.m) } else { V::Seq(self.v) };
        match self.variant {
            Some((n, i)) => V::Var(n, i, Box::new(c)),
            None => c,
        }
    }
    fn field<T: Serialize + ?Sized>(&mut self, k: &'static str, t: &T) -> Result<(), E> {
        let x = t.serialize(self.s)?;
        if self.s.named {
            self.m.push((V::Str(k.to_string()), x));
        } else {
            self.v.push(x);
        }
        Ok(())
    }
}
impl ser::SerializeSeq for Items {
    type Ok = V;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> {
        let x = t.serialize(self.s)?;
        self.v.push(x);
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        Ok(self.done(false))
    }
}
impl ser::SerializeTuple for Items {
    type Ok = V;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> {
        ser::SerializeSeq::serialize_element(self, t)
    }
    fn end(self) -> Result<V, E> {
        Ok(self.done(false))
    }
}
impl ser::SerializeTupleStruct for Items {
    type Ok = V;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> {
        ser::SerializeSeq::serialize_element(self, t)
    }
    fn end(self) -> Result<V, E> {
        Ok(self.done(false))
    }
}
impl ser::SerializeTupleVariant for Items {
    type Ok = V;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> {
        ser::SerializeSeq::serialize_element(self, t)
    }
    fn end(self) -> Result<V, E> {
        Ok(self.done(false))
    }
}
impl ser::SerializeMap for Items {
    type Ok = V;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> {
        self.key = Some(t.serialize(self.s)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> {
        let x = t.serialize(self.s)?;
        let k = self.key.take().ok_or(E)?;
        self.m.push((k, x));
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        Ok(self.done(true))
    }
}
impl ser::SerializeStruct for Items {
    type Ok = V;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, t: &T) -> Result<(), E> {
        self.field(k, t)
    }
    fn end(self) -> Result<V, E> {
        let n = self.s.named;
        Ok(self.done(n))
    }
}
impl ser::SerializeStructVariant for Items {
    type Ok = V;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, t: &T) -> Result<(), E> {
        self.field(k, t)
    }
    fn end(self) -> Result<V, E> {
        let n = self.s.named;
        Ok(self.done(n))
    }
}
macro_rules! ser_num {
    ($($f:ident $t:ty, $v:ident $u:ty;)*) => {$(
        fn $f(self, x: $t) -> Result<V, E> { Ok(V::$v(x as $u)) }
    )*};
}
impl ser::Serializer for S {
    type Ok = V;
    type Error = E;
    type SerializeSeq = Items;
    type SerializeTuple = Items;
    type SerializeTupleStruct = Items;
    type SerializeTupleVariant = Items;
    type SerializeMap = Items;
    type SerializeStruct = Items;
    type SerializeStructVariant = Items;
    ser_num! {
        serialize_u8 u8, U u64; serialize_u16 u16, U u64; serialize_u32 u32, U u64; serialize_u64 u64, U u64;
        serialize_i8 i8, I i64; serialize_i16 i16, I i64; serialize_i32 i32, I i64; serialize_i64 i64, I i64;
        serialize_bool bool, Bool bool; serialize_char char, U u64;
    }
    fn is_human_readable(&self) -> bool {
        self.named
    }
    fn serialize_f32(self, _: f32) -> Result<V, E> {
        Err(E)
    }
    fn serialize_f64(self, _: f64) -> Result<V, E> {
        Err(E)
    }
    fn serialize_str(self, x: &str) -> Result<V, E> {
        Ok(V::Str(x.to_string()))
    }
    fn serialize_bytes(self, b: &[u8]) -> Result<V, E> {
        Ok(V::Seq(b.iter().map(|x| V::U(*x as u64)).collect()))
    }
    fn serialize_none(self) -> Result<V, E> {
        Ok(V::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, t: &T) -> Result<V, E> {
        Ok(V::Some(Box::new(t.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<V, E> {
        Ok(V::Var(n, i, Box::new(V::Unit)))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, t: &T) -> Result<V, E> {
        t.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, n: &'static str, t: &T) -> Result<V, E> {
        Ok(V::Var(n, i, Box::new(t.serialize(self)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Items, E> {
        Ok(self.items(None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Items, E> {
        Ok(self.items(None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Items, E> {
        Ok(self.items(None))
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Items, E> {
        Ok(self.items(Some((n, i))))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Items, E> {
        Ok(self.items(None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Items, E> {
        Ok(self.items(None))
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Items, E> {
        Ok(self.items(Some((n, i))))
    }
}

/// Deserialiser over a value; `swap`: fields of maps are handed out back to front.
pub struct D {
    v: V,
    named: bool,
    swap: bool,
}
struct SeqD(std::vec::IntoIter<V>, bool, bool);
impl<'de> de::SeqAccess<'de> for SeqD {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            Some(v) => t.deserialize(D { v, named: self.1, swap: self.2 }).map(Some),
            None => Ok(None),
        }
    }
}
struct MapD(Vec<(V, V)>, Option<V>, bool, bool);
impl<'de> de::MapAccess<'de> for MapD {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, k: K) -> Result<Option<K::Value>, E> {
        if self.0.is_empty() {
            return Ok(None);
        }
        let (key, v) = if self.3 { self.0.remove(self.0.len() - 1) } else { self.0.remove(0) };
        self.1 = Some(v);
        k.deserialize(D { v: key, named: self.2, swap: self.3 }).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<T::Value, E> {
        let v = self.1.take().ok_or(E)?;
        t.deserialize(D { v, named: self.2, swap: self.3 })
    }
}
struct VarD(&'static str, u32, V, bool, bool);
impl<'de> de::EnumAccess<'de> for VarD {
    type Error = E;
    type Variant = D;
    fn variant_seed<T: DeserializeSeed<'de>>(self, t: T) -> Result<(T::Value, D), E> {
        let d = D { v: self.2, named: self.3, swap: self.4 };
        let k = if self.3 {
            t.deserialize(de::value::StrDeserializer::<E>::new(self.0))?
        } else {
            t.deserialize(de::value::U32Deserializer::<E>::new(self.1))?
        };
        Ok((k, d))
    }
}
impl<'de> de::VariantAccess<'de> for D {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        match self.v {
            V::Unit => Ok(()),
            _ => Err(E),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, t: T) -> Result<T::Value, E> {
        t.deserialize(self)
    }
    fn tuple_variant<Vi: Visitor<'de>>(self, _: usize, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn struct_variant<Vi: Visitor<'de>>(self, _: &'static [&'static str], v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
}
impl D {
    fn go<'de, Vi: Visitor<'de>>(self, vi: Vi) -> Result<Vi::Value, E> {
        match self.v {
            V::Unit => vi.visit_unit(),
            V::Bool(b) => vi.visit_bool(b),
            V::U(x) => vi.visit_u64(x),
            V::I(x) => vi.visit_i64(x),
            V::Str(s) => vi.visit_str(&s),
            V::Seq(s) => vi.visit_seq(SeqD(s.into_iter(), self.named, self.swap)),
            V::Map(m) => vi.visit_map(MapD(m, None, self.named, self.swap)),
            V::Var(n, i, v) => vi.visit_enum(VarD(n, i, *v, self.named, self.swap)),
            V::None => vi.visit_none(),
            V::Some(v) => vi.visit_some(D { v: *v, named: self.named, swap: self.swap }),
        }
    }
}
impl<'de> de::Deserializer<'de> for D {
    type Error = E;
    fn is_human_readable(&self) -> bool {
        self.named
    }
    fn deserialize_any<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        // the positional format does not describe itself
        if self.named {
            self.go(v)
        } else {
            Err(E)
        }
    }
    fn deserialize_u8<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_u64<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_u32<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_i64<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_i32<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_bool<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_seq<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_tuple<Vi: Visitor<'de>>(self, _: usize, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_tuple_struct<Vi: Visitor<'de>>(self, _: &'static str, _: usize, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_map<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_struct<Vi: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_enum<Vi: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_option<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_unit<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_unit_struct<Vi: Visitor<'de>>(self, _: &'static str, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_newtype_struct<Vi: Visitor<'de>>(self, _: &'static str, v: Vi) -> Result<Vi::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_identifier<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_str<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_string<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    fn deserialize_ignored_any<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
        self.go(v)
    }
    serde::forward_to_deserialize_any! { i8 i16 i128 u16 u128 f32 f64 char bytes byte_buf }
}

/// Serialise and deserialise, in one of the formats.
pub fn trip<T: Serialize + de::DeserializeOwned>(x: &T) -> Option<T> {
    let (named, swap) = match choose(2) {
        0 => (true, false),
        1 => (true, true),
        _ => (false, false),
    };
    let v = x.serialize(S { named }).ok()?;
    T::deserialize(D { v, named, swap }).ok()
}
macro_rules! trip_one {
    ($A:ty) => {{
        let (a, oa, t) = one!($A);
        match rt::trip(&a) {
            Some(b) => {
                check(b == a, 1);
                check(seen!(b.contains(t)) == oa.has(t), 2);
            }
            None => check(false, 3),
        }
    }};
}
/// A deserialised set keeps working as an operand.
macro_rules! trip_op {
    ($A:ty, $B:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        match rt::trip(&a) {
            Some(a) => {
                check(seen!(Rangetools::union(a, b).contains(t)) == (oa.has(t) | ob.has(t)), 1);
            }
            None => check(false, 2),
        }
    }};
}
pub(crate) use {trip_one, trip_op};
/// Bounds, and the types without data.
pub fn trip_bounds() {
    let b = any_bound();
    match choose(4) {
        0 => check(trip(&lb(b)).is_some_and(|x| x == lb(b)), 1),
        1 => check(trip(&ub(b)).is_some_and(|x| x == ub(b)), 2),
        2 => check(trip(&lb(b).to_bound()).is_some_and(|x| x == lb(b).to_bound()), 3),
        3 => check(trip(&EmptyRange::<u8>::new()).is_some(), 4),
        _ => check(trip(&UnboundedRange::new()).is_some(), 5),
    }
}

// ---- what a set writes out ---------------------------------------------------------------------
type Bd = (u8, bool);
/// The ranges found in a written value, told apart by the public names of their fields.
#[derive(Default)]
pub struct Written {
    pieces: Vec<(Bd, Bd)>,
    low: Option<Bd>,
    up: Option<Bd>,
    full: bool,
    odd: bool,
}
fn bound(v: &V) -> Option<Bd> {
    match v {
        V::Var(name, _, c) => match &**c {
            V::U(x) => Some((*x as u8, *name == "Included")),
            _ => None,
        },
        _ => None,
    }
}
impl Written {
    fn walk(&mut self, v: &V) {
        match v {
            V::Map(m) => {
                let (mut s, mut e) = (None, None);
                for (k, x) in m {
                    match k {
                        V::Str(k) if k == "start" => s = bound(x),
                        V::Str(k) if k == "end" => e = bound(x),
                        _ => self.walk(x),
                    }
                }
                match (s, e) {
                    (Some(s), Some(e)) => self.pieces.push((s, e)),
                    (Some(s), None) => {
                        self.odd |= self.low.is_some();
                        self.low = Some(s)
                    }
                    (None, Some(e)) => {
                        self.odd |= self.up.is_some();
                        self.up = Some(e)
                    }
                    _ => {}
                }
            }
            V::Seq(s) => {
                for x in s {
                    self.walk(x);
                }
            }
            V::Var(n, _, x) => {
                self.full |= *n == "Full";
                self.walk(x)
            }
            _ => {}
        }
    }
}
/// The pieces a set writes out are non-empty, ascending and separate, and hold t exactly if the
/// set should.
pub fn canon<T: Serialize>(x: &T, t: u8, want: bool) {
    let v = match x.serialize(S { named: true }) {
        Ok(v) => v,
        Err(_) => return check(false, 1),
    };
    let mut w = Written::default();
    w.walk(&v);
    check(!w.odd, 2);
    let mut last = w.up;
    let mut has = w.full;
    if let Some(u) = w.up {
        has |= Comp { lo: None, hi: Some(u) }.has(t);
    }
    for &(a, b) in &w.pieces {
        check(room(Some(a), Some(b)), 3);
        if let Some(l) = last {
            check(!room(Some(a), Some(l)), 4);
        }
        last = Some(b);
        has |= Comp { lo: Some(a), hi: Some(b) }.has(t);
    }
    if let Some(l) = w.low {
        if let Some(e) = last {
            check(!room(Some(l), Some(e)), 5);
        }
        has |= Comp { lo: Some(l), hi: None }.has(t);
    }
    check(has == want, 6);
    observe(w.pieces.len() as u64);
}
macro_rules! canon_one {
    ($A:ty) => {{
        let (a, oa, t) = one!($A);
        rt::canon(&Rangetools::to_set(a), t, oa.has(t));
    }};
}
macro_rules! canon_union {
    ($A:ty, $B:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        let u = Rangetools::to_set(Rangetools::union(a, b));
        rt::canon(&u, t, oa.has(t) | ob.has(t));
    }};
}
macro_rules! canon_inter {
    ($A:ty, $B:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        let u = Rangetools::to_set(Rangetools::intersection(a, b));
        rt::canon(&u, t, oa.has(t) & ob.has(t));
    }};
}
macro_rules! canon_compl {
    ($A:ty) => {{
        let (a, oa, t) = one!($A);
        let u = Rangetools::to_set(Rangetools::complement(a));
        rt::canon(&u, t, !oa.has(t));
    }};
}
macro_rules! canon_chain {
    ($o1:ident, $o2:ident, $A:ty, $B:ty, $C:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        let mut oc = Oracle::new();
        let c = <$C as Kind>::gen(&mut oc);
        let r = Rangetools::to_set(op!($o2, op!($o1, a, b), c));
        let m = opm!($o2, (opm!($o1, oa.has(t), ob.has(t))), oc.has(t));
        rt::canon(&r, t, m);
    }};
}
macro_rules! canon_chain_n {
    ($o1:ident, $o2:ident, $A:ty, $B:ty, $C:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        let mut oc = Oracle::new();
        let c = <$C as Kind>::gen(&mut oc);
        let r = Rangetools::to_set(op!($o2, Rangetools::complement(op!($o1, a, b)), c));
        let m = opm!($o2, !(opm!($o1, oa.has(t), ob.has(t))), oc.has(t));
        rt::canon(&r, t, m);
    }};
}
pub(crate) use {canon_chain, canon_chain_n, canon_compl, canon_inter, canon_one, canon_union};
