//! Projection of Rust values to the value domain of the specification and back.
use crate::json::J;
use std::borrow::Cow;
use std::fmt::Write;
use std::rc::Rc;
use std::sync::Arc;
use compact_thrift_parquet::EncodingSet;
use compact_thrift_runtime::{CompactThriftInputSlice, CompactThriftProtocol};

pub trait Val: Sized {
    fn put(&self, o: &mut String);
    fn get(j: &J) -> Self;
    fn put_field(&self, o: &mut String) { o.push('['); self.put(o); o.push(']'); }
    fn get_field(j: &J) -> Self { Self::get(j.at(0)) }
}
fn put_limbs(mut v: u64, n: usize, o: &mut String) {
    o.push('[');
    for i in 0..n { if i > 0 { o.push(','); } write!(o, "{}", v & 0xffff).unwrap(); v >>= 16; }
    o.push(']');
}
fn get_limbs(j: &J) -> i64 {
    let l = j.arr();
    let mut v: i64 = if l[l.len() - 1].int() >= 32768 { -1 } else { 0 };
    for x in l.iter().rev() { v = (v << 16) | x.int(); }
    v
}
fn put_bytes(b: &[u8], o: &mut String) {
    o.push('[');
    for (i, x) in b.iter().enumerate() { if i > 0 { o.push(','); } write!(o, "{x}").unwrap(); }
    o.push(']');
}
fn get_bytes(j: &J) -> Vec<u8> { j.arr().iter().map(|x| x.int() as u8).collect() }
fn get_string(j: &J) -> String { String::from_utf8(get_bytes(j)).unwrap() }
impl Val for bool { fn put(&self, o: &mut String) { o.push_str(if *self { "true" } else { "false" }) } fn get(j: &J) -> Self { j.bool() } }
impl Val for i8 { fn put(&self, o: &mut String) { write!(o, "{}", *self as u8).unwrap() } fn get(j: &J) -> Self { j.int() as i8 } }
impl Val for i16 { fn put(&self, o: &mut String) { put_limbs(*self as u64, 1, o) } fn get(j: &J) -> Self { get_limbs(j) as i16 } }
impl Val for i32 { fn put(&self, o: &mut String) { put_limbs(*self as u64, 2, o) } fn get(j: &J) -> Self { get_limbs(j) as i32 } }
impl Val for i64 { fn put(&self, o: &mut String) { put_limbs(*self as u64, 4, o) } fn get(j: &J) -> Self { get_limbs(j) } }
impl Val for f64 { fn put(&self, o: &mut String) { put_bytes(&self.to_bits().to_le_bytes(), o) }
    fn get(j: &J) -> Self { f64::from_bits(u64::from_le_bytes(get_bytes(j).try_into().unwrap())) } }
impl Val for String { fn put(&self, o: &mut String) { put_str(self.as_bytes(), o) } fn get(j: &J) -> Self { get_string(j) } }
/// a String whose bytes are not UTF-8 must never be observed
fn put_str(b: &[u8], o: &mut String) { if std::str::from_utf8(b).is_ok() { put_bytes(b, o) } else { o.push_str("[\"InvalidUtf8InString\"]") } }
impl Val for Vec<u8> { fn put(&self, o: &mut String) { put_bytes(self, o) } fn get(j: &J) -> Self { get_bytes(j) } }
impl Val for Box<str> { fn put(&self, o: &mut String) { put_str(self.as_bytes(), o) } fn get(j: &J) -> Self { get_string(j).into() } }
impl Val for Rc<str> { fn put(&self, o: &mut String) { put_str(self.as_bytes(), o) } fn get(j: &J) -> Self { get_string(j).into() } }
impl Val for Arc<str> { fn put(&self, o: &mut String) { put_str(self.as_bytes(), o) } fn get(j: &J) -> Self { get_string(j).into() } }
impl<'a> Val for Cow<'a, str> { fn put(&self, o: &mut String) { put_str(self.as_bytes(), o) } fn get(j: &J) -> Self { Cow::Owned(get_string(j)) } }
impl<'a> Val for Cow<'a, [u8]> { fn put(&self, o: &mut String) { put_bytes(self, o) } fn get(j: &J) -> Self { Cow::Owned(get_bytes(j)) } }
impl<T: Val> Val for Vec<T> {
    fn put(&self, o: &mut String) { o.push('['); for (i, x) in self.iter().enumerate() { if i > 0 { o.push(','); } x.put(o); } o.push(']'); }
    fn get(j: &J) -> Self { j.arr().iter().map(T::get).collect() }
}
impl<T: Val> Val for Option<T> {
    fn put(&self, o: &mut String) { o.push('['); if let Some(x) = self { x.put(o); } o.push(']'); }
    fn get(j: &J) -> Self { j.arr().first().map(T::get) }
    fn put_field(&self, o: &mut String) { self.put(o) }
    fn get_field(j: &J) -> Self { Self::get(j) }
}
impl<T: Val> Val for Box<T> { fn put(&self, o: &mut String) { (**self).put(o) } fn get(j: &J) -> Self { Box::new(T::get(j)) } }
impl<T: Val> Val for Rc<T> { fn put(&self, o: &mut String) { (**self).put(o) } fn get(j: &J) -> Self { Rc::new(T::get(j)) } }
impl<T: Val> Val for Arc<T> { fn put(&self, o: &mut String) { (**self).put(o) } fn get(j: &J) -> Self { Arc::new(T::get(j)) } }
impl Val for EncodingSet {
    fn put(&self, o: &mut String) {
        o.push('[');
        let mut n = 0;
        for (i, e) in self.iter().enumerate() { if i > 0 { o.push(','); } write!(o, "{}", e.0).unwrap(); n += 1; if n > 64 { break; } }
        // length and emptiness have to agree with the iteration
        if self.len() != n || self.is_empty() != (n == 0) { o.push_str(",\"LenMismatch\""); }
        o.push(']');
    }
    fn get(j: &J) -> Self {
        let l = j.arr();
        let mut b = vec![0xF5, l.len() as u8];
        for x in l { b.push((x.int() * 2) as u8); }
        EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&b)).expect("encoding set")
    }
}
