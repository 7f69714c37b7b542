//! The parquet operations.
use crate::json::{unhex, J};
use crate::source::*;
use crate::val::Val;
use compact_thrift_parquet::format::FileMetaData;
use compact_thrift_parquet::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn name(e: &ParquetError) -> String {
    match e {
        ParquetError::Thrift(t) => crate::error_name(t),
        ParquetError::Io(e) => format!("IO:{:?}", e.kind()),
        ParquetError::InvalidMagic => "InvalidMagic".into(),
        ParquetError::InvalidOffset => "InvalidOffset".into(),
        e => format!("{e:?}").split('(').next().unwrap().into(),
    }
}
fn limbs(v: usize) -> String { let mut s = String::new(); (v as i64).put(&mut s); s }
/// a fault that was handed to the code, so that the specification knows the environment's move
struct Traced { f: FileImage, hit: Option<String> }
impl std::io::Read for Traced { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let r = self.f.read(b); self.note(&r); if self.f.ended && self.hit.is_none() { self.hit = Some("End".into()); } r } }
impl std::io::Seek for Traced { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { let r = self.f.seek(p); if !self.f.astray { self.note(&r); } r } }
impl Traced { fn note<T>(&mut self, r: &std::io::Result<T>) { if let Err(e) = r { if e.kind() != std::io::ErrorKind::Interrupted && self.hit.is_none() { self.hit = Some(format!("{:?}", e.kind())); } } } }
fn image(c: &J) -> Traced {
    let fault = |k: &str| c.get(k).map(|f| (f.at(0).int() as u64, kind(f.at(1).str()).unwrap()));
    Traced { f: FileImage { len: c.f("len").int() as u64, parts: c.f("parts").arr().iter().map(|p| (p.at(0).int() as u64, unhex(p.at(1).str()))).collect(), pos: 0,
        rng: c.get("rng").map(|x| Rng(x.int() as u64)), read_fault: fault("rf"), seek_fault: fault("sf"), seeks: 0,
        shrinks: c.get("shrinks").map(|s| (s.at(0).int() as u64, s.at(1).int() as u64)), delivered: 0, ended: false, astray: false,
        sched: c.get("sched").map(|s| s.arr().iter().map(|x| x.int()).collect()).unwrap_or_default() }, hit: None }
}
/// length and non-zero bytes
fn sparse(b: &[u8]) -> String { format!("{{\"n\":{},\"nz\":[{}]}}", b.len(), b.iter().enumerate().filter(|(_, x)| **x != 0).map(|(i, x)| format!("[{i},{x}]")).collect::<Vec<_>>().join(",")) }
pub fn case(c: &J) -> String {
    crate::alloc::reset();
    let mut hit = None;
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<String, ParquetError> {
        let md = || FileMetaData::get(c.f("md"));
        match c.f("kind").str() {
            "footer" => { let mut f = image(c); let r = get_metadata_chunk(&mut f); hit = f.hit.take(); let b = r?; Ok(format!("[{}]", sparse(&b))) }
            "range" => Ok(match get_page_index_range(&md())? { None => "[]".into(), Some(r) => format!("[{},{}]", limbs(r.start), limbs(r.end)) }),
            "chunk" => { let mut f = image(c); let r = get_page_index_chunk(&mut f, &md()); hit = f.hit.take();
                Ok(match r? { None => "[]".into(), Some((b, r)) => format!("[{},{},{}]", sparse(&b), limbs(r.start), limbs(r.end)) }) }
            "pindex" => {
                let chunk = unhex(c.f("hex").str()).into_boxed_slice();
                let v = read_page_index(&chunk, c.f("off").int() as usize, &md())?;
                let mut o = String::from("[");
                for (i, rg) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    o.push('[');
                    for (k, x) in rg.iter().enumerate() {
                        if k > 0 { o.push(','); }
                        match x { None => o.push_str("[]"), Some((a, b)) => { o.push('['); a.put(&mut o); o.push(','); b.put(&mut o); o.push(']'); } }
                    }
                    o.push(']');
                }
                o.push(']');
                Ok(o)
            }
            "const" => Ok(format!("[{}]", crate::gen::constants().iter().map(|(a, b, v)| { let mut s = String::new(); v.put(&mut s); format!("[\"{a}\",\"{b}\",{s}]") }).collect::<Vec<_>>().join(","))),
            o => panic!("kind {o}"),
        }
    }));
    let h = hit.map(|h| format!("\"{h}\"")).unwrap_or("\"\"".into());
    match r {
        Ok(Ok(v)) => format!("{{\"r\":\"ok\",\"v\":{v},\"hit\":{h}}}"),
        Ok(Err(e)) => format!("{{\"r\":\"err\",\"e\":\"{}\",\"hit\":{h},\"pk\":{}}}", name(&e), crate::alloc::max()),
        Err(_) => format!("{{\"r\":\"err\",\"e\":\"Panic\",\"hit\":{h},\"pk\":0}}"),
    }
}
