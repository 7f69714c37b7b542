//! Executes cases (one JSON object per line) against the real crates and records what happened.
//! usage: ct-harness CASES OUT FIRST   (appends to OUT; "S <n>" marks the start of case n)
#[macro_use]
#[allow(non_snake_case, non_camel_case_types, dead_code, unused_imports)]
mod gen;
mod alloc;
mod json;
mod pq;
mod source;
mod val;
use compact_thrift_runtime::*;
use json::{hex, unhex, J};
use source::*;
use std::borrow::Cow;
use std::cell::Cell;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;
use val::Val;

#[global_allocator]
static A: alloc::Alloc = alloc::Alloc;

/// Error names; payloads that are mere diagnostics (the rejected length) are dropped.
pub fn error_name(e: &ThriftError) -> String {
    if let ThriftError::IO(k) = e { return format!("IO:{k:?}"); }
    let d = format!("{e:?}");
    match e {
        // the texts of the error have to name the field as well
        ThriftError::MissingField(n) => { let n = n.to_string(); let all = d.contains(&n) && e.to_string().contains(&n) && format!("{:?}", e.clone()) == d;
            format!("MissingField:{n}{}", if all { "" } else { " (not in the message)" }) }
        _ => d.split('(').next().unwrap().to_string(),
    }
}
pub enum Fail { Err(String), Setup }
impl From<ThriftError> for Fail { fn from(e: ThriftError) -> Self { Fail::Err(error_name(&e)) } }

fn build<T: Val>(j: &J) -> Result<T, Fail> { catch_unwind(AssertUnwindSafe(|| T::get(j))).map_err(|_| Fail::Setup) }
fn shown<T: Val>(v: &T) -> String { let mut s = String::new(); v.put(&mut s); s }

fn go_read<'i, T: CompactThriftProtocol<'i> + Val + Default, I: CompactThriftInput<'i>>(input: &mut I, job: &J) -> Result<String, Fail> {
    match job.f("op").str() {
        "read" => Ok(shown(&T::read_thrift(input)?)),
        "fill" => { let mut v: T = build(job.f("prior"))?; v.fill_thrift(input)?; Ok(shown(&v)) }
        "ffield" => {
            let mut v: T = match job.get("prior") { Some(p) => build(p)?, None => T::default() };
            v.fill_thrift_field(input, job.f("wt").int() as u8)?;
            Ok(shown(&v))
        }
        // fill through one of two holders of a shared value
        "fillrc" | "fillarc" => {
            let rc = job.f("op").str() == "fillrc";
            let p: T = build(job.f("prior"))?;
            let mut before = String::new(); p.put(&mut before);
            let (r, v, held) = if rc {
                let a = Rc::new(p); let mut b = a.clone();
                let r = match job.get("wt") { Some(w) => b.fill_thrift_field(input, w.int() as u8), None => b.fill_thrift(input) };
                (r, shown(&*b), shown(&*a))
            } else {
                let a = Arc::new(p); let mut b = a.clone();
                let r = match job.get("wt") { Some(w) => b.fill_thrift_field(input, w.int() as u8), None => b.fill_thrift(input) };
                (r, shown(&*b), shown(&*a))
            };
            if held != before { return Err(Fail::Err("SharedModified".into())); }
            r?;
            Ok(v)
        }
        // weak references count as sharing as well
        "fillweak" => {
            let mut a = Rc::new(build::<T>(job.f("prior"))?);
            let before = shown(&*a);
            let w = Rc::downgrade(&a);
            let r = a.fill_thrift(input);
            if let Some(o) = w.upgrade() { if shown(&*o) != before && r.is_err() { return Err(Fail::Err("SharedModified".into())); } }
            r?;
            Ok(shown(&*a))
        }
        o => panic!("op {o}"),
    }
}
fn cow_obs<'i>(s: &[u8], borrowed: bool, range: Option<(usize, usize)>) -> String {
    let p = s.as_ptr() as usize;
    let inside = range.map_or(false, |(a, b)| s.is_empty() || (p >= a && p + s.len() <= b));
    let mut o = String::new();
    s.to_vec().put(&mut o);
    format!("[{},{}]", o, if borrowed { if inside { 1 } else { 2 } } else { 0 })
}
fn run_job<'i, I: CompactThriftInput<'i>>(input: &mut I, job: &J, range: Option<(usize, usize)>) -> Result<String, Fail> {
    let num = |v: i64, n| { let mut s = String::from("["); for i in 0..n { if i > 0 { s.push(',') } write!(s, "{}", (v >> (16 * i)) & 0xffff).unwrap(); } s.push(']'); s };
    match job.f("op").str() {
        "skip" => { input.skip_field(job.f("wt").int() as u8)?; Ok("[]".into()) }
        "tok" => Ok(match job.f("t").str() {
            "byte" => format!("{}", input.read_byte()?),
            "len" => num(input.read_len()? as i64, 4),
            "i16" => shown(&input.read_i16()?), "i32" => shown(&input.read_i32()?), "i64" => shown(&input.read_i64()?),
            "double" => shown(&input.read_double()?),
            "binary" => shown(&input.read_binary()?), "string" => shown(&input.read_string()?),
            "skipint" => { input.skip_integer()?; "[]".into() }
            "skipbin" => { input.skip_binary()?; "[]".into() }
            "header" => { let mut last = job.f("last").int() as i16; let t = input.read_field_header(&mut last)?;
                if t == 0 { "[0,0]".into() } else { format!("[{},{}]", t, last as u16) } }
            "list" => { let (n, t) = read_collection_len_and_type(input)?; format!("[{n},{t}]") }
            "map" => { let (n, k, v) = read_map_len_and_types(input)?; format!("[{n},{k},{v}]") }
            o => panic!("token {o}"),
        }),
        // skip, or read in full but keep only a digest (large values)
        "digest" => match job.f("t").str() {
            "binary" => { let b = input.read_binary()?; Ok(format!("[{},{}]", b.len(), b.iter().fold(0u32, |a, x| (a * 31 + *x as u32) % 65521))) }
            "string" => { let b = input.read_string()?; Ok(format!("[{},{}]", b.len(), b.bytes().fold(0u32, |a, x| (a * 31 + x as u32) % 65521))) }
            "Vec<bool>" => { let v = Vec::<bool>::read_thrift(input)?; Ok(format!("[{},{}]", v.len(), v.iter().filter(|x| **x).count() % 65521)) }
            "Vec<i8>" => { let v = Vec::<i8>::read_thrift(input)?; Ok(format!("[{},{}]", v.len(), v.iter().fold(0u32, |a, x| (a + *x as u8 as u32) % 65521))) }
            "Vec<i32>" => { let v = Vec::<i32>::read_thrift(input)?; Ok(format!("[{},{}]", v.len(), v.iter().fold(0u32, |a, x| (a + *x as u32 % 65521) % 65521))) }
            "Vec<Empty>" => { let v = Vec::<gen::tt::Empty>::read_thrift(input)?; Ok(format!("[{},0]", v.len())) }
            "Vec<String>" => { let v = Vec::<String>::read_thrift(input)?; Ok(format!("[{},{}]", v.len(), v.iter().map(|s| s.len()).sum::<usize>() % 65521)) }
            "EncodingSet" => { let v = compact_thrift_parquet::EncodingSet::read_thrift(input)?; Ok(format!("[{},0]", v.len())) }
            o => panic!("digest {o}"),
        },
        "cow" => Ok(match job.f("t").str() {
            "str" => { let c = Cow::<'i, str>::read_thrift(input)?; cow_obs(c.as_bytes(), matches!(c, Cow::Borrowed(_)), range) }
            "bytes" => { let c = Cow::<'i, [u8]>::read_thrift(input)?; cow_obs(&c, matches!(c, Cow::Borrowed(_)), range) }
            "liststr" => { let v = Vec::<Cow<'i, str>>::read_thrift(input)?;
                format!("[{}]", v.iter().map(|c| cow_obs(c.as_bytes(), matches!(c, Cow::Borrowed(_)), range)).collect::<Vec<_>>().join(",")) }
            "listbytes" => { let v = Vec::<Cow<'i, [u8]>>::read_thrift(input)?;
                format!("[{}]", v.iter().map(|c| cow_obs(c, matches!(c, Cow::Borrowed(_)), range)).collect::<Vec<_>>().join(",")) }
            o => panic!("cow {o}"),
        }),
        _ => dispatch!(job.f("t").str(), go_read, input, job),
    }
}
fn content(c: &J) -> Content {
    Content { prefix: c.get("hex").map(|h| unhex(h.str())).unwrap_or_default(), fill: c.i("fill", 0) as u8, rep: c.i("rep", 0) as u64,
        tail: c.get("tail").map(|h| unhex(h.str())).unwrap_or_default() }
}
/// runs the jobs in order until one fails
fn session<'i, I: CompactThriftInput<'i>>(input: &mut I, jobs: &[J], range: Option<(usize, usize)>, pos: &dyn Fn(&mut I) -> Option<u64>) -> String {
    let mut o = String::from("[");
    let mut last = 0;
    for (i, j) in jobs.iter().enumerate() {
        if i > 0 { o.push(','); }
        alloc::reset();
        let r = catch_unwind(AssertUnwindSafe(|| run_job(input, j, range)));
        let pk = alloc::max();
        let p = catch_unwind(AssertUnwindSafe(|| pos(input)));
        let p = match p { Ok(Some(p)) => p as i64, _ => -1 };
        match r {
            _ if p < last => { o.push_str("{\"r\":\"err\",\"e\":\"BadRest\",\"u\":0,\"pk\":0}"); break }
            Ok(Ok(v)) => write!(o, "{{\"r\":\"ok\",\"p\":{p},\"v\":{v}}}").unwrap(),
            Ok(Err(Fail::Err(e))) => { write!(o, "{{\"r\":\"err\",\"e\":\"{e}\",\"u\":{p},\"pk\":{pk}}}").unwrap(); break }
            Ok(Err(Fail::Setup)) => { o.push_str("{\"r\":\"err\",\"e\":\"SetupFailed\",\"u\":0,\"pk\":0}"); break }
            Err(_) => { o.push_str("{\"r\":\"err\",\"e\":\"Panic\",\"u\":0,\"pk\":0}"); break }
        }
        last = p;
    }
    o.push(']');
    o
}
fn sched(c: &J) -> std::collections::VecDeque<i64> { c.get("sched").map(|s| s.arr().iter().map(|x| x.int()).collect()).unwrap_or_default() }
fn read_case(case: &J, guarded: &mut Guarded) -> String {
    let c = content(case);
    let jobs = case.f("jobs").arr();
    let fault = case.get("fault").map(|f| kind(f.str()).unwrap());
    let mut o = String::from("[");
    for (i, s) in case.f("srcs").arr().iter().enumerate() {
        if i > 0 { o.push(','); }
        let s = s.str();
        let pos = Rc::new(Cell::new(0));
        let p2 = pos.clone();
        let hit = Rc::new(Cell::new(false));
        let obs = match s.split(':').next().unwrap() {
            "slice" => {
                // any access behind the end is fatal
                let data: &'static [u8] = guarded.place(&c);
                let (a, n) = (data.as_ptr() as usize, data.len());
                let mut input = CompactThriftInputSlice::new(data);
                session(&mut input, jobs, Some((a, a + n)), &|i| {
                    let s = i.as_slice();
                    if s.len() > n || (!s.is_empty() && s.as_ptr() as usize + s.len() != a + n) { None } else { Some((n - s.len()) as u64) }
                })
            }
            "read" => session(&mut Reader { c: &c, pos, rng: None, fault, sched: Default::default(), hit: hit.clone() }, jobs, None, &move |_| Some(p2.get())),
            "chunk" => session(&mut Reader { c: &c, pos, rng: Some(Rng(s[6..].parse().unwrap())), fault, sched: Default::default(), hit: hit.clone() }, jobs, None, &move |_| Some(p2.get())),
            // explicit behaviour of every read
            "sched" => session(&mut Reader { c: &c, pos, rng: None, fault, sched: sched(case), hit: hit.clone() }, jobs, None, &move |_| Some(p2.get())),
            "min" => session(&mut Min { c: &c, pos, fault }, jobs, None, &move |_| Some(p2.get())),
            // the implementation of Read for slices
            "slicer" => { let data = c.materialize(); let n = data.len(); let mut r: &[u8] = &data;
                session(&mut r, jobs, None, &move |r| Some((n - r.len()) as u64)) }
            o => panic!("source {o}"),
        };
        if s == "sched" { write!(o, "[\"{}\",{obs}]", if hit.get() { "hit" } else { "sched" }).unwrap(); continue; }
        write!(o, "[\"{s}\",{obs}]").unwrap();
    }
    o.push(']');
    o
}
fn go_write<T: for<'i> CompactThriftProtocol<'i> + Val, W: CompactThriftOutput>(out: &mut W, job: &J) -> Result<String, Fail> {
    let v: T = build(job.f("v"))?;
    match job.f("op").str() {
        "write" => { v.write_thrift(out)?; Ok("[]".into()) }
        "wfield" => { let mut last = job.f("last").int() as i16; v.write_thrift_field(out, job.f("id").int() as i16, &mut last)?; Ok(format!("[{}]", last as u16)) }
        o => panic!("op {o}"),
    }
}
fn run_write<W: CompactThriftOutput>(out: &mut W, job: &J) -> Result<String, Fail> {
    match job.f("op").str() {
        "wtok" => { let v = job.f("v");
            match job.f("t").str() {
                "byte" => out.write_byte(v.int() as u8)?,
                "len" => out.write_len(i64::get(v) as usize)?,
                "i16" => out.write_i16(i16::get(v))?, "i32" => out.write_i32(i32::get(v))?, "i64" => out.write_i64(i64::get(v))?,
                "double" => out.write_double(f64::get(v))?, "binary" => out.write_binary(&Vec::<u8>::get(v))?,
                "string" => out.write_string(&String::get(v))?,
                o => panic!("token {o}"),
            }
            Ok("[]".into()) }
        // large values: n elements equal to fill
        "wbig" => { let n = job.f("n").int() as usize; let f = job.i("fill", 0);
            let text = || { let u = String::from_utf8(unhex(job.f("unit").str())).unwrap(); let mut s = "a".repeat(n % u.len()); while s.len() < n { s.push_str(&u) } s };
            match job.f("t").str() {
                "binary" => vec![f as u8; n].write_thrift(out)?,
                "string" => text().write_thrift(out)?,
                "boxstr" => text().into_boxed_str().write_thrift(out)?,
                "rcstr" => Rc::<str>::from(text()).write_thrift(out)?,
                "arcstr" => Arc::<str>::from(text()).write_thrift(out)?,
                "cowstr" => Cow::<'static, str>::Owned(text()).write_thrift(out)?,
                "cowbytes" => Cow::<'static, [u8]>::Owned(vec![f as u8; n]).write_thrift(out)?,
                "Vec<i8>" => vec![f as i8; n].write_thrift(out)?,
                "Vec<bool>" => vec![f != 0; n].write_thrift(out)?,
                "Vec<Empty>" => vec![gen::tt::Empty {}; n].write_thrift(out)?,
                o => panic!("wbig {o}"),
            }
            Ok("[]".into()) }
        "wcow" => { match job.f("t").str() {
                "str" => { let s = String::get(job.f("v")); Cow::Borrowed(s.as_str()).write_thrift(out)? }
                "bytes" => { let s = Vec::<u8>::get(job.f("v")); Cow::Borrowed(s.as_slice()).write_thrift(out)? }
                o => panic!("wcow {o}") }
            Ok("[]".into()) }
        _ => dispatch!(job.f("t").str(), go_write, out, job),
    }
}
fn write_case(case: &J) -> String {
    let mut o = String::from("[");
    for (i, s) in case.f("sinks").arr().iter().enumerate() {
        if i > 0 { o.push(','); }
        let keep = s.i("keep", 1 << 30) as usize;
        let mut sink = Sink { out: vec![], total: 0, keep, budget: s.i("budget", 1 << 40) as u64, err: s.get("err").map(|k| kind(k.str()).unwrap()),
            rng: s.get("rng").map(|x| Rng(x.int() as u64)), sched: sched(s), hit: None };
        let mut res = String::from("[");
        for (k, j) in case.f("jobs").arr().iter().enumerate() {
            if k > 0 { res.push(','); }
            let before = sink.total;
            alloc::reset();
            let r = if s.get("vec").is_some() {
                let mut v = Vec::new(); let r = catch_unwind(AssertUnwindSafe(|| run_write(&mut v, j))); sink.total += v.len() as u64; sink.out.extend(v); r
            } else if s.get("min").is_some() {
                let mut v = MinSink(Vec::new()); let r = catch_unwind(AssertUnwindSafe(|| run_write(&mut v, j))); sink.total += v.0.len() as u64; sink.out.extend(v.0); r
            } else { catch_unwind(AssertUnwindSafe(|| run_write(&mut sink, j))) };
            let _ = before;
            match r {
                Ok(Ok(v)) => write!(res, "{{\"r\":\"ok\",\"p\":{},\"v\":{v}}}", sink.total).unwrap(),
                Ok(Err(Fail::Err(e))) => { write!(res, "{{\"r\":\"err\",\"e\":\"{e}\",\"u\":{}}}", sink.total).unwrap(); break }
                Ok(Err(Fail::Setup)) => { res.push_str("{\"r\":\"err\",\"e\":\"SetupFailed\",\"u\":0}"); break }
                Err(_) => { res.push_str("{\"r\":\"err\",\"e\":\"Panic\",\"u\":0}"); break }
            }
        }
        res.push(']');
        write!(o, "[\"{}\",{{\"out\":\"{}\",\"hit\":\"{}\",\"obs\":{}}}]", s.s("name", "sink"), hex(&sink.out), sink.hit.unwrap_or("no"), res).unwrap();
    }
    o.push(']');
    o
}
/// histories of the holders of reference-counted values
macro_rules! holders_of {
    ($name:ident, $rc:ident, $weak:path) => {
        fn $name<T: for<'i> CompactThriftProtocol<'i> + Val + Default>(case: &J) -> String {
            let mut h: Vec<Option<$rc<T>>> = vec![None, None, None];
            let mut weak: Vec<$weak> = vec![];
            let Ok(v) = build::<T>(case.f("prior")) else { return "{\"dead\":\"Setup\"}".into() };
            h[0] = Some($rc::new(v));
            let mut o = String::from("[");
            for (i, op) in case.f("ops").arr().iter().enumerate() {
                if i > 0 { o.push(','); }
                let a = op.at(1).int() as usize;
                let r: Result<(), String> = match op.at(0).str() {
                    "clone" => { let x = h[a].clone(); h[op.at(2).int() as usize] = x; Ok(()) }
                    "drop" => { h[a] = None; Ok(()) }
                    "weak" => { weak.push($rc::downgrade(h[a].as_ref().unwrap())); Ok(()) }
                    "unweak" => { weak.clear(); Ok(()) }
                    "fill" => { let b = unhex(op.at(2).str()); let x = h[a].as_mut().unwrap();
                        match catch_unwind(AssertUnwindSafe(|| x.fill_thrift(&mut CompactThriftInputSlice::new(&b)))) { Ok(r) => r.map_err(|e| error_name(&e)), Err(_) => Err("Panic".into()) } }
                    "ffield" => { let b = unhex(op.at(2).str()); let wt = op.at(3).int() as u8; let x = h[a].as_mut().unwrap();
                        match catch_unwind(AssertUnwindSafe(|| x.fill_thrift_field(&mut CompactThriftInputSlice::new(&b), wt))) { Ok(r) => r.map_err(|e| error_name(&e)), Err(_) => Err("Panic".into()) } }
                    o => panic!("holder op {o}"),
                };
                write!(o, "{{\"r\":\"{}\",\"h\":[", match &r { Ok(()) => "ok", Err(e) => e }).unwrap();
                for (k, x) in h.iter().enumerate() {
                    if k > 0 { o.push(','); }
                    match x { None => o.push_str("[]"), Some(v) => { o.push('['); v.as_ref().put(&mut o); o.push(']') } }
                }
                o.push_str("]}");
            }
            o.push(']');
            o
        }
    };
}
holders_of!(holders_rc, Rc, std::rc::Weak<T>);
holders_of!(holders_arc, Arc, std::sync::Weak<T>);
fn go_holders<T: for<'i> CompactThriftProtocol<'i> + Val + Default, X>(_: &mut X, case: &J) -> Result<String, Fail> {
    Ok(if case.f("rc").int() != 0 { holders_rc::<T>(case) } else { holders_arc::<T>(case) })
}
fn holders_case(case: &J) -> String {
    let r: Result<String, Fail> = (|| dispatch!(case.f("t").str(), go_holders, &mut (), case))();
    r.unwrap_or_else(|_| "{\"dead\":\"Setup\"}".into())
}
/// values as such
fn go_values<T: Val + Default + Clone + PartialEq, X>(_: &mut X, case: &J) -> Result<String, Fail> {
    Ok(match case.f("op").str() {
        "default" => format!("{{\"v\":{}}}", shown(&T::default())),
        _ => {
            let (x, y): (T, T) = (build(case.f("x"))?, build(case.f("y"))?);
            let (eq, ne) = (x == y, x != y);
            #[allow(clippy::eq_op)]
            let own = x == x;
            let same = { let z = x.clone(); z == x };
            let z = x.clone();
            drop(x);
            format!("{{\"eq\":{eq},\"ne\":{ne},\"same\":{same},\"own\":{own},\"copy\":{}}}", shown(&z))
        }
    })
}
fn values_case(case: &J) -> String {
    if case.f("op").str() == "number" {
        let (mut x, mut y) = (0, 0);
        if catch_unwind(AssertUnwindSafe(|| { x = <i32 as Val>::get(case.f("x")); y = <i32 as Val>::get(case.f("y")) })).is_err() { return "{\"dead\":\"Setup\"}".into() }
        return match catch_unwind(|| gen::numbers(case.f("t").str(), x, y)) { Ok(Some(v)) => v, _ => "{\"dead\":\"Panic\"}".into() };
    }
    if case.f("op").str() == "new" {
        return match catch_unwind(AssertUnwindSafe(|| gen::construct(case.f("t").str(), case.f("args")))) {
            Ok(Some(v)) => format!("{{\"v\":{v}}}"), Ok(None) => "{\"v\":\"no constructor\"}".into(), Err(_) => "{\"v\":\"panic\"}".into() };
    }
    let r: Result<String, Fail> = (|| dispatch!(case.f("t").str(), go_values, &mut (), case))();
    r.unwrap_or_else(|_| "{\"dead\":\"Setup\"}".into())
}
/// what decoding, encoding and dropping does with memory
fn go_ledger<'i, T: CompactThriftProtocol<'i> + Val + Default, I: CompactThriftInput<'i>>(input: &mut I, job: &J) -> Result<String, Fail> {
    let op = job.f("op").str();
    let (wt, prior, v) = (job.i("wt", 0) as u8, job.get("prior"), job.get("v"));
    let budget = job.i("budget", 1 << 40) as u64;
    alloc::start();
    let r: Result<Result<(), ThriftError>, ()> = catch_unwind(AssertUnwindSafe(|| match op {
        "read" => T::read_thrift(input).map(drop),
        "fill" => { let mut v = T::get(prior.unwrap()); let r = v.fill_thrift(input); drop(v); r }
        "ffield" => { let mut v = T::get(prior.unwrap()); let r = v.fill_thrift_field(input, wt); drop(v); r }
        "again" => { let mut v = T::read_thrift(input)?; let r = v.fill_thrift(input); drop(v); r }
        "skip" => input.skip_field(wt),
        "write" => { let v = T::get(v.unwrap()); let mut sink = Sink { out: vec![], total: 0, keep: 1 << 30, budget, err: None, rng: None, sched: Default::default(), hit: None }; let r = v.write_thrift(&mut sink); drop(v); drop(sink); r }
        "append" => { let v = T::get(v.unwrap()); let mut o = Vec::new(); let r = v.write_thrift(&mut o); drop(v); drop(o); r }
        o => panic!("ledger {o}"),
    })).map_err(drop);
    alloc::stop();
    Ok(ledger(match &r { Ok(Ok(())) => "ok".into(), Ok(Err(e)) => error_name(e), Err(()) => "Panic".into() }))
}
fn ledger(r: String) -> String {
    let Some(ev) = alloc::events() else { return "{\"r\":\"too much\"}".into() };
    let mut at: std::collections::HashMap<usize, usize> = Default::default();
    let mut n = 0;
    let mut o = format!("{{\"r\":\"{r}\",\"ev\":[");
    for (i, e) in ev.iter().enumerate() {
        if i > 0 { o.push(','); }
        match e.kind {
            1 => { n += 1; at.insert(e.at, n); write!(o, "[\"take\",{n},{}]", e.size).unwrap(); }
            2 => write!(o, "[\"release\",{},{}]", at.remove(&e.at).unwrap_or(0), e.size).unwrap(),
            _ => { let b = at.remove(&e.at).unwrap_or(0); at.insert(e.to, b); write!(o, "[\"resize\",{b},{},{}]", e.size, e.new).unwrap(); }
        }
    }
    o.push_str("]}");
    o
}
fn ledger_case(case: &J, guarded: &mut Guarded) -> String {
    if let Some(inner) = case.get("inner") {
        alloc::start();
        drop(pq::case(inner));
        alloc::stop();
        return ledger("done".into());
    }
    let c = content(case);
    let job = case.f("job");
    let fault = case.get("fault").map(|f| kind(f.str()).unwrap());
    let t = job.s("t", "bool");
    let s = case.s("src", "slice");
    let pos = Rc::new(Cell::new(0));
    let hit = Rc::new(Cell::new(false));
    let r: Result<String, Fail> = (|| match s.split(':').next().unwrap() {
        "slice" => { let data: &'static [u8] = guarded.place(&c); let mut input = CompactThriftInputSlice::new(data); dispatch!(t, go_ledger, &mut input, job) }
        "read" => { let mut input = Reader { c: &c, pos, rng: None, fault, sched: Default::default(), hit }; dispatch!(t, go_ledger, &mut input, job) }
        "chunk" => { let mut input = Reader { c: &c, pos, rng: Some(Rng(s[6..].parse().unwrap())), fault, sched: Default::default(), hit }; dispatch!(t, go_ledger, &mut input, job) }
        "min" => { let mut input = Min { c: &c, pos, fault }; dispatch!(t, go_ledger, &mut input, job) }
        o => panic!("source {o}"),
    })();
    r.unwrap_or_else(|_| "{\"dead\":\"Setup\"}".into())
}
/// several streams with their own jobs; the schedule says whose next job runs, or every stream runs in a thread of its own
type Turn<'a> = Box<dyn FnMut() -> Option<String> + 'a>;
fn read_turns<'a, I: CompactThriftInput<'static> + 'a>(mut input: I, jobs: &'a [J], pos: impl Fn(&mut I) -> i64 + 'a) -> Turn<'a> {
    let mut k = 0;
    Box::new(move || {
        let job = jobs.get(k)?;
        k += 1;
        Some(match catch_unwind(AssertUnwindSafe(|| run_job(&mut input, job, None))) {
            Ok(Ok(v)) => format!("{{\"r\":\"ok\",\"p\":{},\"v\":{v}}}", pos(&mut input)),
            Ok(Err(Fail::Err(e))) => { k = jobs.len(); format!("{{\"r\":\"err\",\"e\":\"{e}\"}}") }
            Ok(Err(Fail::Setup)) => { k = jobs.len(); "{\"r\":\"err\",\"e\":\"SetupFailed\"}".into() }
            Err(_) => { k = jobs.len(); "{\"r\":\"err\",\"e\":\"Panic\"}".into() }
        })
    })
}
fn write_turns(mut sink: Sink, jobs: &[J]) -> Turn<'_> {
    let mut k = 0;
    Box::new(move || {
        let job = jobs.get(k)?;
        k += 1;
        let r = catch_unwind(AssertUnwindSafe(|| run_write(&mut sink, job)));
        let out = hex(&sink.out);
        Some(match r {
            Ok(Ok(_)) => format!("{{\"r\":\"ok\",\"p\":{},\"v\":\"{out}\"}}", sink.total),
            Ok(Err(Fail::Err(e))) => { k = jobs.len(); format!("{{\"r\":\"err\",\"e\":\"{e} after {out}\"}}") }
            Ok(Err(Fail::Setup)) => { k = jobs.len(); "{\"r\":\"err\",\"e\":\"SetupFailed\"}".into() }
            Err(_) => { k = jobs.len(); "{\"r\":\"err\",\"e\":\"Panic\"}".into() }
        })
    })
}
type Bytes = Option<(&'static Content, &'static [u8])>;
fn bytes(s: &J) -> Bytes {
    if s.get("sink").is_some() { return None }
    let c: &'static Content = Box::leak(Box::new(content(s)));
    Some((c, Vec::leak(c.materialize())))
}
fn turns(s: &J, bytes: Bytes) -> Turn<'_> {
    let jobs = s.f("jobs").arr();
    if let Some(k) = s.get("sink") {
        return write_turns(Sink { out: vec![], total: 0, keep: 1 << 30, budget: k.i("budget", 1 << 40) as u64, err: k.get("err").map(|k| kind(k.str()).unwrap()),
            rng: k.get("rng").map(|x| Rng(x.int() as u64)), sched: Default::default(), hit: None }, jobs);
    }
    let (c, data) = bytes.unwrap();
    let fault = s.get("fault").map(|f| kind(f.str()).unwrap());
    let pos = Rc::new(Cell::new(0));
    let p2 = pos.clone();
    let src = s.s("src", "slice");
    match src.split(':').next().unwrap() {
        "slice" => { let n = data.len();
            read_turns(CompactThriftInputSlice::new(data), jobs, move |i| n as i64 - i.as_slice().len() as i64) }
        "read" => read_turns(Reader { c, pos, rng: None, fault, sched: Default::default(), hit: Default::default() }, jobs, move |_| p2.get() as i64),
        "chunk" => read_turns(Reader { c, pos, rng: Some(Rng(src[6..].parse().unwrap())), fault, sched: Default::default(), hit: Default::default() }, jobs, move |_| p2.get() as i64),
        "min" => read_turns(Min { c, pos, fault }, jobs, move |_| p2.get() as i64),
        o => panic!("source {o}"),
    }
}
fn streams_case(case: &J) -> String {
    let streams = case.f("streams").arr();
    let given: Vec<Bytes> = streams.iter().map(bytes).collect();
    let mut o: Vec<Vec<String>> = streams.iter().map(|_| vec![]).collect();
    // again and again, until something is different from the first time
    let rounds = case.i("rounds", 1);
    let since = std::time::Instant::now();
    let limit = std::time::Duration::from_millis(case.i("ms", 400) as u64);
    if case.get("threads").is_some() {
        for ((s, g), x) in streams.iter().zip(&given).zip(&mut o) { let mut t = turns(s, *g); while let Some(r) = t() { x.push(r) } }
        let start = std::sync::Barrier::new(streams.len());
        std::thread::scope(|scope| {
            let hs: Vec<_> = streams.iter().zip(&given).zip(&o).map(|((s, g), first)| { let start = &start; let g = *g; std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(scope, move || {
                start.wait();
                for _ in 0..rounds {
                    let mut t = turns(s, g);
                    let mut r = vec![];
                    while let Some(x) = t() { r.push(x) }
                    if r != *first { return r }
                    if since.elapsed() > limit { break }
                }
                first.clone()
            }).unwrap() }).collect();
            let got: Vec<_> = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
            got
        }).into_iter().zip(&mut o).for_each(|(r, x)| *x = r);
    } else {
        for n in 0..rounds {
            let mut ts: Vec<_> = streams.iter().zip(&given).map(|(s, g)| turns(s, *g)).collect();
            let mut r: Vec<Vec<String>> = streams.iter().map(|_| vec![]).collect();
            for k in case.f("order").arr() { let k = k.int() as usize; if let Some(x) = ts[k]() { r[k].push(x) } }
            if n == 0 { o = r } else if o != r { o = r; break }
            if since.elapsed() > limit { break }
        }
    }
    format!("[{}]", o.iter().map(|x| format!("[{}]", x.join(","))).collect::<Vec<_>>().join(","))
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let cases = std::fs::read_to_string(&args[1]).unwrap();
    let mut out = std::fs::OpenOptions::new().append(true).create(true).open(&args[2]).unwrap();
    let first: usize = args[3].parse().unwrap();
    // a definite stack, whatever the limits of the environment
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let mut guarded = Guarded::new();
        for (i, l) in cases.lines().enumerate().skip(first) {
            out.write_all(format!("S {i}\n").as_bytes()).unwrap();
            let case = J::parse(l);
            let r = match case.s("kind", "read") { "read" => read_case(&case, &mut guarded), "write" => write_case(&case), "holders" => holders_case(&case), "values" => values_case(&case), "ledger" => ledger_case(&case, &mut guarded), "streams" => streams_case(&case), _ => pq::case(&case) };
            out.write_all(format!("R {i} {r}\n").as_bytes()).unwrap();
        }
        out.write_all(b"E\n").unwrap();
    }).unwrap().join().unwrap();
}
