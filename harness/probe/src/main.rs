//! What the schema tool knows of every element; the tool keeps it to itself, so its source is included.
#[allow(dead_code)]
#[path = "json.rs"]
mod json;
mod tool {
    #![allow(dead_code)]
    include!("/repo/parquet/src/bin/schema.rs");
    fn collect<'a>(f: &'a SchemaField, up: usize, out: &mut Vec<(&'a SchemaField, usize)>) {
        out.push((f, up));
        let i = out.len();
        if let SchemaField::Group(g) = f { for c in &g.children { collect(c, i, out) } }
    }
    /// logical type, precision, scale; the time unit there and back
    #[cfg(feature = "notes")]
    fn notes(f: &SchemaField) -> String {
        let list = |x: Option<i32>| x.map(|x| x.to_string()).unwrap_or_default();
        match f {
            SchemaField::Group(g) => format!(",\"note\":\"{}\",\"prec\":[],\"scale\":[],\"dec\":false,\"unit\":[]", g.logical_type.map(|t| format!("{t:?}")).unwrap_or_default()),
            SchemaField::Primitive(p) => {
                let t = p.logical_type;
                let unit = match t { Some(PrimitiveLogicalType::Time(o)) | Some(PrimitiveLogicalType::Timestamp(o)) => {
                    let u = TimeUnit::from(o.time_unit);
                    format!("\"{}\"", match u { TimeUnit::MILLIS(_) => "Millis", TimeUnit::MICROS(_) => "Micros", TimeUnit::NANOS(_) => "Nanos" }) }
                    _ => String::new() };
                format!(",\"note\":\"{}\",\"prec\":[{}],\"scale\":[{}],\"dec\":{},\"unit\":[{unit}]", t.map(|t| format!("{t:?}")).unwrap_or_default(),
                    list(t.and_then(|t| t.precision())), list(t.and_then(|t| t.scale())), matches!(t, Some(PrimitiveLogicalType::Decimal(_))))
            }
        }
    }
    #[cfg(not(feature = "notes"))]
    fn notes(_: &SchemaField) -> String { String::new() }
    pub fn case(hex: &[u8], paths: &[Vec<String>]) -> String {
        let elems = Vec::<SchemaElement>::read_thrift(&mut CompactThriftInputSlice::new(hex)).expect("elements");
        let root = match convert_schema(&elems) {
            Ok(r) => r,
            Err(e) => return format!("{{\"r\":\"err\",\"e\":\"{}\"}}", if matches!(e, ParquetError::Schema(_) | ParquetError::UnknownType(_)) { "schema" } else { "other" }),
        };
        let mut nodes = vec![];
        collect(&root, 0, &mut nodes);
        let mut o = String::from("{\"r\":\"ok\",\"nodes\":[");
        for (i, (f, up)) in nodes.iter().enumerate() {
            if i > 0 { o.push(','); }
            let c = f.common();
            let (leaf, n) = match f { SchemaField::Primitive(p) => (p.index as i64, 0), SchemaField::Group(g) => (-1, g.children.len()) };
            let id = c.field_id.map(|x| { let n: i32 = x.into(); n.clamp(-(1 << 30), 1 << 30).to_string() }).unwrap_or_default();
            let rep = match c.repetition { RepetitionType::Required => 0, RepetitionType::Optional => 1, RepetitionType::Repeated => 2 };
            // the accessors and what they access
            let def = if f.definition_level() == c.def_level { c.def_level as i64 } else { -1 };
            let rl = if f.repetition_level() == c.rep_level { c.rep_level as i64 } else { -1 };
            let name = if f.name() == c.name { c.name.as_str() } else { "?" };
            o.push_str(&format!("{{\"name\":\"{}\",\"rep\":{rep},\"id\":[{id}],\"def\":{def},\"rl\":{rl},\"leaf\":{leaf},\"up\":{up},\"n\":{n},\"opt\":{}{}}}",
                name.replace('\\', "\\\\").replace('"', "\\\""), f.is_optional(), notes(f)));
        }
        o.push_str("],\"found\":[");
        for (k, p) in paths.iter().enumerate() {
            if k > 0 { o.push(','); }
            let p: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
            let at = root.find_field_by_path(&p).map(|f| nodes.iter().position(|(g, _)| std::ptr::eq(*g, f)).map(|i| i as i64 + 1).unwrap_or(-1)).unwrap_or(0);
            o.push_str(&at.to_string());
        }
        o.push_str("]}");
        o
    }
}
fn main() {
    use std::io::Write;
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let cases = std::fs::read_to_string(&args[1]).unwrap();
    let mut out = std::fs::File::create(&args[2]).unwrap();
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        for l in cases.lines() {
            let c = json::J::parse(l);
            let paths: Vec<Vec<String>> = c.f("paths").arr().iter().map(|p| p.arr().iter().map(|s| s.str().to_string()).collect()).collect();
            let r = std::panic::catch_unwind(|| tool::case(&c.hex("hex"), &paths)).unwrap_or_else(|_| "{\"r\":\"err\",\"e\":\"panic\"}".into());
            writeln!(out, "{r}").unwrap();
        }
    }).unwrap().join().unwrap();
}
