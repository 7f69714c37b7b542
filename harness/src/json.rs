//! Minimal JSON reader, numbers are i64.
pub enum J { Null, Bool(bool), Int(i64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }
impl J {
    pub fn parse(s: &str) -> J { let b = s.as_bytes(); let mut p = 0; value(b, &mut p) }
    pub fn at(&self, i: usize) -> &J { match self { J::Arr(v) => &v[i], _ => panic!("not an array") } }
    pub fn arr(&self) -> &[J] { match self { J::Arr(v) => v, _ => panic!("not an array") } }
    pub fn int(&self) -> i64 { match self { J::Int(i) => *i, _ => panic!("not a number") } }
    pub fn bool(&self) -> bool { match self { J::Bool(b) => *b, _ => panic!("not a bool") } }
    pub fn str(&self) -> &str { match self { J::Str(s) => s, _ => panic!("not a string") } }
    pub fn get(&self, k: &str) -> Option<&J> { match self { J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|x| &x.1), _ => None } }
    pub fn f(&self, k: &str) -> &J { self.get(k).unwrap_or_else(|| panic!("no member {k}")) }
    pub fn i(&self, k: &str, default: i64) -> i64 { self.get(k).map(J::int).unwrap_or(default) }
    pub fn s<'a>(&'a self, k: &str, default: &'a str) -> &'a str { self.get(k).map(J::str).unwrap_or(default) }
    pub fn hex(&self, k: &str) -> Vec<u8> { unhex(self.f(k).str()) }
}
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
pub fn hex(b: &[u8]) -> String { let mut s = String::with_capacity(b.len() * 2); for x in b { s.push_str(&format!("{x:02x}")); } s }
fn ws(b: &[u8], p: &mut usize) { while *p < b.len() && b[*p].is_ascii_whitespace() { *p += 1 } }
fn value(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => { *p += 1; let mut v = vec![]; loop { ws(b, p);
            match b[*p] { b'}' => { *p += 1; return J::Obj(v) } b',' => { *p += 1 } _ => {
                let k = match value(b, p) { J::Str(s) => s, _ => panic!("key") }; ws(b, p); assert_eq!(b[*p], b':'); *p += 1; v.push((k, value(b, p))) } } } }
        b'[' => { *p += 1; let mut v = vec![]; loop { ws(b, p);
            match b[*p] { b']' => { *p += 1; return J::Arr(v) } b',' => { *p += 1 } _ => v.push(value(b, p)) } } }
        b'"' => { *p += 1; let mut s = vec![]; while b[*p] != b'"' {
            if b[*p] == b'\\' { *p += 1; s.push(match b[*p] { b'n' => b'\n', b't' => b'\t', c => c }) } else { s.push(b[*p]) } *p += 1 }
            *p += 1; J::Str(String::from_utf8(s).unwrap()) }
        b't' => { *p += 4; J::Bool(true) }
        b'f' => { *p += 5; J::Bool(false) }
        b'n' => { *p += 4; J::Null }
        _ => { let s = *p; while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) { *p += 1 }
            J::Int(std::str::from_utf8(&b[s..*p]).unwrap().parse().unwrap()) }
    }
}
