//! A minimal JSON reader and writer for the driver's own stimuli and results
//! (independent of the code under test).
#[derive(Debug, Clone, PartialEq)]
pub enum J { Null, B(bool), I(i64), S(String), A(Vec<J>), O(Vec<(String, J)>) }

impl J {
    pub fn get(&self, k: &str) -> &J {
        static N: J = J::Null;
        match self { J::O(v) => v.iter().find(|(n, _)| n == k).map(|x| &x.1).unwrap_or(&N), _ => &N }
    }
    pub fn int(&self) -> i64 { match self { J::I(n) => *n, J::B(b) => *b as i64, _ => 0 } }
    pub fn str(&self) -> &str { match self { J::S(s) => s, _ => "" } }
    pub fn arr(&self) -> &[J] { match self { J::A(v) => v, _ => &[] } }
    pub fn bytes(&self) -> Vec<u8> { self.arr().iter().map(|x| x.int() as u8).collect() }
}
pub fn parse(s: &[u8]) -> J { let mut p = 0; val(s, &mut p) }
fn ws(s: &[u8], p: &mut usize) { while *p < s.len() && s[*p] <= 32 { *p += 1 } }
fn val(s: &[u8], p: &mut usize) -> J {
    ws(s, p);
    match s[*p] {
        b'{' => { *p += 1; let mut v = vec![];
            loop { ws(s, p);
                if s[*p] == b'}' { *p += 1; return J::O(v) }
                if s[*p] == b',' { *p += 1; continue }
                let k = match val(s, p) { J::S(k) => k, _ => panic!("key") };
                ws(s, p); assert_eq!(s[*p], b':'); *p += 1;
                let x = val(s, p); v.push((k, x));
            } }
        b'[' => { *p += 1; let mut v = vec![];
            loop { ws(s, p);
                if s[*p] == b']' { *p += 1; return J::A(v) }
                if s[*p] == b',' { *p += 1; continue }
                v.push(val(s, p));
            } }
        b'"' => { *p += 1; let a = *p; while s[*p] != b'"' { *p += 1 }
            let r = String::from_utf8(s[a..*p].to_vec()).unwrap(); *p += 1; J::S(r) }
        b't' => { *p += 4; J::B(true) }
        b'f' => { *p += 5; J::B(false) }
        b'n' => { *p += 4; J::Null }
        _ => { let a = *p; while *p < s.len() && (s[*p] == b'-' || s[*p].is_ascii_digit()) { *p += 1 }
            J::I(core::str::from_utf8(&s[a..*p]).unwrap().parse().unwrap()) }
    }
}
pub fn bytes(b: &[u8]) -> J { J::A(b.iter().map(|&x| J::I(x as i64)).collect()) }
pub fn s(x: &str) -> J { J::S(x.to_string()) }
pub fn obj(v: Vec<(&str, J)>) -> J { J::O(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect()) }
pub fn write(j: &J, o: &mut String) {
    use std::fmt::Write;
    match j {
        J::Null => o.push_str("null"),
        J::B(b) => o.push_str(if *b { "1" } else { "0" }),
        J::I(n) => { let _ = write!(o, "{}", n); }
        J::S(t) => { o.push('"'); o.push_str(t); o.push('"'); }
        J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } write_(x, o) } o.push(']') }
        J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') }
            o.push('"'); o.push_str(k); o.push_str("\":"); write_(x, o) } o.push('}') }
    }
}
fn write_(j: &J, o: &mut String) { write(j, o) }
