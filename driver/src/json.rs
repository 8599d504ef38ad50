use std::fmt::Write;
#[derive(Clone, Debug)]
pub enum J { Null, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
impl From<bool> for J { fn from(x: bool) -> J { J::B(x) } }
impl From<usize> for J { fn from(x: usize) -> J { J::I(x as i128) } }
impl From<u64> for J { fn from(x: u64) -> J { J::I(x as i128) } }
impl From<u32> for J { fn from(x: u32) -> J { J::I(x as i128) } }
impl From<&str> for J { fn from(x: &str) -> J { J::S(x.to_string()) } }
impl From<String> for J { fn from(x: String) -> J { J::S(x) } }
impl From<Vec<J>> for J { fn from(x: Vec<J>) -> J { J::A(x) } }
impl<T: Into<J>> From<Option<T>> for J { fn from(x: Option<T>) -> J { match x { Some(v) => v.into(), None => J::Null } } }
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } let _ = write!(o, "\"{}\":", k); x.write(o); } o.push('}'); }
        }
    }
}
#[macro_export]
macro_rules! obj { ($($k:ident : $v:expr),* $(,)?) => { $crate::json::J::O(vec![$((stringify!($k), $crate::json::J::from($v))),*]) } }
