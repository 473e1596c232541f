//! A minimal JSON value and writer (the driver has no dependencies).
pub enum J {
    Null,
    Bool(bool),
    Num(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}
pub fn s<T: Into<String>>(v: T) -> J { J::Str(v.into()) }
pub fn n<T: TryInto<i128>>(v: T) -> J { match v.try_into() { Ok(x) => J::Num(x), Err(_) => J::Null } }
pub fn arr<I: IntoIterator<Item = J>>(v: I) -> J { J::Arr(v.into_iter().collect()) }
impl J {
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(x) => out.push_str(&x.to_string()),
            J::Str(v) => esc(v, out),
            J::Arr(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { out.push(','); } x.write(out); }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    esc(k, out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
}
fn esc(v: &str, out: &mut String) {
    out.push('"');
    for c in v.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}
