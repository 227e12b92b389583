pub struct J {
    pub s: String,
}

pub fn esc(out: &mut String, v: &str) {
    out.push('"');
    for c in v.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

/// Minimal JSON builder: a value is already serialised text.
#[derive(Clone)]
pub struct V(pub String);

pub fn st(s: &str) -> V {
    let mut o = String::new();
    esc(&mut o, s);
    V(o)
}
pub fn num<T: std::fmt::Display>(n: T) -> V {
    V(n.to_string())
}
pub fn boolean(b: bool) -> V {
    V(if b { "true".into() } else { "false".into() })
}
pub fn null() -> V {
    V("null".into())
}
pub fn arr<I: IntoIterator<Item = V>>(it: I) -> V {
    let mut o = String::from("[");
    for (i, v) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&v.0);
    }
    o.push(']');
    V(o)
}
pub fn obj<'a, I: IntoIterator<Item = (&'a str, V)>>(it: I) -> V {
    let mut o = String::from("{");
    for (i, (k, v)) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        esc(&mut o, k);
        o.push(':');
        o.push_str(&v.0);
    }
    o.push('}');
    V(o)
}
#[allow(dead_code)]
impl J {
    pub fn new() -> J {
        J { s: String::new() }
    }
}
