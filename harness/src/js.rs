//! Minimal JSON output.
use std::fmt::Write;

#[derive(Clone, Default)]
pub struct Obj(String);

impl Obj {
    pub fn new() -> Self {
        Obj(String::from("{"))
    }
    fn key(&mut self, k: &str) {
        if self.0.len() > 1 {
            self.0.push(',');
        }
        let _ = write!(self.0, "\"{k}\":");
    }
    pub fn s(mut self, k: &str, v: &str) -> Self {
        self.key(k);
        self.0.push('"');
        for c in v.chars() {
            match c {
                '"' | '\\' => { self.0.push('\\'); self.0.push(c) }
                c if (c as u32) < 32 => self.0.push(' '),
                c => self.0.push(c),
            }
        }
        self.0.push('"');
        self
    }
    pub fn n(mut self, k: &str, v: i64) -> Self {
        self.key(k);
        let _ = write!(self.0, "{v}");
        self
    }
    pub fn b(mut self, k: &str, v: bool) -> Self {
        self.key(k);
        let _ = write!(self.0, "{v}");
        self
    }
    pub fn a(mut self, k: &str, v: &[u8]) -> Self {
        self.key(k);
        bytes(&mut self.0, v);
        self
    }
    pub fn raw(mut self, k: &str, v: &str) -> Self {
        self.key(k);
        self.0.push_str(v);
        self
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}

pub fn bytes(out: &mut String, v: &[u8]) {
    out.push('[');
    for (i, b) in v.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        let _ = write!(out, "{b}");
    }
    out.push(']');
}

pub fn list(items: &[String]) -> String {
    let mut s = String::from("[");
    for (i, x) in items.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(x);
    }
    s.push(']');
    s
}

/// Parsed JSON (of behaviours printed by TLC)
pub enum Val { Num(i64), Bool(bool), Str(String), List(Vec<Val>), Map(Vec<(String, Val)>) }

impl Val {
    pub fn parse(s: &str) -> Val {
        let b = s.as_bytes();
        let mut p = 0;
        value(b, &mut p)
    }
    pub fn get(&self, k: &str) -> &Val {
        let Val::Map(m) = self else { panic!("no object") };
        &m.iter().find(|x| x.0 == k).unwrap_or_else(|| panic!("no field {k}")).1
    }
    pub fn num(&self) -> i64 { if let Val::Num(n) = self { *n } else { panic!("no number") } }
    pub fn flag(&self) -> bool { matches!(self, Val::Bool(true)) }
    pub fn str(&self) -> &str { if let Val::Str(s) = self { s } else { panic!("no string") } }
    pub fn list(&self) -> &[Val] {
        match self {
            Val::List(l) => l,
            // empty sequences may be printed as objects
            Val::Map(m) if m.is_empty() => &[],
            _ => panic!("no list"),
        }
    }
    pub fn bytes(&self) -> Vec<u8> { self.list().iter().map(|v| v.num() as u8).collect() }
}

fn value(b: &[u8], p: &mut usize) -> Val {
    let blank = |p: &mut usize| while b[*p] == b' ' { *p += 1; };
    blank(p);
    match b[*p] {
        b'{' | b'[' => {
            let map = b[*p] == b'{';
            let (mut m, mut l) = (vec![], vec![]);
            *p += 1;
            loop {
                blank(p);
                match b[*p] {
                    b'}' | b']' => { *p += 1; break }
                    b',' => { *p += 1; continue }
                    _ => {}
                }
                if map {
                    let Val::Str(k) = value(b, p) else { panic!("no key") };
                    blank(p);
                    *p += 1; // colon
                    m.push((k, value(b, p)));
                } else { l.push(value(b, p)) }
            }
            if map { Val::Map(m) } else { Val::List(l) }
        }
        b'"' => {
            let e = *p + 1 + b[*p + 1..].iter().position(|&c| c == b'"').unwrap();
            let s = std::str::from_utf8(&b[*p + 1..e]).unwrap().to_string();
            *p = e + 1;
            Val::Str(s)
        }
        b't' => { *p += 4; Val::Bool(true) }
        b'f' => { *p += 5; Val::Bool(false) }
        _ => {
            let s = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) { *p += 1; }
            Val::Num(std::str::from_utf8(&b[s..*p]).unwrap().parse().unwrap())
        }
    }
}
