//! A small JSON reader and writer (the harness depends on nothing but the code under test).
use std::fmt::Write;

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}

impl V {
    pub fn parse(s: &str) -> Result<V, String> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = value(b, &mut p)?;
        ws(b, &mut p);
        if p != b.len() {
            return Err(format!("trailing text at {}", p));
        }
        Ok(v)
    }
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::Obj(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn at(&self, k: &str) -> &V {
        self.get(k).unwrap_or_else(|| panic!("harness: no field {:?} in {:?}", k, self))
    }
    pub fn has(&self, k: &str) -> bool {
        self.get(k).is_some()
    }
    pub fn int(&self) -> i64 {
        match self {
            V::Int(i) => *i,
            _ => panic!("harness: not a number: {:?}", self),
        }
    }
    pub fn u8(&self) -> u8 {
        self.int() as u8
    }
    pub fn u16(&self) -> u16 {
        self.int() as u16
    }
    pub fn u32(&self) -> u32 {
        match self {
            V::Arr(_) => self.be() as u32,
            _ => self.int() as u32,
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            V::Bool(b) => *b,
            _ => panic!("harness: not a truth value: {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            V::Str(s) => s,
            _ => panic!("harness: not a string: {:?}", self),
        }
    }
    pub fn arr(&self) -> &[V] {
        match self {
            V::Arr(a) => a,
            _ => panic!("harness: not a sequence: {:?}", self),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|v| v.int() as u8).collect()
    }
    /// the number in a big-endian byte sequence
    pub fn be(&self) -> u128 {
        self.arr().iter().fold(0u128, |a, v| (a << 8) | v.int() as u128)
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        self.put(&mut s);
        s
    }
    fn put(&self, s: &mut String) {
        match self {
            V::Null => s.push_str("null"),
            V::Bool(b) => {
                let _ = write!(s, "{}", b);
            }
            V::Int(i) => {
                let _ = write!(s, "{}", i);
            }
            V::Str(t) => quote(t, s),
            V::Arr(a) => {
                s.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    v.put(s);
                }
                s.push(']');
            }
            V::Obj(o) => {
                s.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    quote(k, s);
                    s.push(':');
                    v.put(s);
                }
                s.push('}');
            }
        }
    }
}

pub fn quote(t: &str, s: &mut String) {
    s.push('"');
    for c in t.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\t' => s.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(s, "\\u{:04x}", c as u32);
            }
            c => s.push(c),
        }
    }
    s.push('"');
}

pub fn bytes_json(b: &[u8]) -> V {
    V::Arr(b.iter().map(|x| V::Int(*x as i64)).collect())
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_ascii_whitespace() {
        *p += 1;
    }
}

fn value(b: &[u8], p: &mut usize) -> Result<V, String> {
    ws(b, p);
    if *p >= b.len() {
        return Err("unexpected end".into());
    }
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut o = vec![];
            loop {
                ws(b, p);
                if *p < b.len() && b[*p] == b'}' {
                    *p += 1;
                    return Ok(V::Obj(o));
                }
                let k = match value(b, p)? {
                    V::Str(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, p);
                if b.get(*p) != Some(&b':') {
                    return Err(format!("colon at {}", p));
                }
                *p += 1;
                let v = value(b, p)?;
                o.push((k, v));
                ws(b, p);
                match b.get(*p) {
                    Some(b',') => *p += 1,
                    Some(b'}') => {}
                    _ => return Err(format!("object at {}", p)),
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut a = vec![];
            loop {
                ws(b, p);
                if *p < b.len() && b[*p] == b']' {
                    *p += 1;
                    return Ok(V::Arr(a));
                }
                a.push(value(b, p)?);
                ws(b, p);
                match b.get(*p) {
                    Some(b',') => *p += 1,
                    Some(b']') => {}
                    _ => return Err(format!("array at {}", p)),
                }
            }
        }
        b'"' => {
            *p += 1;
            let mut s = Vec::new();
            loop {
                match b.get(*p) {
                    None => return Err("string".into()),
                    Some(b'"') => {
                        *p += 1;
                        return String::from_utf8(s).map(V::Str).map_err(|e| e.to_string());
                    }
                    Some(b'\\') => {
                        *p += 1;
                        let c = *b.get(*p).ok_or("escape")?;
                        *p += 1;
                        match c {
                            b'n' => s.push(b'\n'),
                            b't' => s.push(b'\t'),
                            b'r' => s.push(b'\r'),
                            b'b' => s.push(8),
                            b'f' => s.push(12),
                            b'u' => {
                                let h = std::str::from_utf8(&b[*p..*p + 4]).map_err(|e| e.to_string())?;
                                *p += 4;
                                let c = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                let c = char::from_u32(c).unwrap_or('?');
                                let mut buf = [0; 4];
                                s.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                            }
                            c => s.push(c),
                        }
                    }
                    Some(c) => {
                        s.push(*c);
                        *p += 1;
                    }
                }
            }
        }
        b't' if b[*p..].starts_with(b"true") => {
            *p += 4;
            Ok(V::Bool(true))
        }
        b'f' if b[*p..].starts_with(b"false") => {
            *p += 5;
            Ok(V::Bool(false))
        }
        b'n' if b[*p..].starts_with(b"null") => {
            *p += 4;
            Ok(V::Null)
        }
        _ => {
            let st = *p;
            if b[*p] == b'-' {
                *p += 1;
            }
            while *p < b.len() && b[*p].is_ascii_digit() {
                *p += 1;
            }
            std::str::from_utf8(&b[st..*p])
                .unwrap()
                .parse()
                .map(V::Int)
                .map_err(|e| format!("number at {}: {}", st, e))
        }
    }
}
