//! Reads the derived Debug text of a value and compares it with a value of the specification.
//! Used for items whose parts cannot be constructed or read through the public interface.
use crate::json::V;

#[derive(Debug, Clone, PartialEq)]
pub enum D {
    Num(i128),
    Str(Vec<u8>),
    /// name without payload: an enum variant, a unit, true, false
    Name(String),
    Struct(String, Vec<(String, D)>),
    Tuple(String, Vec<D>),
    List(Vec<D>),
}

pub fn parse(s: &str) -> Option<D> {
    let b = s.as_bytes();
    let mut p = 0;
    let d = item(b, &mut p)?;
    ws(b, &mut p);
    if p == b.len() {
        Some(d)
    } else {
        None
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn list(b: &[u8], p: &mut usize, close: u8) -> Option<Vec<D>> {
    let mut out = vec![];
    loop {
        ws(b, p);
        if *b.get(*p)? == close {
            *p += 1;
            return Some(out);
        }
        out.push(item(b, p)?);
        ws(b, p);
        if *b.get(*p)? == b',' {
            *p += 1;
        }
    }
}

fn item(b: &[u8], p: &mut usize) -> Option<D> {
    ws(b, p);
    let c = *b.get(*p)?;
    if c == b'[' {
        *p += 1;
        return list(b, p, b']').map(D::List);
    }
    if c == b'(' {
        *p += 1;
        return list(b, p, b')').map(|l| D::Tuple(String::new(), l));
    }
    if c == b'"' {
        *p += 1;
        let mut s = vec![];
        loop {
            match *b.get(*p)? {
                b'"' => {
                    *p += 1;
                    return Some(D::Str(s));
                }
                b'\\' => {
                    let e = *b.get(*p + 1)?;
                    *p += 2;
                    match e {
                        b'n' => s.push(10),
                        b'r' => s.push(13),
                        b't' => s.push(9),
                        b'0' => s.push(0),
                        b'u' => {
                            let end = *p + b[*p..].iter().position(|x| *x == b'}')?;
                            let h = std::str::from_utf8(&b[*p + 1..end]).ok()?;
                            let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                            let mut buf = [0; 4];
                            s.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                            *p = end + 1;
                        }
                        e => s.push(e),
                    }
                }
                x => {
                    s.push(x);
                    *p += 1;
                }
            }
        }
    }
    if c == b'-' || c.is_ascii_digit() {
        let st = *p;
        *p += 1;
        while *p < b.len() && b[*p].is_ascii_digit() {
            *p += 1;
        }
        let t = std::str::from_utf8(&b[st..*p]).ok()?;
        // numbers beyond i128 do not matter for equality of their low 128 bits
        return Some(D::Num(t.parse::<i128>().or_else(|_| t.parse::<u128>().map(|u| u as i128)).ok()?));
    }
    let st = *p;
    while *p < b.len() && (b[*p].is_ascii_alphanumeric() || b[*p] == b'_') {
        *p += 1;
    }
    if st == *p {
        return None;
    }
    let name = std::str::from_utf8(&b[st..*p]).ok()?.to_string();
    let save = *p;
    ws(b, p);
    match b.get(*p) {
        Some(b'(') => {
            *p += 1;
            list(b, p, b')').map(|l| D::Tuple(name, l))
        }
        Some(b'{') => {
            *p += 1;
            let mut f = vec![];
            loop {
                ws(b, p);
                if *b.get(*p)? == b'}' {
                    *p += 1;
                    return Some(D::Struct(name, f));
                }
                let st = *p;
                while *p < b.len() && (b[*p].is_ascii_alphanumeric() || b[*p] == b'_') {
                    *p += 1;
                }
                let k = std::str::from_utf8(&b[st..*p]).ok()?.to_string();
                ws(b, p);
                if *b.get(*p)? != b':' {
                    return None;
                }
                *p += 1;
                f.push((k, item(b, p)?));
                ws(b, p);
                if *b.get(*p)? == b',' {
                    *p += 1;
                }
            }
        }
        _ => {
            *p = save;
            Some(D::Name(name))
        }
    }
}

fn find<'a>(d: &'a D, key: &str) -> Option<&'a D> {
    match d {
        D::Struct(_, f) => {
            if let Some((_, x)) = f.iter().find(|(k, _)| k == key) {
                return Some(x);
            }
            for (outer, inner) in [("user_", "user"), ("guest_", "guest")] {
                if let Some(rest) = key.strip_prefix(outer) {
                    for (k, x) in f {
                        if k == inner {
                            return find(x, rest);
                        }
                    }
                }
            }
            f.iter().find_map(|(k, x)| {
                // user.executable is not executable
                if (k == "user" || k == "guest") && !key.starts_with(k.as_str()) {
                    return None;
                }
                match x {
                    D::Struct(..) => find(x, key),
                    _ => None,
                }
            })
        }
        D::Tuple(_, l) if l.len() == 1 => find(&l[0], key),
        _ => None,
    }
}

/// Whether the debug tree shows the value of the specification; says where it does not.
pub fn same(v: &V, d: &D, at: &str) -> Result<(), String> {
    let no = || Err(format!("{}: {} is shown as {:?}", at, v.render(), d));
    match v {
        V::Obj(o) => {
            for (k, x) in o {
                // a part that goes by another name is not judged here
                if let Some(y) = find(d, k) {
                    same(x, y, &format!("{}.{}", at, k))?;
                }
            }
            Ok(())
        }
        V::Bool(b) => match d {
            D::Name(n) if n == "true" || n == "false" => {
                if (n == "true") == *b {
                    Ok(())
                } else {
                    no()
                }
            }
            _ => no(),
        },
        V::Int(i) => match d {
            D::Num(n) if *n == *i as i128 => Ok(()),
            D::Tuple(_, l) if l.len() == 1 => same(v, &l[0], at),
            D::Struct(_, f) => match f.iter().find(|(k, _)| k == "value") {
                Some((_, x)) => same(v, x, at),
                None => Ok(()),
            },
            D::Name(_) => Ok(()), // an id shown by its name
            _ => no(),
        },
        V::Str(s) => match d {
            D::Name(n) | D::Struct(n, _) | D::Tuple(n, _) if n == s => Ok(()),
            D::Tuple(_, l) if l.len() == 1 => same(v, &l[0], at),
            _ => no(),
        },
        V::Arr(a) => match d {
            D::Num(n) => {
                let x = v.arr().iter().fold(0u128, |a, v| (a << 8) | v.int() as u128);
                if *n as u128 == x {
                    Ok(())
                } else {
                    no()
                }
            }
            D::Str(s) => {
                if *s == v.bytes() {
                    Ok(())
                } else {
                    no()
                }
            }
            D::List(l) => {
                if l.len() != a.len() {
                    // an absent list is shown as an empty one, a present one is wrapped
                    if a.len() == 1 && matches!(a[0], V::Arr(_)) {
                        return same(&a[0], d, at);
                    }
                    return no();
                }
                if a.len() == 1 && l.len() == 1 && matches!(a[0], V::Arr(_)) && matches!(l[0], D::Num(_)) {
                    return same(&a[0], d, at);
                }
                for (i, (x, y)) in a.iter().zip(l).enumerate() {
                    same(x, y, &format!("{}[{}]", at, i))?;
                }
                Ok(())
            }
            D::Name(n) if n == "None" => {
                if a.is_empty() {
                    Ok(())
                } else {
                    no()
                }
            }
            D::Tuple(n, l) if n == "Some" && l.len() == 1 => {
                if a.len() == 1 {
                    same(&a[0], &l[0], at)
                } else {
                    no()
                }
            }
            D::Name(n) | D::Struct(n, _) | D::Tuple(n, _)
                if a.len() == 2 && matches!(a[0], V::Str(_)) =>
            {
                if n != a[0].str() {
                    return no();
                }
                match d {
                    D::Tuple(_, l) if l.len() == 1 => same(&a[1], &l[0], at),
                    _ => Ok(()),
                }
            }
            D::Tuple(_, l) if l.len() == 1 => same(v, &l[0], at),
            D::Name(_) if a.is_empty() => Ok(()),
            D::Struct(_, f) if f.len() == 1 && matches!(f[0].1, D::List(_)) => same(v, &f[0].1, at),
            D::Struct(..) if a.is_empty() => Ok(()),
            _ => no(),
        },
        V::Null => Ok(()),
    }
}

/// The fields of the outermost struct as text, for comparing parts with the text of built values.
pub fn shows(v: &V, text: &str) -> Result<(), String> {
    match parse(text) {
        Some(d) => same(v, &d, "value"),
        None => Ok(()), // not a derived rendering: nothing to compare with
    }
}
