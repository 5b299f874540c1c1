//! Values exchanged with another process that runs the same library behind another interface.
use crate::board::B;

#[derive(Clone, Debug)]
pub enum V {
    I(i128),
    F(f64),
    B(bool),
    S(String),
    L(Vec<V>),
    /// a tuple (read back as a list)
    T(Vec<V>),
    N,
    /// an exception: its class, `*` for any
    E(String),
    O(String),
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::I(a), V::I(b)) => a == b,
            (V::F(a), V::F(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            (V::B(a), V::B(b)) => a == b,
            (V::S(a), V::S(b)) => a == b,
            (V::L(a) | V::T(a), V::L(b) | V::T(b)) => a == b,
            (V::N, V::N) => true,
            (V::E(a), V::E(b)) => a == b || a == "*" || b == "*",
            (V::O(a), V::O(b)) => a == b,
            _ => false,
        }
    }
}

fn hex(s: &[u8]) -> String {
    s.iter().map(|b| format!("{b:02x}")).collect()
}
fn unhex(s: &str) -> String {
    let v: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8_lossy(&v).into_owned()
}

impl V {
    pub fn s(x: &str) -> V {
        V::S(x.to_string())
    }
    pub fn write(&self, o: &mut String) {
        use std::fmt::Write;
        match self {
            V::I(x) => write!(o, "{x}").unwrap(),
            V::F(x) => write!(o, "\"f:{:016x}\"", x.to_bits()).unwrap(),
            V::B(x) => write!(o, "{x}").unwrap(),
            V::S(x) => write!(o, "\"s:{}\"", hex(x.as_bytes())).unwrap(),
            V::E(x) => write!(o, "\"e:{x}\"").unwrap(),
            V::O(x) => write!(o, "\"o:{x}\"").unwrap(),
            V::N => o.push_str("null"),
            V::L(v) | V::T(v) => {
                o.push('[');
                let mut first = true;
                if matches!(self, V::T(_)) {
                    o.push_str("\"t:\"");
                    first = false;
                }
                for x in v {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    x.write(o);
                }
                o.push(']');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn parse(s: &str) -> Result<V, String> {
        let b = s.trim().as_bytes();
        let mut at = 0;
        let v = V::read(b, &mut at)?;
        if at == b.len() {
            Ok(v)
        } else {
            Err(format!("rest at {at}"))
        }
    }
    fn read(b: &[u8], at: &mut usize) -> Result<V, String> {
        while *at < b.len() && b[*at].is_ascii_whitespace() {
            *at += 1;
        }
        match b.get(*at) {
            None => Err("ended".into()),
            Some(b'[') => {
                *at += 1;
                let mut v = vec![];
                let mut tuple = false;
                loop {
                    while *at < b.len() && (b[*at].is_ascii_whitespace() || b[*at] == b',') {
                        *at += 1;
                    }
                    match b.get(*at) {
                        None => return Err("ended in a list".into()),
                        Some(b']') => {
                            *at += 1;
                            return Ok(if tuple { V::T(v) } else { V::L(v) });
                        }
                        Some(b'"') if b[*at..].starts_with(b"\"t:\"") => {
                            tuple = true;
                            *at += 4;
                        }
                        _ => v.push(V::read(b, at)?),
                    }
                }
            }
            Some(b'"') => {
                let e = b[*at + 1..].iter().position(|c| *c == b'"').ok_or("no end of text")? + *at + 1;
                let t = std::str::from_utf8(&b[*at + 1..e]).map_err(|e| e.to_string())?.to_string();
                *at = e + 1;
                let (k, r) = t.split_once(':').ok_or("bad text")?;
                Ok(match k {
                    "f" => V::F(f64::from_bits(u64::from_str_radix(r, 16).map_err(|e| e.to_string())?)),
                    "s" => V::S(unhex(r)),
                    "e" => V::E(r.to_string()),
                    "o" => V::O(r.to_string()),
                    _ => return Err(format!("kind {k}")),
                })
            }
            Some(_) => {
                let e = b[*at..].iter().position(|c| b",] \n".contains(c)).map(|k| k + *at).unwrap_or(b.len());
                let t = std::str::from_utf8(&b[*at..e]).map_err(|e| e.to_string())?;
                *at = e;
                Ok(match t {
                    "null" => V::N,
                    "true" => V::B(true),
                    "false" => V::B(false),
                    _ if t.contains(['.', 'e', 'E']) => V::F(t.parse().map_err(|_| format!("number {t}"))?),
                    _ => V::I(t.parse().map_err(|_| format!("number {t}"))?),
                })
            }
        }
    }
    pub fn list(&self) -> &[V] {
        match self {
            V::L(v) | V::T(v) => v,
            _ => &[],
        }
    }
    pub fn str(&self) -> &str {
        match self {
            V::S(s) => s,
            _ => "",
        }
    }
    pub fn int(&self) -> i128 {
        match self {
            V::I(x) => *x,
            _ => panic!("not a whole number: {}", self.text()),
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn num(&self) -> f64 {
        match self {
            V::I(x) => *x as f64,
            V::F(x) => *x,
            _ => f64::NAN,
        }
    }
    pub fn board(&self) -> B {
        self.list().iter().map(|r| r.list().iter().map(|x| x.int() as i32).collect()).collect()
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.list().iter().map(|x| x.int() as u8).collect()
    }
    /// short form for reports
    pub fn brief(&self) -> String {
        let mut t = match self {
            V::F(x) => format!("{x}"),
            V::S(x) => format!("{x:?}"),
            V::L(v) | V::T(v) => format!("[{}]", v.iter().map(|x| x.brief()).collect::<Vec<_>>().join(", ")),
            V::E(x) => format!("exception {x}"),
            _ => self.text(),
        };
        if t.len() > 600 {
            let mut k = 600;
            while !t.is_char_boundary(k) {
                k -= 1;
            }
            t.truncate(k);
            t.push_str("...");
        }
        t
    }
}

pub trait ToV {
    fn v(&self) -> V;
}
macro_rules! ints { ($($t:ty),*) => { $(impl ToV for $t { fn v(&self) -> V { V::I(*self as i128) } })* } }
ints!(u8, u16, u32, i32, i64, usize, u64);
impl ToV for f64 {
    fn v(&self) -> V {
        V::F(*self)
    }
}
impl ToV for bool {
    fn v(&self) -> V {
        V::B(*self)
    }
}
impl ToV for str {
    fn v(&self) -> V {
        V::S(self.to_string())
    }
}
impl ToV for String {
    fn v(&self) -> V {
        V::S(self.clone())
    }
}
impl ToV for V {
    fn v(&self) -> V {
        self.clone()
    }
}
impl ToV for () {
    fn v(&self) -> V {
        V::N
    }
}
impl<T: ToV + ?Sized> ToV for &T {
    fn v(&self) -> V {
        (*self).v()
    }
}
impl<T: ToV> ToV for Vec<T> {
    fn v(&self) -> V {
        V::L(self.iter().map(|x| x.v()).collect())
    }
}
impl<T: ToV> ToV for [T] {
    fn v(&self) -> V {
        V::L(self.iter().map(|x| x.v()).collect())
    }
}
impl<T: ToV, const N: usize> ToV for [T; N] {
    fn v(&self) -> V {
        V::L(self.iter().map(|x| x.v()).collect())
    }
}
macro_rules! tuples { ($(($($n:ident $i:tt),*)),*) => { $(impl<$($n: ToV),*> ToV for ($($n,)*) { fn v(&self) -> V { V::T(vec![$(self.$i.v()),*]) } })* } }
tuples!((A 0, B 1), (A 0, B 1, C 2), (A 0, B 1, C 2, D 3), (A 0, B 1, C 2, D 3, E 4), (A 0, B 1, C 2, D 3, E 4, F 5));
