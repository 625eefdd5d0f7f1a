//! The values exchanged with the specification (the TLA+ values TLC sends and receives).
use std::collections::BTreeMap;
use std::io::{self, Read, Write};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Int(i32),
    Bool(bool),
    Str(String),
    Seq(Vec<Val>),
    Rec(BTreeMap<String, Val>),
}

impl Val {
    pub fn f(x: f64) -> Val {
        let b = x.to_bits();
        Val::Seq(vec![Val::Int((b >> 32) as u32 as i32), Val::Int(b as u32 as i32)])
    }
    pub fn s(x: &str) -> Val {
        Val::Str(x.to_string())
    }
    pub fn n(x: usize) -> Val {
        // TLC integers are 32 bit; counters beyond that cannot be represented
        Val::Int(i32::try_from(x).unwrap_or(-1))
    }
    pub fn fs(xs: &[f64]) -> Val {
        Val::Seq(xs.iter().map(|x| Val::f(*x)).collect())
    }
    pub fn rec(fields: Vec<(&str, Val)>) -> Val {
        Val::Rec(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn get(&self, k: &str) -> &Val {
        match self {
            Val::Rec(m) => m.get(k).unwrap_or_else(|| proto(&format!("no field {k} in {self:?}"))),
            _ => proto(&format!("not a record: {self:?}")),
        }
    }
    pub fn has(&self, k: &str) -> bool {
        matches!(self, Val::Rec(m) if m.contains_key(k))
    }
    pub fn str(&self) -> &str {
        match self {
            Val::Str(s) => s,
            _ => proto(&format!("not a string: {self:?}")),
        }
    }
    pub fn int(&self) -> i32 {
        match self {
            Val::Int(i) => *i,
            _ => proto(&format!("not an integer: {self:?}")),
        }
    }
    pub fn usize(&self) -> usize {
        usize::try_from(self.int()).unwrap_or_else(|_| proto("negative count"))
    }
    pub fn bool(&self) -> bool {
        match self {
            Val::Bool(b) => *b,
            _ => proto(&format!("not a boolean: {self:?}")),
        }
    }
    pub fn seq(&self) -> &[Val] {
        match self {
            Val::Seq(s) => s,
            // an empty TLA+ function is the empty sequence
            Val::Rec(m) if m.is_empty() => &[],
            _ => proto(&format!("not a sequence: {self:?}")),
        }
    }
    pub fn float(&self) -> f64 {
        let s = self.seq();
        if s.len() != 2 {
            proto(&format!("not a float: {self:?}"));
        }
        let hi = s[0].int() as u32 as u64;
        let lo = s[1].int() as u32 as u64;
        f64::from_bits((hi << 32) | lo)
    }

    pub fn encode(&self, out: &mut Vec<u8>) {
        match self {
            Val::Int(i) => {
                out.push(0);
                out.extend(i.to_be_bytes());
            }
            Val::Bool(b) => out.extend([1, u8::from(*b)]),
            Val::Str(s) => {
                out.push(2);
                put_str(s, out);
            }
            Val::Seq(s) => {
                out.push(3);
                out.extend((s.len() as u32).to_be_bytes());
                for v in s {
                    v.encode(out);
                }
            }
            Val::Rec(m) => {
                out.push(4);
                out.extend((m.len() as u32).to_be_bytes());
                for (k, v) in m {
                    put_str(k, out);
                    v.encode(out);
                }
            }
        }
    }
    pub fn decode(b: &[u8], at: &mut usize) -> Val {
        let tag = b[*at];
        *at += 1;
        match tag {
            0 => Val::Int(get_u32(b, at) as i32),
            1 => {
                *at += 1;
                Val::Bool(b[*at - 1] != 0)
            }
            2 => Val::Str(get_str(b, at)),
            3 => {
                let n = get_u32(b, at);
                Val::Seq((0..n).map(|_| Val::decode(b, at)).collect())
            }
            4 => {
                let n = get_u32(b, at);
                Val::Rec((0..n).map(|_| (get_str(b, at), Val::decode(b, at))).collect())
            }
            t => proto(&format!("bad tag {t}")),
        }
    }
}

/// A malformed request is an error of the machinery, not a result of the code under test.
pub fn proto(msg: &str) -> ! {
    eprintln!("PROTOCOL-ERROR {msg}");
    std::process::exit(70)
}
fn put_str(s: &str, out: &mut Vec<u8>) {
    out.extend((s.len() as u32).to_be_bytes());
    out.extend(s.as_bytes());
}
fn get_u32(b: &[u8], at: &mut usize) -> u32 {
    *at += 4;
    u32::from_be_bytes(b[*at - 4..*at].try_into().unwrap())
}
fn get_str(b: &[u8], at: &mut usize) -> String {
    let n = get_u32(b, at) as usize;
    *at += n;
    String::from_utf8(b[*at - n..*at].to_vec()).unwrap()
}

pub fn read_frame(r: &mut impl Read) -> io::Result<Option<Val>> {
    let mut len = [0u8; 4];
    match r.read_exact(&mut len) {
        Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => return Ok(None),
        e => e?,
    }
    let mut buf = vec![0u8; u32::from_be_bytes(len) as usize];
    r.read_exact(&mut buf)?;
    let mut at = 0;
    Ok(Some(Val::decode(&buf, &mut at)))
}
pub fn write_frame(w: &mut impl Write, v: &Val) -> io::Result<()> {
    let mut buf = Vec::with_capacity(256);
    v.encode(&mut buf);
    w.write_all(&(buf.len() as u32).to_be_bytes())?;
    w.write_all(&buf)?;
    w.flush()
}
