//! Minimal JSON reader/writer (numbers as i128 when integral).
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        static N: J = J::Null;
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&N),
            _ => &N,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("harness: expected string, got {:?}", self),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            J::Null => &[],
            _ => panic!("harness: expected array, got {:?}", self),
        }
    }
    pub fn int(&self) -> i128 {
        match self {
            J::Int(i) => *i,
            _ => panic!("harness: expected int, got {:?}", self),
        }
    }
    pub fn opt_int(&self) -> Option<i128> {
        match self {
            J::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn truthy(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
}

pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i);
    v
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
        *i += 1
    }
}

fn val(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return J::Obj(m);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = match val(b, i) {
                    J::Str(s) => s,
                    o => panic!("harness json: key {:?}", o),
                };
                ws(b, i);
                assert_eq!(b[*i], b':');
                *i += 1;
                let v = val(b, i);
                m.insert(k, v);
            }
        }
        b'[' => {
            *i += 1;
            let mut a = vec![];
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    return J::Arr(a);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                a.push(val(b, i));
            }
        }
        b'"' => {
            *i += 1;
            let mut out = vec![];
            loop {
                let c = b[*i];
                *i += 1;
                match c {
                    b'"' => return J::Str(String::from_utf8(out).unwrap()),
                    b'\\' => {
                        let e = b[*i];
                        *i += 1;
                        match e {
                            b'n' => out.push(b'\n'),
                            b't' => out.push(b'\t'),
                            b'r' => out.push(b'\r'),
                            b'b' => out.push(8),
                            b'f' => out.push(12),
                            b'u' => {
                                let h = std::str::from_utf8(&b[*i..*i + 4]).unwrap();
                                *i += 4;
                                let mut cp = u32::from_str_radix(h, 16).unwrap();
                                if (0xd800..0xdc00).contains(&cp) && b[*i] == b'\\' {
                                    let h2 = std::str::from_utf8(&b[*i + 2..*i + 6]).unwrap();
                                    let lo = u32::from_str_radix(h2, 16).unwrap();
                                    *i += 6;
                                    cp = 0x10000 + ((cp - 0xd800) << 10) + (lo - 0xdc00);
                                }
                                let ch = char::from_u32(cp).unwrap_or('?');
                                let mut buf = [0; 4];
                                out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                            }
                            o => out.push(o),
                        }
                    }
                    c => out.push(c),
                }
            }
        }
        b't' => {
            *i += 4;
            J::Bool(true)
        }
        b'f' => {
            *i += 5;
            J::Bool(false)
        }
        b'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let st = *i;
            while *i < b.len() && matches!(b[*i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *i += 1
            }
            let t = std::str::from_utf8(&b[st..*i]).unwrap();
            match t.parse::<i128>() {
                Ok(v) => J::Int(v),
                Err(_) => J::Num(t.parse().unwrap()),
            }
        }
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
