//! The code under test, behind one interface, plus the ways it is observed.
use crate::refenc::{pack, unpack};
use crate::schema::*;
use asn1_codecs::aper::{decode, encode, AperCodec, AperCodecData};
use bitvec::prelude::*;

#[derive(Debug, Clone, PartialEq)]
pub enum Enc {
    Ok,
    Err(String),
    /// the Rust type cannot hold the value at all
    Unrep,
}

pub trait Codec {
    fn name(&self) -> &str;
    fn ty(&self) -> &Ty;
    /// the constraint a successfully decoded value is known to satisfy
    fn decoded_ty(&self) -> &Ty {
        self.ty()
    }
    /// what the reference decoder reads: the type, and whether only the preamble of it; `None` when the
    /// codec does not read whole values
    fn reads(&self) -> Option<(&Ty, bool)> {
        Some((self.ty(), false))
    }
    fn encode(&self, v: &Val, d: &mut AperCodecData) -> Enc;
    fn decode(&self, d: &mut AperCodecData) -> Result<Val, String>;
    /// whether its encoder is told that a value is outside the extension root (`Val::Flagged`)
    fn flags(&self) -> bool {
        false
    }
}

/// Conversion between generated Rust types and model values.
pub trait Reflect: Sized {
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Option<Self>;
}

/// The components of a SEQUENCE value, by name; `None` when it has one the Rust type has not.
pub struct Fields<'a>(&'a [(&'static str, Val)]);

impl<'a> Fields<'a> {
    pub fn new(v: &'a Val, names: &[&str]) -> Option<Fields<'a>> {
        match v {
            Val::Seq(f) if f.iter().all(|(n, _)| names.contains(n)) => Some(Fields(f)),
            _ => None,
        }
    }
    pub fn get(&self, n: &str) -> Option<&'a Val> {
        self.0.iter().find(|(m, _)| *m == n).map(|x| &x.1)
    }
}

pub struct Derived<T> {
    pub name: String,
    pub ty: Ty,
    pub p: std::marker::PhantomData<T>,
}

impl<T: AperCodec<Output = T> + Reflect> Codec for Derived<T> {
    fn name(&self) -> &str {
        &self.name
    }
    fn ty(&self) -> &Ty {
        &self.ty
    }
    fn encode(&self, v: &Val, d: &mut AperCodecData) -> Enc {
        match T::from_val(v) {
            None => Enc::Unrep,
            Some(t) => match t.encode(d) {
                Ok(()) => Enc::Ok,
                Err(e) => Enc::Err(e.to_string()),
            },
        }
    }
    fn decode(&self, d: &mut AperCodecData) -> Result<Val, String> {
        T::decode(d).map(|t| crate::mon::uncounted(|| t.to_val())).map_err(|e| e.to_string())
    }
}

// ---- primitives, called directly --------------------------------------------------------------------

pub enum Prim {
    Value(Ty),
    ChoiceIdx { n: i128, ext: bool, ty: Ty },
    Header { n: usize, ext: bool, ty: Ty },
    Len { size: Size, ty: Ty, dty: Ty },
    NsLen { ty: Ty },
}

pub struct PrimCodec {
    pub name: String,
    pub p: Prim,
}

const BITNAMES: usize = 320;

pub fn bit_name(i: usize) -> &'static str {
    use std::sync::OnceLock;
    static N: OnceLock<Vec<&'static str>> = OnceLock::new();
    N.get_or_init(|| (0..BITNAMES).map(|i| leak(format!("b{}", i))).collect())[i]
}

fn sz(s: &Size) -> (Option<i128>, Option<i128>, bool) {
    (s.lb.map(|x| x as i128), s.ub.map(|x| x as i128), s.ext)
}

fn bv(b: &[u8]) -> BitVec<u8, Msb0> {
    b.iter().map(|x| *x != 0).collect()
}

fn e(r: Result<(), asn1_codecs::aper::AperCodecError>) -> Enc {
    match r {
        Ok(()) => Enc::Ok,
        Err(x) => Enc::Err(x.to_string()),
    }
}

impl Codec for PrimCodec {
    fn name(&self) -> &str {
        &self.name
    }
    fn ty(&self) -> &Ty {
        match &self.p {
            Prim::Value(t) => t,
            Prim::ChoiceIdx { ty, .. } | Prim::Header { ty, .. } | Prim::Len { ty, .. } | Prim::NsLen { ty } => ty,
        }
    }
    fn decoded_ty(&self) -> &Ty {
        match &self.p {
            Prim::Len { dty, .. } => dty,
            _ => self.ty(),
        }
    }
    fn flags(&self) -> bool {
        !matches!(&self.p, Prim::Value(Ty::Bool) | Prim::Len { .. } | Prim::NsLen { .. })
    }
    fn reads(&self) -> Option<(&Ty, bool)> {
        match &self.p {
            Prim::Len { .. } | Prim::NsLen { .. } => None,
            Prim::Header { ty, .. } => Some((ty, true)),
            _ => Some((self.ty(), false)),
        }
    }
    fn encode(&self, v: &Val, d: &mut AperCodecData) -> Enc {
        let (v, flag) = match v {
            Val::Flagged(v) => (&**v, true),
            v => (v, false),
        };
        match (&self.p, v) {
            (Prim::Value(Ty::Bool), Val::Bool(b)) => e(encode::encode_bool(d, *b)),
            (Prim::Value(Ty::Int { lb, ub, ext }), Val::Int(i)) => {
                let out = *ext && (lb.map_or(false, |l| *i < l) || ub.map_or(false, |u| *i > u));
                e(encode::encode_integer(d, *lb, *ub, *ext, *i, out || flag))
            }
            (Prim::Value(Ty::Enum { n, ext }), Val::Enum(i)) => {
                e(encode::encode_enumerated(d, Some(0), Some(*n - 1), *ext, *i, flag))
            }
            (Prim::Value(Ty::Bits(s)), Val::Bits(b)) => {
                let (l, u, x) = sz(s);
                e(encode::encode_bitstring(d, l, u, x, &bv(b), flag))
            }
            (Prim::Value(Ty::Octs(s)), Val::Octs(b)) => {
                let (l, u, x) = sz(s);
                e(encode::encode_octetstring(d, l, u, x, b, flag))
            }
            (Prim::Value(Ty::Str(k, s)), Val::Str(t)) => {
                let (l, u, x) = sz(s);
                e(match k {
                    StrKind::Visible => encode::encode_visible_string(d, l, u, x, t, flag),
                    StrKind::Printable => encode::encode_printable_string(d, l, u, x, t, flag),
                    StrKind::Utf8 => encode::encode_utf8_string(d, l, u, x, t, flag),
                })
            }
            (Prim::ChoiceIdx { n, ext, .. }, Val::Enum(i)) => {
                e(encode::encode_choice_idx(d, 0, *n - 1, *ext, *i, flag))
            }
            (Prim::ChoiceIdx { n, ext, .. }, Val::EnumX(i)) => {
                e(encode::encode_choice_idx(d, 0, *n - 1, *ext, *i as i128, true))
            }
            (Prim::Value(Ty::Enum { n, ext }), Val::EnumX(i)) => {
                e(encode::encode_enumerated(d, Some(0), Some(*n - 1), *ext, *i as i128, true))
            }
            (Prim::Header { n, ext, .. }, Val::Seq(vs)) => {
                let mut b = bitvec![u8, Msb0; 0; *n];
                for i in 0..*n {
                    if vs.iter().any(|(m, _)| *m == bit_name(i)) {
                        b.set(i, true)
                    }
                }
                e(encode::encode_sequence_header(d, *ext, &b, flag))
            }
            (Prim::Len { size, .. }, Val::List(l)) => {
                let (a, u, _) = sz(size);
                e(encode::encode_length_determinent(d, a, u, false, l.len()))
            }
            (Prim::NsLen { .. }, Val::Int(i)) => {
                e(encode::encode_length_determinent(d, None, None, true, *i as usize))
            }
            (_, v) => panic!("harness: primitive {} given {}", self.name, short(v)),
        }
    }
    fn decode(&self, d: &mut AperCodecData) -> Result<Val, String> {
        let s = |x: asn1_codecs::aper::AperCodecError| x.to_string();
        Ok(match &self.p {
            Prim::Value(Ty::Bool) => Val::Bool(decode::decode_bool(d).map_err(s)?),
            Prim::Value(Ty::Int { lb, ub, ext }) => {
                let (v, x) = decode::decode_integer(d, *lb, *ub, *ext).map_err(s)?;
                let inroot = lb.map_or(true, |l| v >= l) && ub.map_or(true, |u| v <= u);
                if !x && !inroot {
                    // reported as a root value although it is not one
                    return Ok(Val::Choice("root-value-outside-root", Box::new(Val::Int(v))));
                }
                if x && !*ext {
                    return Ok(Val::Choice("extended-flag-without-extensibility", Box::new(Val::Int(v))));
                }
                Val::Int(v)
            }
            Prim::Value(Ty::Enum { n, ext }) => {
                let (v, x) = decode::decode_enumerated(d, Some(0), Some(*n - 1), *ext).map_err(s)?;
                if x {
                    Val::EnumX(v as u64)
                } else {
                    Val::Enum(v)
                }
            }
            Prim::Value(Ty::Bits(z)) => {
                let (l, u, x) = sz(z);
                let b = decode::decode_bitstring(d, l, u, x).map_err(s)?;
                Val::Bits(b.iter().map(|b| *b as u8).collect())
            }
            Prim::Value(Ty::Octs(z)) => {
                let (l, u, x) = sz(z);
                Val::Octs(decode::decode_octetstring(d, l, u, x).map_err(s)?)
            }
            Prim::Value(Ty::Str(k, z)) => {
                let (l, u, x) = sz(z);
                Val::Str(
                    match k {
                        StrKind::Visible => decode::decode_visible_string(d, l, u, x),
                        StrKind::Printable => decode::decode_printable_string(d, l, u, x),
                        StrKind::Utf8 => decode::decode_utf8_string(d, l, u, x),
                    }
                    .map_err(s)?,
                )
            }
            Prim::ChoiceIdx { n, ext, .. } => {
                let (v, x) = decode::decode_choice_idx(d, 0, *n - 1, *ext).map_err(s)?;
                if x {
                    Val::EnumX(v as u64)
                } else {
                    Val::Enum(v)
                }
            }
            Prim::Header { n, ext, .. } => {
                let (b, x) = decode::decode_sequence_header(d, *ext, *n).map_err(s)?;
                if b.len() != *n {
                    return Ok(Val::Bits(b.iter().map(|b| *b as u8).collect()));
                }
                let vs = (0..*n).filter(|i| b[*i]).map(|i| (bit_name(i), Val::Null)).collect();
                if x {
                    Val::SeqX(vs, vec![])
                } else {
                    Val::Seq(vs)
                }
            }
            Prim::Len { size, .. } => {
                let (a, u, _) = sz(size);
                let n = decode::decode_length_determinent(d, a, u, false).map_err(s)?;
                crate::mon::uncounted(|| Val::List(vec![Val::Null; n]))
            }
            Prim::NsLen { .. } => Val::Int(decode::decode_length_determinent(d, None, None, true).map_err(s)? as i128),
            Prim::Value(t) => panic!("harness: primitive {:?}", t),
        })
    }
}

// ---- observation ---------------------------------------------------------------------------------------

/// A buffer holding exactly these bits (any number of them).
pub fn data_of(bits: &[u8]) -> AperCodecData {
    if bits.len() % 8 == 0 {
        return AperCodecData::from_slice(&pack(bits));
    }
    let mut d = AperCodecData::new();
    for b in bits {
        let _ = encode::encode_bool(&mut d, *b != 0);
    }
    d
}

/// The exact bits in the buffer: appends a 1 as a sentinel, reads the octets, drops the sentinel.
pub fn bits_of(d: &mut AperCodecData) -> Vec<u8> {
    let _ = encode::encode_bool(d, true);
    let mut b = unpack(&d.get_inner().expect("harness: get_inner"));
    while b.last() == Some(&0) {
        b.pop();
    }
    b.pop();
    b
}

/// Reads every remaining bit.
pub fn rest_of(d: &mut AperCodecData, max: usize) -> Vec<u8> {
    let mut out = vec![];
    while out.len() < max {
        match decode::decode_bool(d) {
            Ok(b) => out.push(b as u8),
            Err(_) => break,
        }
    }
    out
}

/// Moves the read position forward by reading bits.
pub fn skip(d: &mut AperCodecData, n: usize) {
    for _ in 0..n {
        let _ = decode::decode_bool(d);
    }
}
