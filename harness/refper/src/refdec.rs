//! ALIGNED PER decoder written from ITU-T X.691 alone.  It reads every form a receiver may meet
//! (padding that is not zero, lengths and integers longer than need be), and says when the
//! standard gives the bits no value.
use crate::schema::*;

#[derive(Debug, Clone, PartialEq)]
pub enum No {
    /// the bits end before the value does
    Short,
    /// no value of the type has this encoding
    Outside(String),
    /// not judged (a form whose reading is left open, or a value this model cannot hold)
    Open(&'static str),
}
type R<T> = Result<T, No>;

fn outside<T>(s: &str) -> R<T> {
    Err(No::Outside(s.to_string()))
}

pub struct BitR<'a> {
    b: &'a [u8],
    pub pos: usize,
    items: usize,
    /// the codec reads the preamble of a SEQUENCE only
    pub preamble_only: bool,
}

impl<'a> BitR<'a> {
    pub fn new(b: &'a [u8], pos: usize) -> Self {
        BitR { b, pos, items: 0, preamble_only: false }
    }
    fn bit(&mut self) -> R<bool> {
        if self.pos >= self.b.len() {
            return Err(No::Short);
        }
        self.pos += 1;
        Ok(self.b[self.pos - 1] != 0)
    }
    fn uint(&mut self, n: usize) -> R<u128> {
        let mut v = 0u128;
        for _ in 0..n {
            if v >> 127 != 0 {
                return Err(No::Open("more than 128 bits"));
            }
            v = v << 1 | self.bit()? as u128
        }
        Ok(v)
    }
    fn align(&mut self) -> R<()> {
        while self.pos % 8 != 0 {
            self.bit()?;
        }
        Ok(())
    }
    fn octets(&mut self, n: usize) -> R<Vec<u8>> {
        if n.saturating_mul(8) > self.b.len() - self.pos {
            return Err(No::Short);
        }
        (0..n).map(|_| Ok(self.uint(8)? as u8)).collect()
    }
    fn bits(&mut self, n: usize) -> R<Vec<u8>> {
        if n > self.b.len() - self.pos {
            return Err(No::Short);
        }
        self.pos += n;
        Ok(self.b[self.pos - n..self.pos].to_vec())
    }
    fn item(&mut self) -> R<()> {
        self.items += 1;
        if self.items > 300_000 {
            return Err(No::Open("a very long list"));
        }
        Ok(())
    }
}

fn octets_for(v: u128) -> usize {
    let mut n = 1;
    while n < 16 && (v >> (8 * n)) != 0 {
        n += 1
    }
    n
}

/// 11.5
fn constrained(r: &mut BitR, span: u128) -> R<u128> {
    let off = if span == 0 {
        0
    } else if span < 255 {
        let mut n = 1;
        while (1u128 << n) <= span {
            n += 1
        }
        r.uint(n)?
    } else if span == 255 {
        r.align()?;
        r.uint(8)?
    } else if span <= 65535 {
        r.align()?;
        r.uint(16)?
    } else {
        let n = constrained(r, (octets_for(span) - 1) as u128)? as usize + 1;
        r.align()?;
        r.uint(8 * n)?
    };
    if off > span {
        return outside(&format!("{} in a range of {} and one values", off, span));
    }
    Ok(off)
}

/// A length of at most 16383, or the number of 16K blocks of a fragment.
enum Len {
    Last(usize),
    Frag(usize),
}

fn length(r: &mut BitR) -> R<Len> {
    r.align()?;
    if !r.bit()? {
        return Ok(Len::Last(r.uint(7)? as usize));
    }
    if !r.bit()? {
        return Ok(Len::Last(r.uint(14)? as usize));
    }
    match r.uint(6)? {
        n @ 1..=4 => Ok(Len::Frag(n as usize)),
        _ => outside("a fragment of no or more than four blocks"),
    }
}

fn whole_length(r: &mut BitR) -> R<usize> {
    match length(r)? {
        Len::Last(n) => Ok(n),
        Len::Frag(_) => Err(No::Open("a number or bitmap in fragments")),
    }
}

fn general(r: &mut BitR, mut take: impl FnMut(&mut BitR, usize) -> R<()>) -> R<()> {
    loop {
        match length(r)? {
            Len::Last(n) => return take(r, n),
            Len::Frag(k) => take(r, k * 16384)?,
        }
    }
}

fn general_octets(r: &mut BitR) -> R<Vec<u8>> {
    let mut o = vec![];
    general(r, |r, n| {
        o.extend(r.octets(n)?);
        Ok(())
    })?;
    Ok(o)
}

/// 11.7: the offset
fn semi(r: &mut BitR) -> R<u128> {
    let n = whole_length(r)?;
    if n == 0 {
        return Err(No::Open("a number of no octets"));
    }
    let o = r.octets(n)?;
    let lead = n.saturating_sub(16);
    if o[..lead].iter().any(|x| *x != 0) {
        return outside("a number of more than 128 bits");
    }
    Ok(o[lead..].iter().fold(0, |a, x| a << 8 | *x as u128))
}

/// 11.8
fn unconstrained(r: &mut BitR) -> R<i128> {
    let n = whole_length(r)?;
    if n == 0 {
        return Err(No::Open("a number of no octets"));
    }
    let o = r.octets(n)?;
    let sign = if o[0] & 0x80 != 0 { 0xff } else { 0u8 };
    let lead = n.saturating_sub(16);
    if o[..lead].iter().any(|x| *x != sign) || (lead > 0 && (o[lead] ^ sign) & 0x80 != 0) {
        return outside("a number of more than 128 bits");
    }
    let start = if sign != 0 { -1i128 } else { 0 };
    Ok(o[lead..].iter().fold(start, |a, x| a << 8 | *x as i128))
}

/// 11.6
fn normally_small(r: &mut BitR) -> R<u128> {
    if r.bit()? {
        semi(r)
    } else {
        r.uint(6)
    }
}

fn add(l: i128, off: u128) -> R<i128> {
    let v = (l as u128).wrapping_add(off) as i128;
    // off is below 2^128: the sum is right exactly if it did not come back to or below l
    if off != 0 && v <= l {
        return outside("a number of more than 128 bits");
    }
    Ok(v)
}

enum Form {
    Fixed(usize),
    Range(u64, u64),
    General,
}

fn size_form(r: &mut BitR, s: &Size) -> R<(Form, bool)> {
    if s.ext && r.bit()? {
        return Ok((Form::General, true));
    }
    Ok((
        match s.ub {
            Some(u) if u < 65536 => {
                let l = s.lb.unwrap_or(0);
                if l == u {
                    Form::Fixed(u as usize)
                } else {
                    Form::Range(l, u)
                }
            }
            _ => Form::General,
        },
        false,
    ))
}

/// `take` reads n items; the flag says whether they are in the first position after a length.
fn sized(r: &mut BitR, s: &Size, align: impl Fn(&Form) -> bool, mut take: impl FnMut(&mut BitR, usize) -> R<()>) -> R<()> {
    let (form, extended) = size_form(r, s)?;
    let mut total = 0u64;
    match &form {
        Form::Fixed(n) => {
            if *n > 0 && align(&form) {
                r.align()?
            }
            take(r, *n)?;
            total = *n as u64
        }
        Form::Range(l, u) => {
            let n = l + constrained(r, (u - l) as u128)? as u64;
            if n > 0 && align(&form) {
                r.align()?
            }
            take(r, n as usize)?;
            total = n
        }
        Form::General => general(r, |r, n| {
            total += n as u64;
            take(r, n)
        })?,
    }
    if !extended && (total < s.lb.unwrap_or(0) || s.ub.map_or(false, |u| total > u)) {
        return outside(&format!("{} items in a SIZE of {:?}", total, s));
    }
    Ok(())
}

impl Schema {
    pub fn decode(&self, ty: &Ty, r: &mut BitR) -> R<Val> {
        self.dec(ty, r, None)
    }
    fn dec(&self, ty: &Ty, r: &mut BitR, key: Option<i128>) -> R<Val> {
        r.item()?;
        Ok(match self.resolve(ty) {
            Ty::Bool => Val::Bool(r.bit()?),
            Ty::Null => Val::Null,
            Ty::Int { lb, ub, ext } => {
                if *ext && r.bit()? {
                    return Ok(Val::Int(unconstrained(r)?));
                }
                Val::Int(match (lb, ub) {
                    (Some(l), Some(u)) => {
                        let off = constrained(r, (*u as u128).wrapping_sub(*l as u128))?;
                        (*l as u128).wrapping_add(off) as i128
                    }
                    (Some(l), None) => add(*l, semi(r)?)?,
                    (None, u) => {
                        let v = unconstrained(r)?;
                        if u.map_or(false, |u| v > u) {
                            return outside("an integer above its bound");
                        }
                        v
                    }
                })
            }
            Ty::Enum { n, ext } => {
                if *ext && r.bit()? {
                    let i = normally_small(r)?;
                    return if i > u64::MAX as u128 { Err(No::Open("a large index")) } else { Ok(Val::EnumX(i as u64)) };
                }
                Val::Enum(constrained(r, (*n - 1) as u128)? as i128)
            }
            Ty::Bits(s) => {
                let mut o = vec![];
                sized(r, s, |f| !matches!(f, Form::Fixed(0..=16)), |r, n| {
                    o.extend(r.bits(n)?);
                    Ok(())
                })?;
                Val::Bits(o)
            }
            Ty::Octs(s) => {
                let mut o = vec![];
                sized(r, s, |f| !matches!(f, Form::Fixed(0..=2)), |r, n| {
                    o.extend(r.octets(n)?);
                    Ok(())
                })?;
                Val::Octs(o)
            }
            Ty::Str(k, s) => {
                let mut o = vec![];
                if *k == StrKind::Utf8 {
                    o = general_octets(r)?
                } else {
                    let few = |f: &Form| match f {
                        Form::Fixed(n) => *n <= 2,
                        Form::Range(_, u) => *u < 2,
                        Form::General => false,
                    };
                    sized(r, s, |f| !few(f), |r, n| {
                        o.extend(r.octets(n)?);
                        Ok(())
                    })?
                }
                let t = match String::from_utf8(o) {
                    Ok(t) => t,
                    Err(_) => return outside("octets that are no characters"),
                };
                let good = match k {
                    StrKind::Utf8 => true,
                    StrKind::Visible => t.chars().all(|c| (' '..='~').contains(&c)),
                    StrKind::Printable => t.chars().all(|c| c.is_ascii_alphanumeric() || " '()+,-./:=?".contains(c)),
                };
                if *k != StrKind::Utf8 && !t.is_ascii() {
                    return outside("octets that are no characters");
                }
                // the codec leaves the alphabet within ASCII to its user
                if !good {
                    return Err(No::Open("a character outside the alphabet"));
                }
                Val::Str(t)
            }
            Ty::Seq { ext, fields } => {
                let more = *ext && r.bit()?;
                let mut present = vec![];
                for f in fields {
                    present.push(!f.opt || r.bit()?)
                }
                let mut vs = vec![];
                let mut key = None;
                for (f, p) in fields.iter().zip(present) {
                    if p {
                        let v = self.dec(&f.ty, r, key)?;
                        if f.key {
                            key = match &v {
                                Val::Int(i) | Val::Enum(i) => Some(*i),
                                _ => None,
                            }
                        }
                        vs.push((f.name, v))
                    }
                }
                if more && r.preamble_only {
                    return Ok(Val::SeqX(vs, vec![]));
                }
                if more {
                    let n = if r.bit()? { whole_length(r)? } else { r.uint(6)? as usize + 1 };
                    if n == 0 {
                        return Err(No::Open("a bitmap of no additions"));
                    }
                    for there in r.bits(n)? {
                        if there != 0 {
                            general_octets(r)?;
                        }
                    }
                }
                Val::Seq(vs)
            }
            Ty::Choice { ext, alts, .. } => {
                if *ext && r.bit()? {
                    return Err(No::Open("an addition of a CHOICE"));
                }
                let a = &alts[constrained(r, (alts.len() - 1) as u128)? as usize];
                Val::Choice(a.name, Box::new(self.dec(&a.ty, r, None)?))
            }
            Ty::SeqOf(s, t) => {
                let mut l = vec![];
                sized(r, s, |_| false, |r, n| {
                    for _ in 0..n {
                        l.push(self.dec(t, r, None)?)
                    }
                    Ok(())
                })?;
                Val::List(l)
            }
            Ty::Open(alts) => {
                let o = general_octets(r)?;
                let key = match key {
                    Some(k) => k,
                    None => return Err(No::Open("an open type without key")),
                };
                let mut a = alts.iter().filter(|a| a.key == key);
                match (a.next(), a.next()) {
                    (None, _) => outside(&format!("the open type of key {}, which is not declared", key))?,
                    (_, Some(_)) => Err(No::Open("a key declared twice"))?,
                    (Some(a), None) => {
                        if o.is_empty() {
                            return Err(No::Open("an open type of no octets"));
                        }
                        let bits = crate::refenc::unpack(&o);
                        let mut inner = BitR { items: r.items, ..BitR::new(&bits, 0) };
                        let v = self.dec(&a.ty, &mut inner, None)?;
                        r.items = inner.items;
                        Val::Open(key, Box::new(v))
                    }
                }
            }
            Ty::NsLen => return Err(No::Open("a bare length")),
            Ty::Unsupported => return Err(No::Open("an unsupported type")),
            Ty::Ref(_) => unreachable!(),
        })
    }
}
