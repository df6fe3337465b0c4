//! ALIGNED PER encoder written from ITU-T X.691 alone.  One byte per bit; favours obviousness.
use crate::schema::*;

#[derive(Clone, Default)]
pub struct BitW {
    pub b: Vec<u8>,
    /// bit positions at which a field starts (for targeted mutation)
    pub marks: Vec<usize>,
    /// write values outside their constraint where the field is wide enough
    pub force: bool,
    /// set when `force` met a value the field cannot hold
    pub unfit: bool,
    /// open type fields written so far
    pub opens: usize,
    /// make open type field number .0 longer (or shorter) by .1 octets
    pub lie: Option<(usize, i64)>,
    /// the lie removed octets the content needs
    pub lie_short: bool,
}

impl BitW {
    pub fn new() -> Self {
        Default::default()
    }
    fn outside(&mut self) {
        assert!(self.force, "harness: value outside its constraint");
    }
    pub fn bit(&mut self, x: bool) {
        self.b.push(x as u8)
    }
    pub fn uint(&mut self, v: u128, n: usize) {
        self.marks.push(self.b.len());
        for i in (0..n).rev() {
            self.b.push(if i >= 128 { 0 } else { ((v >> i) & 1) as u8 })
        }
    }
    pub fn align(&mut self) {
        while self.b.len() % 8 != 0 {
            self.b.push(0)
        }
    }
    pub fn octets(&mut self, o: &[u8]) {
        for x in o {
            for i in (0..8).rev() {
                self.b.push((x >> i) & 1)
            }
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        pack(&self.b)
    }
}

pub fn pack(bits: &[u8]) -> Vec<u8> {
    let mut out = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() {
        if *b != 0 {
            out[i / 8] |= 0x80 >> (i % 8)
        }
    }
    out
}

pub fn unpack(bytes: &[u8]) -> Vec<u8> {
    let mut w = BitW::new();
    w.octets(bytes);
    w.b
}

fn octets_for(v: u128) -> usize {
    let mut n = 1;
    while n < 16 && (v >> (8 * n)) != 0 {
        n += 1
    }
    n
}

/// 11.5 constrained whole number, as an offset from the lower bound in a range of `span`+1 values.
pub fn constrained(w: &mut BitW, span: u128, off: u128) {
    if span == 0 {
        if off != 0 {
            w.outside()
        }
        return;
    }
    if off > span {
        w.outside();
        let fits = if span < 255 {
            let mut n = 1;
            while (1u128 << n) <= span {
                n += 1
            }
            off < (1u128 << n)
        } else if span == 255 {
            false
        } else if span <= 65535 {
            off <= 65535
        } else {
            octets_for(off) <= octets_for(span)
        };
        if !fits {
            w.unfit = true;
            return;
        }
    }
    if span < 255 {
        let mut n = 1;
        while (1u128 << n) <= span {
            n += 1
        }
        w.uint(off, n);
    } else if span == 255 {
        w.align();
        w.uint(off, 8);
    } else if span <= 65535 {
        w.align();
        w.uint(off, 16);
    } else {
        let max = octets_for(span);
        let n = octets_for(off);
        constrained(w, (max - 1) as u128, (n - 1) as u128);
        w.align();
        w.uint(off, 8 * n);
    }
}

/// 11.7
pub fn semi(w: &mut BitW, off: u128) {
    let n = octets_for(off);
    w.align();
    w.uint(n as u128, 8);
    w.uint(off, 8 * n);
}

/// 11.8
pub fn unconstrained(w: &mut BitW, v: i128) {
    let mut n = 1;
    while n < 16 {
        let lo = -(1i128 << (8 * n - 1));
        let hi = (1i128 << (8 * n - 1)) - 1;
        if v >= lo && v <= hi {
            break;
        }
        n += 1
    }
    w.align();
    w.uint(n as u128, 8);
    w.uint(v as u128, 8 * n);
}

/// 11.6
pub fn normally_small(w: &mut BitW, v: u64) {
    if v < 64 {
        w.bit(false);
        w.uint(v as u128, 6);
    } else {
        w.bit(true);
        semi(w, v as u128);
    }
}

fn len_short(w: &mut BitW, n: usize) {
    w.align();
    if n < 128 {
        w.uint(n as u128, 8)
    } else {
        assert!(n < 16384);
        w.uint(0x8000 | n as u128, 16)
    }
}

thread_local! {
    /// the sizes of the next fragments, where they are not to be what 11.9.3.8 asks for
    pub static FRAGMENTS: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![]);
}

/// General length (11.9.3.5 ff): calls `emit(w, from, to)` for each fragment.
fn general(w: &mut BitW, n: usize, mut emit: impl FnMut(&mut BitW, usize, usize)) {
    let mut done = 0;
    loop {
        let left = n - done;
        if let Some(k) = FRAGMENTS.with(|f| f.borrow_mut().pop()) {
            let m = (k as usize * 16384).min(left);
            w.align();
            w.uint(0xc0 | k as u128, 8);
            emit(w, done, done + m);
            done += m;
            continue;
        }
        if left < 16384 {
            len_short(w, left);
            emit(w, done, n);
            return;
        }
        let k = (left / 16384).min(4);
        w.align();
        w.uint(0xc0 | k as u128, 8);
        emit(w, done, done + k * 16384);
        done += k * 16384;
    }
}

pub fn general_octets(w: &mut BitW, o: &[u8]) {
    general(w, o.len(), |w, a, z| {
        if z > a {
            w.align();
            w.octets(&o[a..z])
        }
    });
}

enum SzForm {
    Fixed(u64),
    Range(u64, u64),
    General,
}

/// Writes the extension bit if any, says which form the length takes.
fn size_form(w: &mut BitW, s: &Size, n: usize) -> SzForm {
    let n = n as u64;
    let inroot = n >= s.lb.unwrap_or(0) && s.ub.map_or(true, |u| n <= u);
    if s.ext {
        w.bit(!inroot);
    }
    if s.ext && !inroot {
        return SzForm::General;
    }
    match s.ub {
        Some(u) if u < 65536 => {
            let l = s.lb.unwrap_or(0);
            if l == u {
                SzForm::Fixed(u)
            } else {
                SzForm::Range(l, u)
            }
        }
        _ => SzForm::General,
    }
}

impl Schema {
    /// Encodes a (valid, possibly extended) value.
    pub fn encode(&self, ty: &Ty, v: &Val, w: &mut BitW) {
        w.marks.push(w.b.len());
        match (self.resolve(ty), v) {
            (Ty::Bool, Val::Bool(b)) => w.bit(*b),
            (Ty::Null, Val::Null) => {}
            (Ty::Int { lb, ub, ext }, Val::Int(i)) => {
                let inroot = lb.map_or(true, |l| *i >= l) && ub.map_or(true, |u| *i <= u);
                if *ext {
                    w.bit(!inroot)
                }
                if *ext && !inroot {
                    return unconstrained(w, *i);
                }
                match (lb, ub) {
                    (Some(l), Some(u)) => constrained(
                        w,
                        (*u as u128).wrapping_sub(*l as u128),
                        (*i as u128).wrapping_sub(*l as u128),
                    ),
                    (Some(l), None) => semi(w, (*i as u128).wrapping_sub(*l as u128)),
                    _ => unconstrained(w, *i),
                }
            }
            (Ty::NsLen, Val::Int(i)) => {
                if *i <= 64 {
                    w.bit(false);
                    w.uint((*i - 1) as u128, 6)
                } else {
                    w.bit(true);
                    len_short(w, *i as usize)
                }
            }
            (Ty::Enum { n, ext }, Val::Enum(i)) => {
                if *ext {
                    w.bit(false)
                }
                constrained(w, (*n - 1) as u128, *i as u128)
            }
            (Ty::Enum { .. }, Val::EnumX(i)) => {
                w.bit(true);
                normally_small(w, *i)
            }
            (Ty::Bits(s), Val::Bits(b)) => match size_form(w, s, b.len()) {
                SzForm::Fixed(u) => {
                    if u > 16 {
                        w.align()
                    }
                    w.b.extend_from_slice(b)
                }
                SzForm::Range(l, u) => {
                    constrained(w, (u - l) as u128, (b.len() as u64).wrapping_sub(l) as u128);
                    if !b.is_empty() {
                        w.align();
                        w.b.extend_from_slice(b)
                    }
                }
                SzForm::General => general(w, b.len(), |w, a, z| {
                    if z > a {
                        w.align();
                        w.b.extend_from_slice(&b[a..z])
                    }
                }),
            },
            (Ty::Octs(s), Val::Octs(b)) => match size_form(w, s, b.len()) {
                SzForm::Fixed(u) => {
                    if u > 2 {
                        w.align()
                    }
                    w.octets(b)
                }
                SzForm::Range(l, u) => {
                    constrained(w, (u - l) as u128, (b.len() as u64).wrapping_sub(l) as u128);
                    if !b.is_empty() {
                        w.align();
                        w.octets(b)
                    }
                }
                SzForm::General => general_octets(w, b),
            },
            (Ty::Str(StrKind::Utf8, _), Val::Str(t)) => general_octets(w, t.as_bytes()),
            (Ty::Str(_, s), Val::Str(t)) => {
                // 30.5: eight bits per character in the ALIGNED variant
                let b = t.as_bytes();
                match size_form(w, s, b.len()) {
                    SzForm::Fixed(u) => {
                        if u * 8 > 16 {
                            w.align()
                        }
                        w.octets(b)
                    }
                    SzForm::Range(l, u) => {
                        constrained(w, (u - l) as u128, (b.len() as u64).wrapping_sub(l) as u128);
                        if !b.is_empty() {
                            if u * 8 >= 16 {
                                w.align()
                            }
                            w.octets(b)
                        }
                    }
                    SzForm::General => general_octets(w, b),
                }
            }
            (Ty::Seq { ext, fields }, Val::Seq(vs)) => self.seq(w, *ext, fields, vs, &[]),
            (Ty::Seq { ext, fields }, Val::SeqX(vs, adds)) => self.seq(w, *ext, fields, vs, adds),
            (Ty::Choice { ext, alts, .. }, Val::Choice(n, v)) => {
                if *ext {
                    w.bit(false)
                }
                let i = match alts.iter().position(|a| a.name == *n) {
                    Some(i) => i,
                    None => {
                        // a declared addition: no root encoding
                        assert!(w.force, "harness: alternative");
                        w.unfit = true;
                        return;
                    }
                };
                constrained(w, (alts.len() - 1) as u128, i as u128);
                self.encode(&alts[i].ty, v, w)
            }
            (Ty::Choice { .. }, Val::ChoiceX(i, content)) => {
                w.bit(true);
                normally_small(w, *i);
                open(w, content)
            }
            (Ty::SeqOf(s, t), Val::List(l)) => match size_form(w, s, l.len()) {
                SzForm::Fixed(_) => {
                    for x in l {
                        self.encode(t, x, w)
                    }
                }
                SzForm::Range(a, u) => {
                    constrained(w, (u - a) as u128, (l.len() as u64).wrapping_sub(a) as u128);
                    for x in l {
                        self.encode(t, x, w)
                    }
                }
                SzForm::General => general(w, l.len(), |w, a, z| {
                    for x in &l[a..z] {
                        self.encode(t, x, w)
                    }
                }),
            },
            (Ty::Open(alts), Val::Open(k, v)) => {
                let a = alts
                    .iter()
                    .filter(|a| a.key == *k)
                    .find(|a| self.check(&a.ty, v, true).is_ok() || alts.iter().filter(|b| b.key == *k).count() == 1)
                    .expect("harness: open key");
                let me = w.opens;
                w.opens += 1;
                let mut inner = BitW { force: w.force, opens: w.opens, lie: w.lie, ..BitW::new() };
                self.encode(&a.ty, v, &mut inner);
                w.opens = inner.opens;
                w.unfit |= inner.unfit;
                w.lie_short |= inner.lie_short;
                let mut content = inner.bytes();
                match w.lie {
                    Some((k, d)) if k == me => {
                        if content.is_empty() {
                            content.push(0)
                        }
                        if d > 0 {
                            content.extend((0..d).map(|i| if i % 3 == 0 { 0xff } else { 0 }))
                        } else {
                            let keep = content.len().saturating_sub((-d) as usize);
                            content.truncate(keep);
                            w.lie_short |= !inner.b.is_empty();
                        }
                        general_octets(w, &content)
                    }
                    _ => open(w, &content),
                }
            }
            (t, v) => panic!("harness: value {} does not fit {}", short(v), tshort(t)),
        }
    }

    fn seq(
        &self,
        w: &mut BitW,
        ext: bool,
        fields: &[Field],
        vs: &[(&'static str, Val)],
        adds: &[Option<Vec<u8>>],
    ) {
        let any = adds.iter().any(|a| a.is_some());
        if ext {
            w.bit(any)
        }
        let find = |n: &str| vs.iter().find(|(m, _)| *m == n).map(|(_, v)| v);
        for f in fields {
            if f.opt {
                w.bit(find(f.name).is_some())
            }
        }
        for f in fields {
            match find(f.name) {
                Some(v) => self.encode(&f.ty, v, w),
                None => assert!(f.opt, "harness: mandatory component {} missing", f.name),
            }
        }
        if any {
            let n = adds.len();
            if n <= 64 {
                w.bit(false);
                w.uint((n - 1) as u128, 6)
            } else {
                w.bit(true);
                len_short(w, n)
            }
            for a in adds {
                w.bit(a.is_some())
            }
            for a in adds.iter().flatten() {
                open(w, a)
            }
        }
    }
}

/// 11.2: an open type field; content is whole octets, at least one.
pub fn open(w: &mut BitW, content: &[u8]) {
    if content.is_empty() {
        general_octets(w, &[0])
    } else {
        general_octets(w, content)
    }
}
