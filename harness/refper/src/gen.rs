//! Boundary-biased generation of values: valid, invalid, extended.
use crate::refenc::*;
use crate::rng::Rng;
use crate::schema::*;

#[derive(Clone, Debug)]
pub struct Lim {
    /// remaining leaves that may be generated before everything becomes minimal
    pub budget: i64,
    pub depth: usize,
    /// longest string/list generated
    pub maxlen: u64,
    /// allow lengths of 16384 and more, and values outside extensible roots
    pub ext: bool,
}

impl Lim {
    pub fn small() -> Lim {
        Lim { budget: 400, depth: 60, maxlen: 300, ext: false }
    }
}

/// The Rust types hold 64 bits where an INTEGER has no bound, as those of the compiler do.
pub static BITS64: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn int_interesting(r: &mut Rng, lb: Option<i128>, ub: Option<i128>) -> i128 {
    let clip = |v: i128| -> i128 {
        let mut v = v;
        if let Some(l) = lb {
            if v < l {
                v = l
            }
        }
        if let Some(u) = ub {
            if v > u {
                v = u
            }
        }
        v
    };
    match (lb, ub) {
        (Some(l), Some(u)) => match r.below(10) {
            0 => l,
            1 => u,
            2 => clip(l.saturating_add(1)),
            3 => clip(u.saturating_sub(1)),
            4 | 5 => {
                let k = r.below(17) * 8;
                let p = if k >= 127 { i128::MAX } else { 1i128 << k };
                clip(l.saturating_add(p).saturating_add(r.range(-2, 1) as i128))
            }
            6 => {
                let k = r.below(127);
                clip(l.saturating_add(1i128 << k).saturating_sub(r.below(2) as i128))
            }
            7 => clip(r.range(-2, 2) as i128),
            _ => r.i128_in(l, u),
        },
        (Some(l), None) => {
            let k = r.below(15) * 8 + if r.bool() { 0 } else { r.below(8) };
            let p = 1i128 << k.min(120);
            match r.below(4) {
                0 => l,
                1 => l.saturating_add(r.below(300) as i128),
                2 => l.saturating_add(p - 1),
                _ => l.saturating_add(p),
            }
        }
        _ => {
            let k = if r.bool() { r.below(16) * 8 } else { r.below(120) };
            let p = 1i128 << k.min(119);
            let h = p >> 1;
            let v = match r.below(8) {
                0 => r.range(-130, 130) as i128,
                1 => p,
                2 => p - 1,
                3 => -p,
                4 => -p - 1,
                5 => h - 1,
                6 => -h - 1,
                _ => -h,
            };
            clip(v)
        }
    }
}

fn length(r: &mut Rng, s: &Size, lim: &mut Lim, unit: u64) -> u64 {
    let lb = s.lb.unwrap_or(0);
    let cap = lim.maxlen.max(lb);
    let ub = s.ub.unwrap_or(u64::MAX).min(cap);
    if lim.budget <= 0 {
        return lb;
    }
    let pts: [u64; 16] = [0, 1, 2, 3, 4, 8, 15, 16, 17, 31, 63, 64, 127, 128, 255, 256];
    let n = match r.below(8) {
        0 => lb,
        1 => ub.min(lb.saturating_add(lim.budget.max(0) as u64 * 8 / unit.max(1))),
        2 => lb + 1,
        3 => ub.saturating_sub(1),
        4 | 5 => *r.pick(&pts) + r.below(2),
        _ => lb + r.below(20),
    };
    n.clamp(lb, ub.max(lb))
}

pub fn text(r: &mut Rng, k: StrKind, n: u64) -> String {
    const PRINTABLE: &[u8] =
        b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?";
    (0..n)
        .map(|_| match k {
            StrKind::Printable => *r.pick(PRINTABLE) as char,
            StrKind::Visible => (32 + r.below(95) as u8) as char,
            StrKind::Utf8 => match r.below(8) {
                0 => 'é',
                1 => '\u{0}',
                2 => '中',
                3 => '😀',
                4 => '\u{7f}',
                _ => (32 + r.below(95) as u8) as char,
            },
        })
        .collect()
}

impl Schema {
    /// A value within the constraint (and, with `lim.ext`, sometimes outside an extensible root).
    pub fn gen(&self, r: &mut Rng, ty: &Ty, lim: &mut Lim) -> Option<Val> {
        lim.budget -= 1;
        if lim.depth == 0 {
            return None;
        }
        lim.depth -= 1;
        let v = self.gen1(r, ty, lim);
        lim.depth += 1;
        v
    }

    fn out_size(&self, r: &mut Rng, s: &Size, lim: &Lim) -> Option<u64> {
        if !(lim.ext && s.ext && r.chance(1, 4)) {
            return None;
        }
        let mut c = vec![];
        if let Some(u) = s.ub {
            if u < lim.maxlen {
                c.push(u + 1);
                c.push(u + 1 + r.below(200));
            }
        }
        if s.lb.unwrap_or(0) > 0 {
            c.push(r.below(s.lb.unwrap()));
        }
        if c.is_empty() {
            None
        } else {
            Some(*r.pick(&c))
        }
    }

    fn gen1(&self, r: &mut Rng, ty: &Ty, lim: &mut Lim) -> Option<Val> {
        Some(match self.resolve(ty) {
            Ty::Bool => Val::Bool(r.bool()),
            Ty::Null => Val::Null,
            Ty::Int { lb, ub, ext } => {
                if lim.ext && *ext && r.chance(1, 4) {
                    let v = int_interesting(r, None, None);
                    return Some(Val::Int(v));
                }
                let (mut lb, mut ub) = (*lb, *ub);
                if BITS64.load(std::sync::atomic::Ordering::Relaxed) {
                    lb = lb.or(Some(i64::MIN as i128));
                    ub = ub.or(Some(if lb >= Some(0) { u64::MAX as i128 } else { i64::MAX as i128 }));
                }
                Val::Int(int_interesting(r, lb, ub))
            }
            Ty::Enum { n, .. } => Val::Enum(int_interesting(r, Some(0), Some(*n - 1))),
            Ty::Bits(s) => {
                let n = match self.out_size(r, s, lim) {
                    Some(n) => n,
                    None => length(r, s, lim, 1),
                };
                Val::Bits((0..n).map(|_| (r.next() & 1) as u8).collect())
            }
            Ty::Octs(s) => {
                let n = match self.out_size(r, s, lim) {
                    Some(n) => n,
                    None => length(r, s, lim, 1),
                };
                Val::Octs((0..n).map(|_| r.next() as u8).collect())
            }
            Ty::Str(k, s) => {
                let n = match self.out_size(r, s, lim) {
                    Some(n) => n,
                    None => length(r, s, lim, 1),
                };
                Val::Str(text(r, *k, n))
            }
            Ty::Seq { fields, .. } => {
                let mut out = vec![];
                let mut key = None;
                // dense, sparse or mixed presence
                let mode = r.below(4);
                // choose each key so that the open types up to the next key can be produced
                let mut chosens = vec![];
                for (n, f) in fields.iter().enumerate() {
                    if !f.key {
                        chosens.push(None);
                        continue;
                    }
                    let mine: Vec<&Field> = fields[n + 1..].iter().take_while(|f| !f.key).collect();
                    let first = mine.iter().find_map(|f| match self.resolve(&f.ty) {
                        Ty::Open(a) => Some(a),
                        _ => None,
                    });
                    let first = match first {
                        Some(a) => a,
                        None => {
                            chosens.push(None);
                            continue;
                        }
                    };
                    let cands: Vec<i128> = first
                        .iter()
                        .filter(|a| self.supported(&a.ty))
                        .map(|a| a.key)
                        .filter(|k| {
                            mine.iter().all(|f| match self.resolve(&f.ty) {
                                Ty::Open(a) => f.opt || a.iter().any(|x| x.key == *k && self.supported(&x.ty)),
                                _ => true,
                            })
                        })
                        .collect();
                    if cands.is_empty() {
                        return None;
                    }
                    chosens.push(Some(*r.pick(&cands)));
                }
                for (f, chosen) in fields.iter().zip(chosens) {
                    let present = !f.opt
                        || (lim.budget > 0
                            && self.supported(&f.ty)
                            && match mode {
                                0 => true,
                                1 => r.chance(1, 6),
                                _ => r.bool(),
                            });
                    if !present {
                        continue;
                    }
                    let v = if f.key && chosen.is_some() {
                        key = chosen;
                        match self.resolve(&f.ty) {
                            Ty::Enum { .. } => Val::Enum(chosen.unwrap()),
                            _ => Val::Int(chosen.unwrap()),
                        }
                    } else if let Ty::Open(alts) = self.resolve(&f.ty) {
                        let k = key?;
                        let same: Vec<&OpenAlt> = alts.iter().filter(|a| a.key == k).collect();
                        if same.is_empty() {
                            if f.opt {
                                continue;
                            }
                            return None;
                        }
                        let v = self.gen(r, &same[0].ty, lim);
                        match v {
                            Some(v) => Val::Open(k, Box::new(v)),
                            None => return None,
                        }
                    } else {
                        match self.gen(r, &f.ty, lim) {
                            Some(v) => v,
                            None if f.opt => continue,
                            None => return None,
                        }
                    };
                    out.push((f.name, v));
                }
                Val::Seq(out)
            }
            Ty::Choice { alts, .. } => {
                let c: Vec<&Alt> = alts.iter().filter(|a| self.supported(&a.ty)).collect();
                if c.is_empty() {
                    return None;
                }
                // when the budget is gone prefer an alternative without constructed content
                let simple: Vec<&&Alt> = c
                    .iter()
                    .filter(|a| !matches!(self.resolve(&a.ty), Ty::Seq { .. } | Ty::Choice { .. } | Ty::SeqOf(..)))
                    .collect();
                let a: &Alt = if lim.budget <= 0 && !simple.is_empty() {
                    *r.pick::<&&Alt>(&simple)
                } else {
                    *r.pick::<&Alt>(&c)
                };
                let v = self.gen(r, &a.ty, lim)?;
                Val::Choice(a.name, Box::new(v))
            }
            Ty::SeqOf(s, t) => {
                let n = match self.out_size(r, s, lim) {
                    Some(n) => n,
                    None => {
                        let n = length(r, s, lim, 4);
                        // elements cost: keep lists of large things short
                        let cap = (lim.budget.max(0) as u64 / 2).max(s.lb.unwrap_or(0));
                        n.min(cap.max(1)).max(s.lb.unwrap_or(0)).min(s.ub.unwrap_or(u64::MAX))
                    }
                };
                if n > 0 && !self.supported(t) {
                    if s.lb.unwrap_or(0) == 0 {
                        return Some(Val::List(vec![]));
                    }
                    return None;
                }
                let mut l = vec![];
                for _ in 0..n {
                    if lim.budget <= 0 && l.len() as u64 >= s.lb.unwrap_or(0) && !lim.ext {
                        break;
                    }
                    l.push(self.gen(r, t, lim)?);
                }
                Val::List(l)
            }
            Ty::NsLen => Val::Int(match r.below(4) {
                0 => 1 + r.below(70) as i128,
                1 => *r.pick(&[1i128, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 16383]),
                2 => 1 + r.below(16383) as i128,
                _ => 1 + r.below(300) as i128,
            }),
            Ty::Open(_) => return None,
            Ty::Unsupported => return None,
            Ty::Ref(_) => unreachable!(),
        })
    }

    /// Can this value be encoded by an encoder that documents "no extended values, nothing of 16384 or more"?
    pub fn within_documented_limits(&self, ty: &Ty, v: &Val) -> bool {
        let szroot = |s: &Size, n: usize| {
            let n = n as u64;
            n >= s.lb.unwrap_or(0) && s.ub.map_or(true, |u| n <= u)
        };
        match (self.resolve(ty), v) {
            (Ty::Int { lb, ub, .. }, Val::Int(i)) => {
                lb.map_or(true, |l| *i >= l) && ub.map_or(true, |u| *i <= u)
            }
            (Ty::NsLen, Val::Int(i)) => *i < 16384,
            (Ty::Bits(s), Val::Bits(b)) => b.len() < 16384 && szroot(s, b.len()),
            (Ty::Octs(s), Val::Octs(b)) => b.len() < 16384 && szroot(s, b.len()),
            (Ty::Str(StrKind::Utf8, _), Val::Str(b)) => b.len() < 16384,
            (Ty::Str(_, s), Val::Str(b)) => b.len() < 16384 && szroot(s, b.len()),
            (Ty::Seq { fields, .. }, Val::Seq(vs)) => fields.iter().all(|f| {
                vs.iter()
                    .find(|(n, _)| *n == f.name)
                    .map_or(true, |(_, w)| self.within_documented_limits(&f.ty, w))
            }),
            (Ty::Choice { alts, .. }, Val::Choice(n, w)) => alts
                .iter()
                .find(|a| a.name == *n)
                .map_or(false, |a| self.within_documented_limits(&a.ty, w)),
            (Ty::SeqOf(s, t), Val::List(l)) => {
                l.len() < 16384 && szroot(s, l.len()) && l.iter().all(|w| self.within_documented_limits(t, w))
            }
            (Ty::Open(alts), Val::Open(k, w)) => {
                let ok = alts
                    .iter()
                    .filter(|a| a.key == *k)
                    .any(|a| self.check(&a.ty, w, true).is_ok() && self.within_documented_limits(&a.ty, w));
                if !ok {
                    return false;
                }
                let mut b = BitW::new();
                self.encode(ty, v, &mut b);
                b.b.len() < 16384 * 8
            }
            (_, Val::SeqX(..)) | (_, Val::ChoiceX(..)) | (_, Val::EnumX(..)) => false,
            _ => true,
        }
    }

    /// Number of places in `v` where `spoil`/`extend` could act.
    fn walk<'a>(&'a self, ty: &'a Ty, v: &'a Val, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, &'a Ty, &'a Val)>) {
        out.push((path.clone(), self.resolve(ty), v));
        match (self.resolve(ty), v) {
            (Ty::Seq { fields, .. }, Val::Seq(vs)) => {
                for (i, (n, w)) in vs.iter().enumerate() {
                    if let Some(f) = fields.iter().find(|f| f.name == *n) {
                        if f.key {
                            continue;
                        }
                        path.push(i);
                        self.walk(&f.ty, w, path, out);
                        path.pop();
                    }
                }
            }
            (Ty::Choice { alts, .. }, Val::Choice(n, w)) => {
                if let Some(a) = alts.iter().find(|a| a.name == *n) {
                    path.push(0);
                    self.walk(&a.ty, w, path, out);
                    path.pop();
                }
            }
            (Ty::SeqOf(_, t), Val::List(l)) => {
                for (i, w) in l.iter().enumerate() {
                    path.push(i);
                    self.walk(t, w, path, out);
                    path.pop();
                }
            }
            (Ty::Open(alts), Val::Open(k, w)) => {
                if let Some(a) = alts.iter().find(|a| a.key == *k) {
                    path.push(0);
                    self.walk(&a.ty, w, path, out);
                    path.pop();
                }
            }
            _ => {}
        }
    }

    pub fn nodes<'a>(&'a self, ty: &'a Ty, v: &'a Val) -> Vec<(Vec<usize>, &'a Ty, &'a Val)> {
        let mut out = vec![];
        self.walk(ty, v, &mut vec![], &mut out);
        out
    }

    /// One wrong replacement for a node, if its type has any.
    fn wrong(&self, r: &mut Rng, ty: &Ty, v: &Val) -> Option<Val> {
        let bad_len = |r: &mut Rng, s: &Size| -> Option<u64> {
            let mut c = vec![];
            if let Some(u) = s.ub {
                if u < 20000 {
                    c.push(u + 1);
                    c.push(u + 2 + r.below(40));
                    // lengths that wrap onto valid ones
                    c.push(u + 256);
                }
            }
            let l = s.lb.unwrap_or(0);
            if l > 0 {
                c.push(l - 1);
                c.push(r.below(l));
                c.push(0);
            }
            if c.is_empty() {
                None
            } else {
                Some(*r.pick(&c))
            }
        };
        Some(match (ty, v) {
            (Ty::Int { lb, ub, .. }, Val::Int(_)) => {
                let mut c: Vec<i128> = vec![];
                if let Some(l) = lb {
                    c.extend([l.checked_sub(1)?, l.checked_sub(256)?, l.checked_sub(1 << r.below(64))?]);
                }
                if let Some(u) = ub {
                    c.extend([u.checked_add(1)?, u.checked_add(2)?, u.checked_add(256)?]);
                    c.push(u.checked_add(1 << r.below(64))?);
                    if let Some(l) = lb {
                        // one full range further: wraps onto a valid offset
                        let span = u.checked_sub(*l)?.checked_add(1)?;
                        c.push(l.checked_add(span)?);
                        let mut p = 1i128;
                        while p < span {
                            p <<= 1
                        }
                        c.push(l.checked_add(p)?.max(u + 1));
                    }
                }
                if c.is_empty() {
                    return None;
                }
                Val::Int(*r.pick(&c))
            }
            (Ty::Enum { n, .. }, Val::Enum(_)) => {
                Val::Enum(*r.pick(&[*n, *n + 1, 255, 200, *n + 63, -1, 127].iter().copied().filter(|x| *x < 0 || x >= n).collect::<Vec<_>>()))
            }
            (Ty::Bits(s), Val::Bits(_)) => {
                let n = bad_len(r, s)?;
                Val::Bits((0..n).map(|_| (r.next() & 1) as u8).collect())
            }
            (Ty::Choice { xalts, .. }, Val::Choice(..)) if !xalts.is_empty() => {
                let a = r.pick(xalts);
                let mut l = Lim::small();
                Val::Choice(a.name, Box::new(self.gen(r, &a.ty, &mut l)?))
            }
            (Ty::Octs(s), Val::Octs(_)) => {
                let n = bad_len(r, s)?;
                Val::Octs((0..n).map(|_| r.next() as u8).collect())
            }
            (Ty::Str(k, s), Val::Str(_)) => {
                if matches!(k, StrKind::Utf8) && s.ext {
                    // SIZE of a UTF8String is not PER-visible; an extensible one permits any length
                    return None;
                }
                if let (false, Val::Str(t), true) = (matches!(k, StrKind::Utf8), v, r.chance(1, 3)) {
                    // a character neither alphabet has, with the number of characters or of octets kept
                    let mut t: Vec<char> = t.chars().collect();
                    if t.is_empty() {
                        return None;
                    }
                    let i = r.below(t.len() as u64) as usize;
                    let (c, extra) = *r.pick(&[('é', 1), ('\u{80}', 1), ('ÿ', 1), ('中', 2), ('😀', 3), ('\u{131}', 1)]);
                    t[i] = c;
                    if r.bool() {
                        if t.len() <= extra {
                            return None;
                        }
                        for _ in 0..extra {
                            let j = t.iter().rposition(|x| *x != c)?;
                            t.remove(j);
                        }
                    }
                    return Some(Val::Str(t.into_iter().collect()));
                }
                let n = bad_len(r, s)?;
                Val::Str(text(r, *k, n))
            }
            (Ty::SeqOf(s, t), Val::List(l)) => {
                let n = bad_len(r, s)? as usize;
                let mut l2 = l.clone();
                l2.truncate(n);
                while l2.len() < n {
                    let mut lim = Lim { budget: 3, depth: 20, maxlen: 4, ext: false };
                    if l2.len() > 40 {
                        let x = l2[0].clone();
                        l2.push(x);
                    } else {
                        l2.push(self.gen(r, t, &mut lim)?);
                    }
                }
                Val::List(l2)
            }
            _ => return None,
        })
    }

    /// A value with exactly one node outside its constraint; also says which.
    pub fn spoil(&self, r: &mut Rng, ty: &Ty, v: &Val) -> Option<(Val, String)> {
        let nodes = self.nodes(ty, v);
        for _ in 0..12 {
            let (path, t, w) = r.pick(&nodes);
            if let Some(bad) = self.wrong(r, t, w) {
                let mut nv = v.clone();
                put(&mut nv, path, bad.clone());
                return Some((nv, format!("{} in place of {} ({})", short(&bad), short(w), tshort(t))));
            }
        }
        None
    }

    fn newer(&self, r: &mut Rng, ty: &Ty, v: &Val) -> Option<Val> {
        let blob = |r: &mut Rng, big: bool| -> Vec<u8> {
            let n = match r.below(6) {
                0 => 0,
                1 => 1,
                2 if big => *r.pick(&[127u64, 128, 200, 16383, 16384, 16390, 40000]),
                _ => r.below(12),
            };
            (0..n).map(|_| if r.chance(1, 3) { 0xff } else { r.next() as u8 }).collect()
        };
        Some(match (ty, v) {
            (Ty::Seq { ext: true, .. }, Val::Seq(vs)) => {
                let n = match r.below(5) {
                    0 => *r.pick(&[63u64, 64, 65, 66, 72, 120, 128, 130, 256]),
                    _ => 1 + r.below(7),
                };
                let mut a: Vec<Option<Vec<u8>>> = (0..n)
                    .map(|_| if r.bool() { Some(blob(r, n < 10)) } else { None })
                    .collect();
                if a.iter().all(|x| x.is_none()) {
                    let i = r.below(n) as usize;
                    a[i] = Some(blob(r, true));
                }
                Val::SeqX(vs.clone(), a)
            }
            (Ty::Choice { ext: true, .. }, Val::Choice(..)) => {
                let i = match r.below(4) {
                    0 => *r.pick(&[63u64, 64, 300]),
                    _ => r.below(4),
                };
                Val::ChoiceX(i, blob(r, true))
            }
            (Ty::Enum { ext: true, n }, Val::Enum(_)) => {
                let i = match r.below(4) {
                    0 => *r.pick(&[63u64, 64, 255, 256, 300]),
                    1 => (*n as u64).saturating_sub(1).min(100),
                    _ => r.below(4),
                };
                Val::EnumX(i)
            }
            (Ty::Int { ext: true, lb, ub }, Val::Int(_)) => {
                for _ in 0..10 {
                    let i = int_interesting(r, None, None);
                    if lb.map_or(false, |l| i < l) || ub.map_or(false, |u| i > u) {
                        return Some(Val::Int(i));
                    }
                }
                return None;
            }
            (Ty::Bits(s), Val::Bits(_)) | (Ty::Octs(s), Val::Octs(_)) | (Ty::Str(StrKind::Visible, s), Val::Str(_)) | (Ty::Str(StrKind::Printable, s), Val::Str(_)) | (Ty::SeqOf(s, _), Val::List(_)) if s.ext => {
                let mut s2 = s.clone();
                s2.ext = false;
                let t2 = match ty {
                    Ty::Bits(_) => Ty::Bits(s2),
                    Ty::Octs(_) => Ty::Octs(s2),
                    Ty::Str(k, _) => Ty::Str(*k, s2),
                    Ty::SeqOf(_, t) => Ty::SeqOf(s2, t.clone()),
                    _ => unreachable!(),
                };
                return self.wrong(r, &t2, v);
            }
            _ => return None,
        })
    }

    /// The value as a newer peer might send it: up to `max` nodes use an extension.
    pub fn extend(&self, r: &mut Rng, ty: &Ty, v: &Val, max: usize) -> Option<(Val, String)> {
        let mut nv = v.clone();
        let mut what = vec![];
        let nodes = self.nodes(ty, v);
        let mut order: Vec<usize> = (0..nodes.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i as u64 + 1) as usize);
        }
        let mut used: Vec<Vec<usize>> = vec![];
        for i in order {
            if what.len() >= max {
                break;
            }
            let (path, t, w) = &nodes[i];
            // never extend inside or around an already extended node
            if used.iter().any(|p| p.starts_with(path) || path.starts_with(p)) {
                continue;
            }
            if let Some(x) = self.newer(r, t, w) {
                what.push(format!("{:?}: {}", path, short(&x)));
                put(&mut nv, path, x);
                used.push(path.clone());
            }
        }
        if what.is_empty() {
            None
        } else {
            Some((nv, what.join("; ")))
        }
    }
}

pub fn put(v: &mut Val, path: &[usize], x: Val) {
    if path.is_empty() {
        *v = x;
        return;
    }
    match v {
        Val::Seq(vs) => put(&mut vs[path[0]].1, &path[1..], x),
        Val::Choice(_, w) => put(w, &path[1..], x),
        Val::List(l) => put(&mut l[path[0]], &path[1..], x),
        Val::Open(_, w) => put(w, &path[1..], x),
        _ => panic!("harness: path into {:?}", v),
    }
}
