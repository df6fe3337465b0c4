//! The loop around the oracles: which observations decide which property.
use crate::codec::*;
use crate::gen::*;
use crate::json::quote;
use crate::modes::*;
use crate::mon::*;
use crate::refenc::*;
use crate::rng::Rng;
use crate::schema::*;
use std::rc::Rc;
use std::time::Instant;

pub trait Source {
    fn schema(&self) -> &Schema;
    /// a codec to exercise for `prop`
    fn pick(&mut self, r: &mut Rng, prop: &str) -> Rc<dyn Codec>;
    /// limits on generated values
    fn lim(&self, r: &mut Rng) -> Lim {
        let mut l = Lim::small();
        l.budget = *r.pick(&[5, 20, 60, 200, 400]);
        l
    }
    /// values given up on this often make the run meaningless
    fn name(&self) -> &str;
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Round,
    Big,
    Refuse,
    HostileMut,
    HostileRand,
    Forced,
    Frag,
    Cut,
    Ext,
    Hist,
    Lie,
    WrongKey,
}
use Mode::*;

/// (mode, weight), and the failure kinds that are violations of this property.
fn plan(prop: &str) -> (Vec<(Mode, u64)>, Vec<&'static str>) {
    let all_round = vec![
        "encode-panic", "unrepresentable", "refused", "wire", "octets", "decode-err", "decode-neq", "canon-err", "canon-neq",
        "consume", "canon-consume", "determinism", "append",
    ];
    match prop {
        "C01" => (
            vec![(HostileMut, 10), (HostileRand, 5), (Forced, 2), (Cut, 1), (Ext, 1), (Lie, 1), (Frag, 1)],
            vec!["decode-panic", "memory", "cut-panic", "ext-panic", "lie-panic"],
        ),
        "C02" => (
            vec![(Round, 20)],
            vec!["encode-panic", "unrepresentable", "refused", "decode-err", "decode-neq"],
        ),
        "C03" => (
            vec![(Round, 20), (Big, 1)],
            vec!["wire", "octets", "canon-err", "canon-neq", "canon-consume", "ext-misread"],
        ),
        "C04" => (vec![(Refuse, 16), (Big, 1)], vec!["accepted", "encode-panic", "wire"]),
        "C05" => (vec![(HostileMut, 8), (HostileRand, 4), (Forced, 8), (WrongKey, 1), (Frag, 1)], vec!["constraint", "misread", "key-accepted"]),
        "C06" => (vec![(Cut, 7), (HostileMut, 2), (HostileRand, 1)], vec!["cut-accepted", "cut-panic", "short-accepted"]),
        "C07" => (
            vec![(Hist, 8), (Round, 3), (HostileMut, 3), (HostileRand, 1), (Big, 1)],
            vec![
                "append", "dependence", "octets", "determinism", "consume", "canon-consume", "history-err", "history-neq",
                "history-panic", "unstable", "position", "buffer",
            ],
        ),
        "C08" | "C09" | "C10" => {
            let mut k = all_round;
            k.extend(["constraint", "misread", "position", "decode-panic", "accepted", "ext-panic", "ext-misread", "ext-position"]);
            (vec![(Round, 14), (HostileMut, 3), (Forced, 2), (Refuse, 2), (Ext, 3), (Big, 1)], k)
        }
        "C11" => {
            let mut k = all_round;
            k.extend(["constraint", "misread", "position", "decode-panic", "key-accepted", "lie-panic", "lie-accepted", "lie-misread", "lie-position"]);
            (vec![(Round, 10), (HostileMut, 3), (Lie, 8), (WrongKey, 4)], k)
        }
        "C12" => (vec![(Ext, 1)], vec!["ext-panic", "ext-misread", "ext-position", "ext-refused"]),
        "C13" | "C24" => {
            let mut k = all_round;
            k.retain(|x| *x != "append" && *x != "determinism");
            k.extend(["constraint", "misread", "position", "ext-panic", "ext-misread", "ext-position", "ext-refused"]);
            (vec![(Round, 14), (HostileMut, 1), (Forced, 1), (Ext, 1)], k)
        }
        // memory safety: everything, only what the interpreter or sanitizer reports counts
        "C14" => (
            vec![(Round, 6), (HostileMut, 6), (HostileRand, 2), (Cut, 1), (Ext, 2), (Lie, 1), (Hist, 2), (Refuse, 2)],
            vec!["none"],
        ),
        p => panic!("harness: no plan for {}", p),
    }
}

pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub shard: u64,
    pub cases: u64,
    pub secs: f64,
    pub only: Option<u64>,
    pub hashes: Option<String>,
}

pub fn args() -> Args {
    let mut a = Args { prop: String::new(), seed: 1, shard: 0, cases: 1000, secs: 1e9, only: None, hashes: None };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("harness: argument value");
        match k.as_str() {
            "--prop" => a.prop = v(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--shard" => a.shard = v().parse().unwrap(),
            "--cases" => a.cases = v().parse().unwrap(),
            "--secs" => a.secs = v().parse().unwrap(),
            "--only" => a.only = Some(v().parse().unwrap()),
            "--hashes" => a.hashes = Some(v()),
            o => panic!("harness: unknown argument {}", o),
        }
    }
    a
}

pub fn kind_of(t: &Ty) -> &'static str {
    match t {
        Ty::Bool => "BOOLEAN",
        Ty::Null => "NULL",
        Ty::Int { ext: true, .. } => "INTEGER(ext)",
        Ty::Int { lb: Some(_), ub: Some(_), .. } => "INTEGER(constrained)",
        Ty::Int { lb: Some(_), .. } => "INTEGER(semi)",
        Ty::Int { .. } => "INTEGER(unconstrained)",
        Ty::Enum { .. } => "ENUMERATED",
        Ty::Bits(_) => "BIT STRING",
        Ty::Octs(_) => "OCTET STRING",
        Ty::Str(StrKind::Visible, _) => "VisibleString",
        Ty::Str(StrKind::Printable, _) => "PrintableString",
        Ty::Str(StrKind::Utf8, _) => "UTF8String",
        Ty::Seq { .. } => "SEQUENCE",
        Ty::Choice { .. } => "CHOICE",
        Ty::SeqOf(..) => "SEQUENCE OF",
        Ty::Open(_) => "open type",
        Ty::Ref(_) => "reference",
        Ty::NsLen => "small length",
        Ty::Unsupported => "unsupported",
    }
}

pub fn run(src: &mut dyn Source) {
    let a = args();
    install_panic_hook();
    watchdog(20_000);
    mem_cap(3 << 30);
    let mut cov = Cov::default();
    let (modes, kinds) = plan(&a.prop);
    let total: u64 = modes.iter().map(|m| m.1).sum();
    let t0 = Instant::now();
    let mut pool: Vec<Vec<u8>> = vec![];
    let (from, to) = match a.only {
        Some(c) => (c, c + 1),
        None => (0, a.cases),
    };
    for case in from..to {
        if a.only.is_none() && case % 16 == 0 && t0.elapsed().as_secs_f64() > a.secs {
            break;
        }
        let mut r = Rng::new(a.seed ^ fnv(&[a.prop.as_bytes()]), (a.shard << 40) | case);
        let r = &mut r;
        let c = src.pick(r, &a.prop);
        let mut m = modes[0].0;
        let mut x = r.below(total);
        for (mm, w) in &modes {
            if x < *w {
                m = *mm;
                break;
            }
            x -= *w;
        }
        let lim0 = src.lim(r);
        let sch = src.schema();
        let kind = kind_of(sch.resolve(c.ty()));
        let mut fails: Vec<Fail> = vec![];
        let gen = |r: &mut Rng, ext: bool| -> Option<Val> {
            for _ in 0..4 {
                let mut l = lim0.clone();
                l.ext = ext;
                if let Some(v) = sch.gen(r, c.ty(), &mut l) {
                    return Some(v);
                }
            }
            None
        };
        match m {
            Round => {
                // a value outside an extensible root is decodable although not encodable
                let ext = matches!(a.prop.as_str(), "C03") && r.chance(1, 6);
                if let Some(v) = gen(r, ext) {
                    if !ext {
                        if let Err(e) = sch.check(c.ty(), &v, false) {
                            panic!("harness: generated value {} of {} breaks its constraint: {}", short(&v), c.name(), e)
                        }
                    }
                    fails = roundtrip(sch, &*c, &v, r, &mut cov);
                    cov.hit(&format!("roundtrip {}", kind));
                }
            }
            Big => {
                if let Some((ty, v)) = big(sch, c.ty(), r) {
                    let _ = ty;
                    fails = roundtrip(sch, &*c, &v, r, &mut cov);
                    cov.hit(&format!("16K and more {}", kind));
                }
            }
            Refuse => {
                if let Some(v) = gen(r, false) {
                    if c.flags() && r.chance(1, 12) {
                        let what = format!("{} said to be outside the extension root", short(&v));
                        fails = refuse(sch, &*c, &Val::Flagged(Box::new(v)), &what, r, &mut cov);
                        cov.hit(&format!("refuse as extended {}", kind));
                    } else if let Some((bad, what)) = sch.spoil(r, c.ty(), &v) {
                        fails = refuse(sch, &*c, &bad, &what, r, &mut cov);
                        cov.hit(&format!("refuse {}", kind));
                    }
                }
            }
            Cut => {
                let b = if r.chance(1, 40) { big(sch, c.ty(), r) } else { None };
                if let Some((_, v)) = b {
                    fails = truncate(sch, &*c, &v, r, &mut cov, 12);
                    cov.hit(&format!("cut 16K and more {}", kind));
                } else if let Some(v) = gen(r, false) {
                    fails = truncate(sch, &*c, &v, r, &mut cov, 64);
                    cov.hit(&format!("cut {}", kind));
                }
            }
            Ext => {
                if let Some(v) = gen(r, false) {
                    let n = 1 + r.below(3) as usize;
                    if let Some((x, what)) = sch.extend(r, c.ty(), &v, n) {
                        fails = extension(sch, &*c, &v, &x, &what, r, &mut cov);
                        cov.hit(&format!("extended {}", kind));
                    }
                }
            }
            Lie => {
                if let Some(v) = gen(r, false) {
                    fails = lying_open(sch, &*c, &v, r, &mut cov);
                }
            }
            WrongKey => {
                if let Some(v) = gen(r, false) {
                    fails = wrong_key(sch, &*c, &v, r, &mut cov);
                }
            }
            Hist => {
                let n = 2 + r.below(9) as usize;
                let mut cs = vec![c.clone()];
                while cs.len() < n {
                    cs.push(src.pick(r, &a.prop))
                }
                let sch = src.schema();
                let mut vs = vec![];
                let mut refs: Vec<&dyn Codec> = vec![];
                for k in &cs {
                    let mut l = Lim { budget: 20, ..Lim::small() };
                    l.maxlen = 40;
                    if let Some(v) = sch.gen(r, k.ty(), &mut l) {
                        if sch.within_documented_limits(k.ty(), &v) {
                            vs.push(v);
                            refs.push(&**k);
                        }
                    }
                }
                if refs.len() >= 2 {
                    fails = history(sch, &refs, &vs, r, &mut cov);
                }
            }
            Frag => {
                // 16K items and more, in fragments of other sizes than the encoder has to choose
                if let Some((t, v)) = big(sch, c.ty(), r) {
                    let mut ks: Vec<u8> = (0..r.below(3)).map(|_| 1 + r.below(4) as u8).collect();
                    if r.chance(2, 3) {
                        ks.insert(0, *r.pick(&[0u8, 5, 5, 6, 7, 8, 12, 32, 63]));
                    }
                    let off = r.below(9) as usize;
                    let mut w = BitW { b: rand_bits(r, off), ..BitW::new() };
                    crate::refenc::FRAGMENTS.with(|f| *f.borrow_mut() = ks.clone());
                    sch.encode(&t, &v, &mut w);
                    let used = crate::refenc::FRAGMENTS.with(|f| std::mem::take(&mut *f.borrow_mut())).len() < ks.len();
                    if used {
                        match ks.iter().find(|k| !(1..=4).contains(*k)) {
                            Some(k) => cov.hit(&format!("a fragment of {} blocks", k)),
                            None => cov.hit("fragments smaller than they may be"),
                        }
                        let o = Hostile { panic: true, memory: true, constraint: true, stable: false, reads: true, seek: r.bool() };
                        fails = hostile(sch, &*c, &pack(&w.b), off, &o, &mut cov);
                    }
                }
            }
            HostileMut | HostileRand | Forced => {
                let mut o = Hostile {
                    panic: true,
                    memory: true,
                    constraint: true,
                    stable: a.prop == "C07",
                    reads: true,
                    seek: r.chance(1, 3),
                };
                let mut off = 0usize;
                let bytes = if m == HostileRand {
                    if r.chance(1, 2) {
                        off = r.below(20) as usize
                    }
                    Some(random_bytes(r))
                } else if m == Forced {
                    match gen(r, false) {
                        Some(v) => match sch.spoil(r, c.ty(), &v) {
                            Some((bad, _)) => forced(sch, &*c, &bad, r).map(|b| {
                                let mut b = b;
                                cov.hit("forced out-of-constraint encoding");
                                if r.bool() {
                                    b.extend(rand_bits(r, 64))
                                }
                                // the unaligned start was zeros: drop it by offset
                                b
                            }),
                            None => None,
                        },
                        None => None,
                    }
                } else {
                    let ext = r.chance(1, 3);
                    gen(r, ext).map(|v| {
                        let v = if r.chance(1, 4) {
                            sch.extend(r, c.ty(), &v, 2).map(|x| x.0).unwrap_or(v)
                        } else {
                            v
                        };
                        let n = if r.bool() { 0 } else { r.below(9) as usize };
                        off = n;
                        let mut w = BitW { b: rand_bits(r, n), ..BitW::new() };
                        sch.encode(c.ty(), &v, &mut w);
                        let b = if r.chance(1, 12) { w.b.clone() } else { mutate(r, &w.b, &w.marks, &pool) };
                        if w.b.len() < 4000 {
                            if pool.len() < 64 {
                                pool.push(w.b)
                            } else {
                                let i = r.below(64) as usize;
                                pool[i] = w.b
                            }
                        }
                        b
                    })
                };
                if let Some(b) = bytes {
                    let by = if m == HostileRand { b } else { pack(&b) };
                    if o.seek && r.chance(1, 4) {
                        // at the end, and beyond it
                        off = match r.below(4) {
                            0 => usize::MAX - r.below(80) as usize,
                            1 => usize::MAX / 8 + r.below(20) as usize,
                            _ => by.len() * 8 + r.below(80) as usize,
                        }
                    }
                    fails = hostile(sch, &*c, &by, off, &o, &mut cov);
                    cov.hit(&format!("hostile {}", kind));
                    if m == Forced && off == 0 {
                        // also from every small offset: the forced start may be unaligned
                        o.seek = false;
                        for off in 1..9usize {
                            fails.extend(hostile(sch, &*c, &by, off, &o, &mut cov));
                        }
                    }
                }
            }
        }
        for (k, msg) in fails {
            if !kinds.contains(&k) {
                cov.hit(&format!("other property's failure: {}", k));
                if a.only.is_some() {
                    eprintln!("not counted for {}: {}: {}", a.prop, k, msg)
                }
                continue;
            }
            let replay = format!(
                "{{\"engine\":{},\"prop\":{},\"seed\":{},\"shard\":{},\"case\":{}}}",
                quote(src.name()),
                quote(&a.prop),
                a.seed,
                a.shard,
                case
            );
            cov.violate(k, format!("{}: {}", c.name(), msg), replay);
        }
        if cov.violations.len() > 40 {
            break;
        }
    }
    cov.finish(a.hashes.as_deref());
}

/// A value of 16384 items or more where the type allows one at its top.
fn big(sch: &Schema, ty: &Ty, r: &mut Rng) -> Option<(Ty, Val)> {
    let n = *r.pick(&[16383usize, 16384, 16385, 32768, 49152, 65535, 65536, 65537, 81920, 100000, 131072 + 3]);
    let fits = |s: &Size| {
        let n = n as u64;
        (n >= s.lb.unwrap_or(0) && s.ub.map_or(true, |u| n <= u)) || (s.ext)
    };
    let t = sch.resolve(ty);
    let v = match t {
        Ty::Bits(s) if fits(s) => Val::Bits(rand_bits(r, n)),
        Ty::Octs(s) if fits(s) => Val::Octs((0..n).map(|i| (i as u8) ^ (i >> 8) as u8).collect()),
        Ty::Str(StrKind::Utf8, s) if s.lb.is_none() && s.ub.is_none() => {
            // octets, not characters, are counted: put multi-octet characters across the fragment edges
            let mut s = String::new();
            let c = *r.pick(&['a', 'é', '中', '😀']);
            while s.len() < n {
                s.push(if s.len() % 7 == 0 { 'x' } else { c })
            }
            Val::Str(s)
        }
        Ty::Str(k, s) if fits(s) && *k != StrKind::Utf8 => Val::Str(text(r, *k, n as u64)),
        Ty::SeqOf(s, e) if fits(s) && matches!(sch.resolve(e), Ty::Bool | Ty::Int { .. } | Ty::Enum { .. }) => {
            let mut l = vec![];
            let mut lim = Lim { budget: 1 << 40, depth: 4, maxlen: 4, ext: false };
            for _ in 0..n {
                l.push(sch.gen(r, e, &mut lim)?)
            }
            Val::List(l)
        }
        _ => return None,
    };
    Some((t.clone(), v))
}
