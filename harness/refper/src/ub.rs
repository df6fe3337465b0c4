//! Plain use of the codecs, to be watched from outside: by Miri, by a sanitizer, by valgrind, by the
//! counting allocator; from one thread, and from several that each own their buffers.
use crate::codec::*;
use crate::gen::*;
use crate::mon::*;
use crate::rng::Rng;
use crate::run::*;
use crate::schema::*;
use asn1_codecs::aper::AperCodecData;
use std::time::Instant;

fn hv(h: &mut u64, x: u64) {
    *h = (*h ^ x).wrapping_mul(0x100000001b3);
    *h ^= *h >> 29;
}

fn hval(h: &mut u64, v: &Val) {
    match v {
        Val::Bits(b) | Val::Octs(b) => {
            hv(h, b.len() as u64);
            b.iter().for_each(|x| hv(h, *x as u64))
        }
        Val::Str(s) => s.bytes().for_each(|x| hv(h, x as u64)),
        Val::List(l) => {
            hv(h, l.len() as u64);
            // the elements of a list of NULLs say nothing
            l.iter().take_while(|x| !matches!(x, Val::Null)).for_each(|x| hval(h, x))
        }
        Val::Seq(f) => f.iter().for_each(|(n, x)| {
            hv(h, n.len() as u64);
            hval(h, x)
        }),
        Val::Choice(n, x) => {
            n.bytes().for_each(|x| hv(h, x as u64));
            hval(h, x)
        }
        Val::Open(k, x) => {
            hv(h, *k as u64);
            hval(h, x)
        }
        Val::Int(i) | Val::Enum(i) => {
            hv(h, *i as u64);
            hv(h, (*i >> 64) as u64)
        }
        Val::Bool(b) => hv(h, *b as u64),
        o => hv(h, short(o).len() as u64),
    }
}

fn decode(h: &mut u64, c: &dyn Codec, bytes: &[u8], off: usize, n: &mut Counts) {
    let r = guarded(|| {
        let mut d = AperCodecData::from_slice(bytes);
        skip(&mut d, off);
        let v = c.decode(&mut d);
        (v, rest_of(&mut d, 6))
    });
    match r {
        Ok((Ok(v), rest)) => {
            n.decoded += 1;
            valid(&v, n);
            hval(h, &v);
            rest.iter().for_each(|b| hv(h, *b as u64))
        }
        Ok((Err(e), _)) => {
            n.refused += 1;
            hv(h, e.len() as u64)
        }
        Err(_) => hv(h, 77),
    }
}

/// A `String` that is not UTF-8 makes every later use of it undefined, wherever a sanitizer is not watching.
fn valid(v: &Val, n: &mut Counts) {
    match v {
        Val::Str(s) => {
            n.strings += 1;
            if std::str::from_utf8(s.as_bytes()).is_err() {
                n.invalid += 1;
            }
        }
        Val::List(l) => l.iter().for_each(|x| valid(x, n)),
        Val::Seq(f) => f.iter().for_each(|x| valid(&x.1, n)),
        Val::Choice(_, x) | Val::Open(_, x) => valid(x, n),
        _ => {}
    }
}

#[derive(Default, Clone, Copy)]
struct Counts {
    strings: u64,
    invalid: u64,
    encoded: u64,
    decoded: u64,
    refused: u64,
}

fn octets(v: &Val) -> usize {
    match v {
        Val::Bits(b) => 1 + b.len() / 8,
        Val::Octs(b) => 1 + b.len(),
        Val::Str(s) => 1 + s.len(),
        Val::List(l) => 1 + l.iter().map(octets).sum::<usize>(),
        Val::Seq(f) => 1 + f.iter().map(|x| octets(&x.1)).sum::<usize>(),
        Val::Choice(_, x) | Val::Open(_, x) => 2 + octets(x),
        _ => 2,
    }
}

/// Some value of the type has to be long: making one already costs too much in an interpreter.
fn heavy(s: &Schema, t: &Ty, depth: u32) -> bool {
    let long = |z: &Size| z.lb.unwrap_or(0) > 16;
    match t {
        Ty::Bits(z) | Ty::Octs(z) | Ty::Str(_, z) | Ty::SeqOf(z, _) => long(z),
        Ty::Seq { fields, .. } => fields.len() > 20 || depth > 0 && fields.iter().any(|f| heavy(s, &f.ty, depth - 1)),
        Ty::Ref(i) => heavy(s, &s.defs[*i].ty, depth),
        _ => false,
    }
}

/// One value encoded and decoded, and some damaged encodings of it decoded: a digest of everything that came back.
fn case(src: &mut dyn Source, seed: u64, case: u64, tiny: bool, n: &mut Counts) -> u64 {
    let mut r = Rng::new(seed ^ 0xc14, case);
    let r = &mut r;
    let mut h = 0u64;
    let mut picked = None;
    for _ in 0..if tiny { 30 } else { 1 } {
        let c = src.pick(r, "C14");
        if tiny && heavy(src.schema(), c.ty(), 3) {
            continue;
        }
        let mut lim = Lim::small();
        lim.budget = if tiny { 3 + r.below(6) as i64 } else { *r.pick(&[5, 20, 100]) };
        lim.maxlen = if tiny { *r.pick(&[3, 9]) } else { *r.pick(&[3, 40, 300]) };
        if let Some(v) = src.schema().gen(r, c.ty(), &mut lim) {
            // every bit costs thousands of steps in an interpreter
            if !tiny || octets(&v) <= 12 {
                picked = Some((c, v));
                break;
            }
        }
    }
    let (c, v) = match picked {
        Some(x) => x,
        None => return 0,
    };
    let off = if r.bool() { 0 } else { r.below(9) as usize };
    let enc = guarded(|| {
        let mut d = AperCodecData::new();
        for i in 0..off {
            let _ = asn1_codecs::aper::encode::encode_bool(&mut d, i % 2 == 0);
        }
        let e = c.encode(&v, &mut d);
        let a = if off % 3 == 1 { d.get_inner().unwrap_or_default() } else { vec![] };
        (e, a, d.into_bytes())
    });
    let bytes = match enc {
        Ok((e, a, b)) => {
            if e == Enc::Ok {
                n.encoded += 1
            }
            a.iter().for_each(|x| hv(&mut h, *x as u64));
            b
        }
        Err(_) => vec![0xa5; 12],
    };
    bytes.iter().for_each(|x| hv(&mut h, *x as u64));
    if bytes.len() > 4000 {
        return h;
    }
    decode(&mut h, &*c, &bytes, off, n);
    for _ in 0..if tiny { 2 } else { 4 } {
        let mut b = bytes.clone();
        match r.below(6) {
            0 => b.truncate(r.below(b.len() as u64 + 1) as usize),
            1 => {
                let k = r.below(20);
                b = (0..k).map(|_| r.next() as u8).collect()
            }
            2 => b.extend_from_slice(&[0xff, 0x80, 0, 1]),
            _ => {
                for _ in 0..1 + r.below(3) {
                    if !b.is_empty() {
                        let i = r.below(b.len().min(6) as u64) as usize;
                        b[i] = if r.bool() { b[i] ^ (1 << r.below(8)) } else { *r.pick(&[0, 0x7f, 0x80, 0xbf, 0xc1, 0xc4, 0xff]) }
                    }
                }
            }
        }
        let o = if r.bool() { off } else { r.below(9) as usize };
        decode(&mut h, &*c, &b, o, n);
    }
    h
}

pub fn run(mk: fn() -> Box<dyn Source>) {
    let a = args();
    let miri = cfg!(miri);
    install_panic_hook();
    if !miri {
        watchdog(30_000);
    }
    let mut cov = Cov::default();
    let mut src = mk();
    let t0 = Instant::now();
    let chunk = if miri { 5 } else { 200 };
    let seed = a.seed.wrapping_mul(1000).wrapping_add(a.shard);
    let mut k = 0;
    let mut n = Counts::default();
    while k < a.cases && t0.elapsed().as_secs_f64() < a.secs && cov.violations.len() < 5 {
        let rep = |what: &str| format!("{{\"engine\":\"{}\",\"prop\":\"C14\",\"seed\":{},\"shard\":{},\"from\":{},\"what\":\"{}\"}}", src_name(), a.seed, a.shard, k, what);
        let alone: Vec<u64> = (k..k + chunk).map(|i| case(&mut *src, seed, i, miri, &mut n)).collect();
        for (i, h) in alone.iter().enumerate() {
            cov.seen(h ^ (i as u64) << 48);
        }
        cov.evaluations += chunk;
        if n.invalid > 0 {
            cov.violate("invalid", format!("cases {}..{}: a decoded String is not UTF-8", k, k + chunk), rep("invalid"));
            break;
        }
        // the same work from several threads at once, each with buffers of its own
        if (k / chunk) % if miri { 6 } else { 2 } == 0 {
            let ts: Vec<_> = (0..if miri { 2 } else { 4 })
                .map(|t| {
                    std::thread::spawn(move || {
                        let mut src = mk();
                        let mut n = Counts::default();
                        // in another order in each thread, so that different work overlaps
                        let mut v: Vec<(u64, u64)> = vec![];
                        for j in 0..chunk {
                            let i = k + (j + t * chunk / 3) % chunk;
                            v.push((i, case(&mut *src, seed, i, cfg!(miri), &mut n)));
                        }
                        v.sort();
                        v.into_iter().map(|x| x.1).collect::<Vec<u64>>()
                    })
                })
                .collect();
            for t in ts {
                let got = t.join().unwrap();
                cov.hit("chunks run from several threads");
                if got != alone {
                    let i = (0..got.len()).find(|i| got[*i] != alone[*i]).unwrap() as u64;
                    cov.violate("threads", format!("case {}: another thread, with buffers of its own, gets another result", k + i), rep("threads"));
                    break;
                }
            }
        } else if !miri {
            // the same work again leaves nothing behind
            let mut left = vec![];
            for _ in 0..3 {
                let before = mem_reset();
                let mut m = Counts::default();
                let again: u64 = (k..k + chunk).fold(0, |x, i| x ^ case(&mut *src, seed, i, miri, &mut m).rotate_left(i as u32));
                let want: u64 = (k..k + chunk).zip(&alone).fold(0, |x, (i, h)| x ^ h.rotate_left(i as u32));
                left.push(mem_reset() - before);
                if again != want {
                    cov.violate("unstable", format!("cases {}..{}: the same calls give other results", k, k + chunk), rep("unstable"));
                    break;
                }
            }
            cov.hit("chunks repeated for leaks");
            if left.iter().skip(1).all(|x| *x > 0) && left.len() == 3 {
                cov.violate("leak", format!("cases {}..{}: {:?} octets more are in use after each repetition", k, k + chunk, left), rep("leak"));
            }
        }
        k += chunk;
    }
    cov.add("values encoded", n.encoded);
    cov.add("values decoded", n.decoded);
    cov.add("decoded strings checked to be UTF-8", n.strings);
    cov.add("encodings refused", n.refused);
    cov.finish(a.hashes.as_deref());
}

fn src_name() -> &'static str {
    "ub"
}
