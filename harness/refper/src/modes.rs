//! The oracles: one function per kind of observation.
use crate::codec::*;
use crate::mon::*;
use crate::refdec::{BitR, No};
use crate::refenc::*;
use crate::rng::Rng;
use crate::schema::*;
use asn1_codecs::aper::AperCodecData;

pub type Fail = (&'static str, String);

pub fn show(b: &[u8]) -> String {
    let s: String = b.iter().map(|x| if *x != 0 { '1' } else { '0' }).collect();
    if s.len() > 200 {
        format!("{}...({} bits)", &s[..200], s.len())
    } else {
        s
    }
}

fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let lo = i.saturating_sub(24);
    format!(
        "first difference at bit {} (encoder {} bits, reference {} bits); from bit {}: encoder {} reference {}",
        i,
        a.len(),
        b.len(),
        lo,
        show(&a[lo..(lo + 80).min(a.len())]),
        show(&b[lo.min(b.len())..(lo + 80).min(b.len())])
    )
}

pub fn rand_bits(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(3) {
        0 => vec![0; n],
        1 => vec![1; n],
        _ => (0..n).map(|_| (r.next() & 1) as u8).collect(),
    }
}

pub fn start(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(4) {
        0 => 0,
        _ => r.below(17) as usize,
    };
    rand_bits(r, n)
}

fn with_prefix(prefix: &[u8]) -> AperCodecData {
    data_of(prefix)
}

/// Decodes `bits[off..]` and says what was read and what was left.
pub fn decode_at(c: &dyn Codec, bits: &[u8], off: usize) -> Result<(Result<Val, String>, Vec<u8>), String> {
    guarded(|| {
        let mut d = data_of(bits);
        skip(&mut d, off);
        let v = c.decode(&mut d);
        let rest = rest_of(&mut d, 4096);
        (v, rest)
    })
}

/// Round trip, wire image, exact consumption, append-only, final octets.
pub fn roundtrip(sch: &Schema, c: &dyn Codec, v: &Val, r: &mut Rng, cov: &mut Cov) -> Vec<Fail> {
    let mut f: Vec<Fail> = vec![];
    let ty = c.ty();
    let prefix = start(r);
    let mut w = BitW { b: prefix.clone(), ..BitW::new() };
    sch.encode(ty, v, &mut w);
    let expected = w.b;
    let n_suffix = r.below(40) as usize;
    let suffix = rand_bits(r, n_suffix);
    let documented = sch.within_documented_limits(ty, v);
    cov.evaluations += 1;
    cov.hit(&format!("offset%8={}", prefix.len() % 8));
    begin_case(c.name(), &pack(&expected));

    let enc = guarded(|| {
        let mut d = with_prefix(&prefix);
        let e = c.encode(v, &mut d);
        let b = if e == Enc::Ok { bits_of(&mut d) } else { vec![] };
        (e, b)
    });
    let mut own = None;
    match enc {
        Err(p) => f.push(("encode-panic", format!("encoding {} panicked: {}", short(v), p))),
        Ok((Enc::Unrep, _)) => f.push(("unrepresentable", format!("the Rust type cannot hold the permitted value {}", short(v)))),
        Ok((Enc::Err(e), _)) => {
            if documented {
                f.push(("refused", format!("encoding the permitted value {} returned Err: {}", short(v), e)))
            } else {
                cov.hit("encode: documented limit")
            }
        }
        Ok((Enc::Ok, got)) => {
            cov.hit("encode: ok");
            if got.len() < prefix.len() || got[..prefix.len()] != prefix[..] {
                f.push(("append", format!("bits already in the buffer changed from {} to {}", show(&prefix), show(&got[..prefix.len().min(got.len())]))))
            }
            if got != expected {
                f.push(("wire", format!("{} at bit offset {}: {}", short(v), prefix.len(), diff(&got, &expected))))
            }
            // the octets a user gets: same bits, zero padded
            match guarded(|| {
                let mut d = with_prefix(&prefix);
                let e = c.encode(v, &mut d);
                let a = d.get_inner().unwrap();
                (e, a, d.into_bytes())
            }) {
                Ok((Enc::Ok, a, b)) => {
                    if a != pack(&got) || b != pack(&got) {
                        f.push(("octets", format!("encoding {} again: get_inner {} into_bytes {} but the bits were {}", short(v), hex(&a), hex(&b), hex(&pack(&got)))))
                    }
                }
                Ok((e, _, _)) => f.push(("determinism", format!("encoding {} twice: Ok then {:?}", short(v), e))),
                Err(p) => f.push(("determinism", format!("encoding {} twice: Ok then panic {}", short(v), p))),
            }
            own = Some(got);
        }
    }
    // decode what was written
    if let Some(got) = &own {
        let mut all = got.clone();
        all.extend_from_slice(&suffix);
        f.extend(expect_value(c, &all, prefix.len(), v, &suffix, "own encoding", ["decode-err", "decode-neq", "consume"]));
    }
    // decode what X.691 prescribes
    if own.as_ref() != Some(&expected) {
        let mut all = expected.clone();
        all.extend_from_slice(&suffix);
        f.extend(expect_value(c, &all, prefix.len(), v, &suffix, "canonical encoding", ["canon-err", "canon-neq", "canon-consume"]));
        cov.hit("decode: canonical only");
    }
    let body = &expected[prefix.len()..];
    cov.seen(fnv(&[c.name().as_bytes(), body]));
    cov.sample(|| format!("{}: {} at bit offset {} -> {}", c.name(), short(v), prefix.len(), show(body)));
    f
}

pub fn expect_value(c: &dyn Codec, all: &[u8], off: usize, v: &Val, suffix: &[u8], what: &str, k: [&'static str; 3]) -> Vec<Fail> {
    let mut f = vec![];
    let all_owned = all.to_vec();
    match decode_at(c, &all_owned, off) {
        Err(p) => f.push((k[0], format!("decoding the {} of {} panicked: {}", what, short(v), p))),
        Ok((Err(e), _)) => f.push((k[0], format!("decoding the {} of {} ({}) returned Err: {}", what, short(v), show(&all[off..]), e))),
        Ok((Ok(x), rest)) => {
            if x != *v {
                f.push((k[1], format!("the {} of {} ({}) decoded to {}", what, short(v), show(&all[off..]), short(&x))))
            } else {
                // from_slice buffers are whole octets: everything after the value is the suffix
                if rest.len() < 4096 && rest != suffix {
                    f.push((
                        k[2],
                        format!(
                            "after decoding the {} of {} the {} following bits {} were left as {} ({} bits)",
                            what,
                            short(v),
                            suffix.len(),
                            show(suffix),
                            show(&rest),
                            rest.len()
                        ),
                    ))
                }
            }
        }
    }
    f
}

/// An invalid value must be refused.
pub fn refuse(sch: &Schema, c: &dyn Codec, v: &Val, what: &str, r: &mut Rng, cov: &mut Cov) -> Vec<Fail> {
    let _ = sch;
    let prefix = start(r);
    cov.evaluations += 1;
    begin_case(c.name(), what.as_bytes());
    match guarded(|| {
        let mut d = with_prefix(&prefix);
        let e = c.encode(v, &mut d);
        let b = if e == Enc::Ok { bits_of(&mut d) } else { vec![] };
        (e, b)
    }) {
        Err(p) => vec![("encode-panic", format!("encoding the invalid value ({}) panicked: {}", what, p))],
        Ok((Enc::Ok, b)) => vec![("accepted", format!("the encoder accepted {} and wrote {}", what, show(&b[prefix.len().min(b.len())..])))],
        Ok((Enc::Err(_), _)) => {
            cov.hit("refused");
            cov.seen(fnv(&[c.name().as_bytes(), format!("{:?}", v).as_bytes()]));
            cov.sample(|| format!("{}: {} -> Err", c.name(), what));
            vec![]
        }
        Ok((Enc::Unrep, _)) => {
            cov.hit("not representable in the Rust type");
            vec![]
        }
    }
}

/// Every cut of an encoding must be refused.
pub fn truncate(sch: &Schema, c: &dyn Codec, v: &Val, r: &mut Rng, cov: &mut Cov, max_cuts: usize) -> Vec<Fail> {
    let prefix = start(r);
    let mut w = BitW { b: prefix.clone(), ..BitW::new() };
    sch.encode(c.ty(), v, &mut w);
    // also the encoder's own output, when it differs, is an encoding: prefer the real one
    let own = guarded(|| {
        let mut d = with_prefix(&prefix);
        match c.encode(v, &mut d) {
            Enc::Ok => Some(bits_of(&mut d)),
            _ => None,
        }
    });
    let bits = match own {
        Ok(Some(b)) => b,
        _ => w.b.clone(),
    };
    let lo = prefix.len();
    let hi = bits.len();
    begin_case(c.name(), &pack(&bits));
    if hi <= lo {
        cov.hit("empty encoding");
        return vec![];
    }
    // a decoder that does not accept the whole encoding says nothing about prefixes
    match decode_at(c, &bits, lo) {
        Ok((Ok(_), _)) => {}
        _ => {
            cov.hit("whole encoding not accepted");
            return vec![];
        }
    }
    let mut cuts: Vec<usize> = if hi - lo <= max_cuts {
        (lo..hi).collect()
    } else {
        let mut c: Vec<usize> = (0..max_cuts / 2).map(|_| lo + r.below((hi - lo) as u64) as usize).collect();
        // around every field boundary
        for _ in 0..max_cuts / 2 {
            if !w.marks.is_empty() {
                let m = *r.pick(&w.marks) as i64 + r.range(-1, 1);
                c.push((m.max(lo as i64) as usize).min(hi - 1));
            }
        }
        c.push(lo);
        c.extend([1, 7, 8, 9, 16].iter().filter(|x| hi - lo >= **x).map(|x| hi - x));
        c
    };
    cuts.sort();
    cuts.dedup();
    let mut f = vec![];
    for cut in cuts {
        cov.evaluations += 1;
        cov.seen(fnv(&[c.name().as_bytes(), &bits[lo..cut], &[lo as u8 % 8]]));
        match decode_at(c, &bits[..cut], lo) {
            Err(p) => f.push(("cut-panic", format!("decoding the first {} of {} bits of {} panicked: {}", cut - lo, hi - lo, short(v), p))),
            Ok((Ok(x), _)) => f.push((
                "cut-accepted",
                format!("the first {} of {} bits of the encoding of {} ({}) decoded to {}", cut - lo, hi - lo, short(v), show(&bits[lo..cut]), short(&x)),
            )),
            Ok((Err(_), _)) => cov.hit("cut refused"),
        }
        if f.len() > 3 {
            break;
        }
    }
    cov.sample(|| format!("{}: {} ({} bits at offset {}): cuts refused", c.name(), short(v), hi - lo, lo));
    f
}

/// A newer peer's encoding: root values or Err.
pub fn extension(sch: &Schema, c: &dyn Codec, root: &Val, ext: &Val, what: &str, r: &mut Rng, cov: &mut Cov) -> Vec<Fail> {
    let prefix = start(r);
    let mut w = BitW { b: prefix.clone(), ..BitW::new() };
    sch.encode(c.ty(), ext, &mut w);
    let n_suffix = r.below(40) as usize;
    let suffix = rand_bits(r, n_suffix);
    let mut all = w.b.clone();
    all.extend_from_slice(&suffix);
    cov.evaluations += 1;
    begin_case(c.name(), &pack(&all));
    let stripped = strip(ext);
    let mut f = vec![];
    match decode_at(c, &all, prefix.len()) {
        Err(p) => f.push(("ext-panic", format!("decoding a newer version's value ({}) panicked: {}", what, p))),
        Ok((Err(e), _)) => {
            cov.hit("refused");
            if stripped.is_some() && only_additions(root, ext) {
                f.push(("ext-refused", format!("{}: SEQUENCE extension additions are not skipped: {}", what, e)))
            }
        }
        Ok((Ok(x), rest)) => {
            cov.hit("accepted");
            match stripped {
                None => {
                    // prim codecs report the addition number itself
                    if x != *ext {
                        f.push(("ext-misread", format!("{}: there is no root value, yet it decoded to {}", what, short(&x))))
                    }
                }
                Some(want) => {
                    if x != want {
                        f.push(("ext-misread", format!("{}: expected {} or Err, decoded {}", what, short(&want), short(&x))))
                    } else if rest.len() < 4096 && rest != suffix {
                        f.push(("ext-position", format!("{}: decoded the root value but left {} instead of the {} following bits {}", what, show(&rest), suffix.len(), show(&suffix))))
                    }
                }
            }
        }
    }
    let _ = root;
    cov.seen(fnv(&[c.name().as_bytes(), &w.b[prefix.len()..]]));
    cov.sample(|| format!("{}: {}", c.name(), what));
    f
}

/// Nothing is new but SEQUENCE extension additions: what is left without them is the old value.
fn only_additions(root: &Val, ext: &Val) -> bool {
    strip(ext).map_or(false, |x| x == *root)
}

/// What an old version can represent of a newer value; None if nothing.
pub fn strip(v: &Val) -> Option<Val> {
    Some(match v {
        Val::SeqX(vs, _) | Val::Seq(vs) => {
            let mut o = vec![];
            for (n, w) in vs {
                o.push((*n, strip(w)?));
            }
            Val::Seq(o)
        }
        Val::Choice(n, w) => Val::Choice(n, Box::new(strip(w)?)),
        Val::List(l) => Val::List(l.iter().map(strip).collect::<Option<Vec<_>>>()?),
        Val::Open(k, w) => Val::Open(*k, Box::new(strip(w)?)),
        Val::ChoiceX(..) | Val::EnumX(_) => return None,
        o => o.clone(),
    })
}

/// Arbitrary bytes: no panic, bounded memory (C01); accepted values satisfy the constraint (C05) and
/// re-encode to something that decodes to them again (C07).
pub struct Hostile {
    pub panic: bool,
    pub memory: bool,
    pub constraint: bool,
    pub stable: bool,
    pub reads: bool,
    /// the position is set with `seek`, not reached by reading
    pub seek: bool,
}

/// An accepted value is the one X.691 gives to the bits, and they are all that was consumed.
fn read_alike(sch: &Schema, c: &dyn Codec, bytes: &[u8], off: usize, v: &Val, rest: &[u8], hexed: &str, cov: &mut Cov) -> Vec<Fail> {
    let (ty, preamble_only) = match c.reads() {
        Some(t) => t,
        None => return vec![],
    };
    let bits = unpack(bytes);
    let mut r = BitR::new(&bits, off.min(bits.len()));
    r.preamble_only = preamble_only;
    match sch.decode(ty, &mut r) {
        Ok(want) => {
            cov.hit("read as the reference does");
            let same = match (&want, v) {
                (Val::SeqX(a, _), Val::SeqX(b, _)) => Val::Seq(a.clone()) == Val::Seq(b.clone()),
                (a, b) => a == b,
            };
            let left = bits.len() - r.pos;
            if !same {
                vec![("misread", format!("decoding {} from bit {} returned {}; the bits mean {}", hexed, off, short(v), short(&want)))]
            } else if rest.len() != left.min(2048) {
                vec![("position", format!("decoding {} from bit {} returned {}, which ends {} bits before the end, but left {}", hexed, off, short(v), left, rest.len()))]
            } else {
                vec![]
            }
        }
        Err(No::Short) => vec![("short-accepted", format!("decoding {} from bit {} returned {}, of which the last bits are not there", hexed, off, short(v)))],
        Err(No::Outside(w)) => vec![("misread", format!("decoding {} from bit {} returned {}; the bits are no encoding of a value ({})", hexed, off, short(v), w))],
        Err(No::Open(w)) => {
            cov.hit(&format!("accepted, not judged: {}", w));
            vec![]
        }
    }
}

pub fn hostile(sch: &Schema, c: &dyn Codec, bytes: &[u8], off: usize, o: &Hostile, cov: &mut Cov) -> Vec<Fail> {
    let mut f = vec![];
    cov.evaluations += 1;
    begin_case(&format!("{} from bit {}", c.name(), off), bytes);
    let mut d = AperCodecData::from_slice(bytes);
    if o.seek {
        d.seek(off);
        cov.hit(if off > bytes.len() * 8 { "read from beyond the end" } else { "read from an offset set with seek" });
    } else {
        skip(&mut d, off);
    }
    let base = mem_reset();
    let res = guarded(|| c.decode(&mut d));
    let peak = mem_peak() - base;
    let total = mem_total();
    let hexed = || {
        let h = hex(bytes);
        if h.len() > 400 {
            format!("{}...({} octets)", &h[..400], bytes.len())
        } else {
            h
        }
    };
    let allow = (1 << 20) + 8192 * (bytes.len() as i64 + 8);
    if o.memory && (peak > allow || total > 64 * allow as u64) {
        f.push(("memory", format!("decoding {} octets ({}) from bit {} allocated {} bytes (peak {})", bytes.len(), hexed(), off, total, peak)))
    }
    match res {
        Err(p) => {
            cov.hit("panicked");
            if o.panic {
                f.push(("decode-panic", format!("decoding {} from bit {} panicked: {}", hexed(), off, p)))
            }
        }
        Ok(Err(_)) => cov.hit("refused"),
        Ok(Ok(v)) => {
            cov.hit("accepted");
            cov.seen(fnv(&[c.name().as_bytes(), bytes, &[off as u8]]));
            if o.constraint {
                if let Err(e) = sch.check(c.decoded_ty(), &v, true) {
                    f.push(("constraint", format!("decoding {} from bit {} returned {}: {}", hexed(), off, short(&v), e)))
                }
            }
            if o.reads {
                f.extend(read_alike(sch, c, bytes, off, &v, &rest_of(&mut d, 2048), &hexed(), cov))
            }
            if o.stable && !(v == Val::Int(0) && matches!(c.ty(), Ty::NsLen)) && sch.check(c.ty(), &v, false).is_ok() && sch.within_documented_limits(c.ty(), &v) {
                cov.hit("accepted in root");
                match guarded(|| {
                    let mut d = AperCodecData::new();
                    let e = c.encode(&v, &mut d);
                    let b = if e == Enc::Ok { bits_of(&mut d) } else { vec![] };
                    (e, b)
                }) {
                    Ok((Enc::Ok, b)) => match decode_at(c, &b, 0) {
                        Ok((Ok(x), rest)) if x == v && rest.is_empty() => {}
                        other => f.push(("unstable", format!("decoding {} from bit {} returned {}; re-encoded as {} it decodes to {:?}", hexed(), off, short(&v), show(&b), other))),
                    },
                    other => f.push(("unstable", format!("decoding {} from bit {} returned {} which does not encode: {:?}", hexed(), off, short(&v), other))),
                }
            }
            cov.sample(|| format!("{} from bit {}: {} -> {}", c.name(), off, hexed(), short(&v)));
        }
    }
    f
}

/// Hostile variants of an encoding.
pub fn mutate(r: &mut Rng, bits: &[u8], marks: &[usize], pool: &[Vec<u8>]) -> Vec<u8> {
    let mut b = bits.to_vec();
    let n = 1 + r.below(3);
    for _ in 0..n {
        if b.is_empty() {
            b = vec![1, 1, 1, 1, 1, 1, 1, 1];
        }
        let at = |r: &mut Rng, b: &Vec<u8>| -> usize {
            if !marks.is_empty() && r.chance(2, 3) {
                (*r.pick(marks)).min(b.len() - 1)
            } else {
                r.below(b.len() as u64) as usize
            }
        };
        match r.below(9) {
            0 | 1 => {
                let i = at(r, &b);
                b[i] ^= 1
            }
            2 => {
                // overwrite a field start with all ones / zeros / random
                let i = at(r, &b);
                let w = *r.pick(&[2usize, 3, 4, 6, 7, 8, 16]);
                let m = r.below(3);
                for j in i..(i + w).min(b.len()) {
                    b[j] = match m {
                        0 => 1,
                        1 => 0,
                        _ => (r.next() & 1) as u8,
                    }
                }
            }
            3 => {
                // a different length octet at an octet boundary
                let i = at(r, &b) / 8 * 8;
                let x = *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xc4, 0xc5, 0xff, 17, 16, 9, 8]);
                for j in 0..8 {
                    if i + j < b.len() {
                        b[i + j] = (x >> (7 - j)) & 1
                    }
                }
            }
            4 => {
                let i = at(r, &b);
                b.truncate(i)
            }
            5 => {
                let i = at(r, &b);
                let k = r.below(24) as usize;
                let ins = rand_bits(r, k);
                b.splice(i..i, ins);
            }
            6 => {
                let i = at(r, &b);
                let k = (i + r.below(24) as usize).min(b.len());
                b.drain(i..k);
            }
            7 if !pool.is_empty() => {
                let o = r.pick(pool).clone();
                let i = at(r, &b);
                b.truncate(i);
                let k = r.below(o.len() as u64 + 1) as usize;
                b.extend_from_slice(&o[k..]);
            }
            _ => {
                let k = r.below(200) as usize;
                let t = rand_bits(r, k);
                b.extend_from_slice(&t);
            }
        }
    }
    b
}

pub fn random_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(4) {
        0 => r.below(4),
        1 => r.below(12),
        2 => r.below(60),
        _ => r.below(400),
    };
    let m = r.below(4);
    (0..n)
        .map(|_| match m {
            0 => *r.pick(&[0u8, 0xff, 0x80, 0x7f, 1, 0xc4, 0xc1, 0xc0, 0xbf, 0x40]),
            1 => {
                if r.chance(1, 3) {
                    r.next() as u8
                } else {
                    0
                }
            }
            _ => r.next() as u8,
        })
        .collect()
}

/// A history of encodes into one buffer and the matching decodes.
pub fn history(sch: &Schema, cs: &[&dyn Codec], vs: &[Val], r: &mut Rng, cov: &mut Cov) -> Vec<Fail> {
    let mut f = vec![];
    let prefix = start(r);
    let names: Vec<&str> = cs.iter().map(|c| c.name()).collect();
    begin_case(&names.join(" + "), &pack(&prefix));
    cov.evaluations += 1;
    let reserve = if r.chance(1, 3) { r.below(500) as usize } else { 0 };
    let other_bits = start(r);
    let at = r.next();
    // values are read from the buffer that is still written to, each at once or some later
    let live = reserve == 0 && r.chance(2, 3);
    let res = guarded(|| {
        let mut f: Vec<Fail> = vec![];
        let mut d = with_prefix(&prefix);
        let mut read = 0;
        if live {
            d.seek(prefix.len());
        }
        let mut so_far = prefix.clone();
        let mut sent: Vec<(usize, Vec<u8>)> = vec![];
        for (i, c) in cs.iter().enumerate() {
            // a twin buffer with different content of the same length (mod 8) must get the same bits
            let whole = so_far.len() / 8 * 8;
            let flipped: Vec<u8> = so_far[if whole >= 16 { whole - 8 } else { 0 }..].iter().map(|b| 1 - b).collect();
            let mut twin = data_of(&flipped);
            let twin_len = flipped.len();
            let e = c.encode(&vs[i], &mut d);
            let e2 = c.encode(&vs[i], &mut twin);
            if e != Enc::Ok {
                if e2 == Enc::Ok {
                    f.push(("dependence", format!("encoding {} after {} bits returned {:?} but Ok after other bits", short(&vs[i]), so_far.len(), e)));
                }
                // a refused value ends the history (what was written before the refusal is unspecified)
                return (f, None);
            }
            if e2 != Enc::Ok {
                f.push(("dependence", format!("encoding {} after {} bits returned Ok but {:?} after other bits", short(&vs[i]), so_far.len(), e2)));
                return (f, None);
            }
            let all = snapshot(&d);
            let all2 = bits_of(&mut twin);
            let part2 = all2[twin_len.min(all2.len())..].to_vec();
            if all.len() < so_far.len() || all[..so_far.len()] != so_far[..] {
                f.push(("append", format!("encoding {} changed bits already in the buffer", short(&vs[i]))));
                return (f, None);
            }
            // `all` is only known to the octet; the twin knows the exact length
            let exact = so_far.len() + part2.len();
            if exact > all.len() || all.len() - exact >= 8 || all[so_far.len()..exact] != part2[..] {
                f.push(("dependence", format!("encoding {} at bit {} wrote {} but {} after other bits of the same number", short(&vs[i]), so_far.len(), show(&all[so_far.len()..]), show(&part2))));
                return (f, None);
            }
            if all[exact..].iter().any(|b| *b != 0) {
                f.push(("octets", format!("after encoding {} the octets read from the buffer end in padding {}", short(&vs[i]), show(&all[exact..]))));
            }
            so_far.extend_from_slice(&part2);
            sent.push((exact, part2));
            if live && (i + 1 == cs.len() || at >> (i % 64) & 1 == 1) {
                for j in read..i + 1 {
                    match cs[j].decode(&mut d) {
                        Ok(x) if x == vs[j] => {}
                        other => {
                            f.push(("history-neq", format!("{}, value {} of the {} already encoded into a buffer ({}), read from it: {:?}", short(&vs[j]), j, i + 1, names.join(" + "), other.map(|v| short(&v)))));
                            return (f, None);
                        }
                    }
                }
                read = i + 1;
            }
            if reserve > 0 {
                // room is not content
                d.reserve(reserve);
                if snapshot(&d) != all {
                    f.push(("buffer", format!("reserving {} bits changed the content of the buffer", reserve)));
                }
            }
        }
        buffer(&mut d, &so_far, &other_bits, at, &mut f);
        (f, Some((so_far, sent)))
    });
    let (so_far, sent) = match res {
        Err(p) => {
            f.push(("encode-panic", format!("a history of {} encodes panicked: {}", cs.len(), p)));
            return f;
        }
        Ok((g, None)) => {
            cov.hit("history ended by a refusal");
            f.extend(g);
            return f;
        }
        Ok((g, Some(x))) => {
            f.extend(g);
            x
        }
    };
    cov.add("values encoded in histories", sent.len() as u64);
    cov.seen(fnv(&[names.join("+").as_bytes(), &so_far]));
    let n_suffix = r.below(40) as usize;
    let suffix = rand_bits(r, n_suffix);
    let mut all = so_far.clone();
    all.extend_from_slice(&suffix);
    // where each value starts
    let starts: Vec<usize> = sent.iter().map(|(end, part)| end - part.len()).collect();
    let jumps: Vec<(usize, Option<i128>)> = (0..r.below(4))
        .map(|_| (r.below(cs.len() as u64) as usize, if r.bool() { Some(r.below(300) as i128 - 20) } else { None }))
        .collect();
    let noise: Option<i128> = if r.bool() { Some(r.below(300) as i128 - 20) } else { None };
    let far = all.len() + r.below(20) as usize;
    let res = guarded(|| {
        let mut d = data_of(&all);
        let mut f: Vec<Fail> = vec![];
        // in any order, at the offsets where they are; a failed read and a key left behind have no effect
        for (i, key) in &jumps {
            if let Some(k) = key {
                d.set_key(*k);
                d.seek(far);
                let _ = cs[*i].decode(&mut d);
            }
            d.seek(starts[*i]);
            match cs[*i].decode(&mut d) {
                Ok(x) if x == vs[*i] => {}
                other => f.push(("history-neq", format!("{} read at bit {} of a concatenation of {} ({}), after other reads (key {:?}): {:?}", short(&vs[*i]), starts[*i], cs.len(), names.join(" + "), key, other.map(|v| short(&v))))),
            }
        }
        d.seek(prefix.len());
        for (i, c) in cs.iter().enumerate() {
            if let Some(k) = noise {
                d.set_key(k);
            }
            match c.decode(&mut d) {
                Err(e) => {
                    f.push(("history-err", format!("value {} of {} ({}) in a concatenation returned Err: {}", i, cs.len(), short(&vs[i]), e)));
                    return (f, false);
                }
                Ok(x) => {
                    if x != vs[i] {
                        f.push(("history-neq", format!("value {} of {} in a concatenation: {} decoded as {}", i, cs.len(), short(&vs[i]), short(&x))));
                        return (f, false);
                    }
                }
            }
        }
        let rest = rest_of(&mut d, 4096);
        if rest != suffix {
            f.push(("consume", format!("after {} values ({}) the following bits {} were left as {}", cs.len(), names.join(" + "), show(&suffix), show(&rest))));
        }
        (f, true)
    });
    match res {
        Err(p) => f.push(("history-panic", format!("decoding a concatenation of {} values panicked: {}", cs.len(), p))),
        Ok((g, ok)) => {
            if ok {
                cov.hit("history decoded");
                if live {
                    cov.hit("history decoded while it was written");
                }
                cov.add("values read at offsets set with seek", jumps.len() as u64);
            }
            f.extend(g)
        }
    }
    let _ = sch;
    cov.sample(|| format!("{} -> {}", names.join(" + "), show(&so_far)));
    f
}

/// The buffer's own operations: length, one bit set, bits exchanged, another buffer appended at an octet boundary.
fn buffer(d: &mut AperCodecData, bits: &[u8], other: &[u8], at: u64, f: &mut Vec<Fail>) {
    let n = bits.len();
    let padded = |b: &[u8]| {
        let mut b = b.to_vec();
        while b.len() % 8 != 0 {
            b.push(0)
        }
        b
    };
    if d.length_in_bytes() != (n + 7) / 8 {
        f.push(("buffer", format!("{} bits are said to be {} octets", n, d.length_in_bytes())));
    }
    let mut bits = bits.to_vec();
    if n > 0 {
        let i = (at % n as u64) as usize;
        bits[i] ^= 1;
        d.set_bit(i, bits[i] != 0);
        if snapshot(d) != padded(&bits) {
            f.push(("buffer", format!("setting bit {} of {} did not change that bit alone", i, n)));
        }
        let m = (at as usize / 64 % 20).min(n - i);
        let mut ours = bitvec::vec::BitVec::<u8, bitvec::order::Msb0>::new();
        for k in 0..m {
            ours.push((at >> (k + 20)) & 1 == 1)
        }
        let given: Vec<u8> = ours.iter().map(|b| *b as u8).collect();
        d.swap_bits(&mut ours, i);
        let got: Vec<u8> = ours.iter().map(|b| *b as u8).collect();
        let want = bits[i..i + m].to_vec();
        bits[i..i + m].copy_from_slice(&given);
        if got != want || snapshot(d) != padded(&bits) {
            f.push(("buffer", format!("exchanging {} bits at {} of {} changed others, or not these", m, i, n)));
        }
    }
    let mut o = with_prefix(other);
    d.append_aligned(&mut o);
    let mut want = padded(&bits);
    want.extend(padded(other));
    if snapshot(d) != want || d.length_in_bytes() * 8 != want.len() {
        f.push(("buffer", format!("appending {} bits to {} at an octet boundary gave {} and not {}", other.len(), n, show(&snapshot(d)), show(&want))));
    }
    let taken = std::mem::take(d).into_bytes();
    if taken != pack(&want) {
        f.push(("buffer", format!("the octets taken out of the buffer are not those in it: {} and not {}", hex(&taken), show(&want))));
    }
}

/// The buffer's octets as bits (exact to the octet) without disturbing it.
fn snapshot(d: &AperCodecData) -> Vec<u8> {
    unpack(&d.get_inner().expect("harness: get_inner"))
}

/// An open type field whose length octets disagree with its content.
pub fn lying_open(sch: &Schema, c: &dyn Codec, v: &Val, r: &mut Rng, cov: &mut Cov) -> Vec<Fail> {
    let prefix = start(r);
    let mut w = BitW { b: prefix.clone(), ..BitW::new() };
    sch.encode(c.ty(), v, &mut w);
    if w.opens == 0 {
        cov.hit("no open type in the value");
        return vec![];
    }
    let which = r.below(w.opens as u64) as usize;
    let delta: i64 = *r.pick(&[1i64, 1, 2, 3, 100, 200, -1, -1, -2, -3]);
    let mut w = BitW { b: prefix.clone(), lie: Some((which, delta)), ..BitW::new() };
    sch.encode(c.ty(), v, &mut w);
    let n_suffix = r.below(80) as usize;
    let suffix = rand_bits(r, n_suffix);
    let mut all = w.b.clone();
    all.extend_from_slice(&suffix);
    cov.evaluations += 1;
    begin_case(c.name(), &pack(&all));
    cov.seen(fnv(&[c.name().as_bytes(), &w.b]));
    let what = format!("{} with open type field number {} {} by {} octets", short(v), which, if delta > 0 { "lengthened" } else { "shortened" }, delta.abs());
    cov.sample(|| what.clone());
    match decode_at(c, &all, prefix.len()) {
        Err(p) => vec![("lie-panic", format!("decoding {} panicked: {}", what, p))],
        Ok((Err(_), _)) => {
            cov.hit("lying length refused");
            vec![]
        }
        Ok((Ok(x), rest)) => {
            cov.hit("lying length accepted");
            if w.lie_short {
                vec![("lie-accepted", format!("{}: decoded to {}", what, short(&x)))]
            } else if x != *v {
                vec![("lie-misread", format!("{}: decoded to {}", what, short(&x)))]
            } else if rest.len() < 4096 && rest != suffix {
                vec![("lie-position", format!("{}: the {} following bits {} were left as {}", what, suffix.len(), show(&suffix), show(&rest)))]
            } else {
                vec![]
            }
        }
    }
}

/// `v` with the key of one of its open types replaced by one that is not declared for it, often one
/// that a narrower number would confuse with one that is.
fn rekey(sch: &Schema, ty: &Ty, v: &Val, r: &mut Rng) -> Option<Val> {
    match (sch.resolve(ty), v) {
        (Ty::Seq { fields, .. }, Val::Seq(vs)) => {
            let ty_of = |n: &str| fields.iter().find(|f| f.name == n).map(|f| (&f.ty, f.key));
            let inner = |r: &mut Rng| {
                let n = vs.len();
                let from = if n > 0 { r.below(n as u64) as usize } else { 0 };
                for j in 0..n {
                    let i = (from + j) % n;
                    if let Some(x) = rekey(sch, ty_of(vs[i].0)?.0, &vs[i].1, r) {
                        let mut o = vs.clone();
                        o[i].1 = x;
                        return Some(Val::Seq(o));
                    }
                }
                None
            };
            // a key and the first open type that it selects
            let at = vs.iter().enumerate().find_map(|(k, (n, _))| {
                let i = fields.iter().position(|f| f.name == *n && f.key)?;
                let alts = fields[i + 1..].iter().take_while(|f| !f.key).find_map(|f| match sch.resolve(&f.ty) {
                    Ty::Open(a) if vs.iter().any(|(n, _)| *n == f.name) => Some(a),
                    _ => None,
                })?;
                Some((alts, k))
            });
            if let Some((alts, k)) = at {
                if r.chance(2, 3) {
                    let old = match &vs[k].1 {
                        Val::Int(i) | Val::Enum(i) => *i,
                        _ => return None,
                    };
                    for _ in 0..8 {
                        let d = *r.pick(&[1i128 << 8, 1 << 16, 1 << 32, 1 << 7, 1 << 15, 1, 2, 3 << 8, 5 << 16, 3 << 32]);
                        let new = if r.bool() { old + d } else { old - d };
                        let val = match sch.resolve(ty_of(vs[k].0)?.0) {
                            Ty::Enum { .. } => Val::Enum(new),
                            _ => Val::Int(new),
                        };
                        if alts.iter().all(|a| a.key != new) && sch.check(ty_of(vs[k].0)?.0, &val, false).is_ok() {
                            let mut o = vs.clone();
                            o[k].1 = val;
                            return Some(Val::Seq(o));
                        }
                    }
                }
            }
            inner(r)
        }
        (Ty::Choice { alts, .. }, Val::Choice(n, w)) => {
            let a = alts.iter().find(|a| a.name == *n)?;
            Some(Val::Choice(*n, Box::new(rekey(sch, &a.ty, w, r)?)))
        }
        (Ty::SeqOf(_, t), Val::List(l)) => {
            for (i, x) in l.iter().enumerate() {
                if let Some(x) = rekey(sch, t, x, r) {
                    let mut o = l.clone();
                    o[i] = x;
                    return Some(Val::List(o));
                }
            }
            None
        }
        (Ty::Open(alts), Val::Open(k, w)) => {
            let mut a = alts.iter().filter(|a| a.key == *k);
            match (a.next(), a.next()) {
                (Some(a), None) => Some(Val::Open(*k, Box::new(rekey(sch, &a.ty, w, r)?))),
                _ => None,
            }
        }
        _ => None,
    }
}

/// An open type under a key that is not declared is refused.
pub fn wrong_key(sch: &Schema, c: &dyn Codec, v: &Val, r: &mut Rng, cov: &mut Cov) -> Vec<Fail> {
    let bad = match rekey(sch, c.ty(), v, r) {
        Some(b) => b,
        None => return vec![],
    };
    let prefix = start(r);
    let mut w = BitW { b: prefix.clone(), ..BitW::new() };
    sch.encode(c.ty(), &bad, &mut w);
    w.b.extend(rand_bits(r, 64));
    cov.evaluations += 1;
    cov.hit("key not declared");
    begin_case(c.name(), &pack(&w.b));
    cov.seen(fnv(&[c.name().as_bytes(), b"key", &w.b[prefix.len()..]]));
    match decode_at(c, &w.b, prefix.len()) {
        Err(p) => vec![("decode-panic", format!("decoding {} (a key that is not declared) panicked: {}", show(&w.b), p))],
        Ok((Err(_), _)) => vec![],
        Ok((Ok(x), _)) => vec![("key-accepted", format!("{} has an open type under a key that is not declared; decoded to {}", short(&bad), short(&x)))],
    }
}

/// The bits a careless peer would send for a value outside its constraint, where the field can hold it.
pub fn forced(sch: &Schema, c: &dyn Codec, v: &Val, r: &mut Rng) -> Option<Vec<u8>> {
    let n = if r.bool() { 0 } else { r.below(9) as usize };
    let mut w = BitW { b: vec![0; n], force: true, ..BitW::new() };
    sch.encode(c.ty(), v, &mut w);
    if w.unfit {
        return None;
    }
    Some(w.b)
}
