//! Random primitive types with bounds around every place where X.691 changes form.
use crate::codec::*;
use crate::rng::Rng;
use crate::schema::*;

fn span(r: &mut Rng) -> i128 {
    // number of values minus one
    let pts: [i128; 24] = [
        0, 1, 2, 3, 4, 7, 8, 62, 63, 64, 126, 127, 128, 129, 253, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 1000,
    ];
    match r.below(6) {
        0 | 1 | 2 => *r.pick(&pts),
        3 => {
            let k = r.below(100);
            (1i128 << k) + r.range(-2, 1) as i128
        }
        4 => {
            let k = 8 * (1 + r.below(12));
            (1i128 << k) + r.range(-2, 1) as i128
        }
        _ => r.below(70000) as i128,
    }
    .max(0)
}

pub fn int_ty(r: &mut Rng) -> Ty {
    let ext = r.chance(1, 4);
    let lb = match r.below(6) {
        0 | 1 => 0,
        2 => *r.pick(&[1i128, -1, -128, -129, 127, 128, 255, 256, -32768, 65536]),
        3 => r.range(-300, 300) as i128,
        4 => {
            let k = r.below(80);
            let v = 1i128 << k;
            if r.bool() {
                v
            } else {
                -v
            }
        }
        _ => r.range(i64::MIN / 2, i64::MAX / 2) as i128,
    };
    match r.below(8) {
        0 => Ty::Int { lb: None, ub: None, ext: ext && r.bool() },
        1 => Ty::Int { lb: Some(lb), ub: None, ext },
        2 if r.bool() => Ty::Int { lb: None, ub: Some(lb), ext },
        _ => Ty::Int { lb: Some(lb), ub: Some(lb + span(r)), ext },
    }
}

pub fn size_ty(r: &mut Rng, allow_big: bool) -> Size {
    let ext = r.chance(1, 4);
    let pts: [u64; 26] = [
        0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 63, 64, 127, 128, 254, 255, 256, 257, 300, 1000,
    ];
    let small = *r.pick(&pts);
    match r.below(10) {
        0 | 1 => Size { lb: None, ub: None, ext: false },
        2 | 3 | 4 => Size { lb: Some(small), ub: Some(small), ext },
        5 => Size { lb: Some(small), ub: None, ext },
        6 if allow_big => {
            let u = *r.pick(&[65534u64, 65535, 65536, 65537, 100000, 1 << 20, 1 << 33]);
            Size { lb: if r.bool() { Some(small) } else { None }, ub: Some(u), ext }
        }
        7 => {
            // ranges of exactly 255/256/257/65536 lengths
            let w = *r.pick(&[253u64, 254, 255, 256, 257, 65533, 65535]);
            let l = *r.pick(&[0u64, 0, 1, 2, 5]);
            Size { lb: Some(l), ub: Some(l + w), ext }
        }
        _ => {
            let w = *r.pick(&pts);
            Size { lb: Some(small), ub: Some(small + w), ext }
        }
    }
}

pub fn prim(r: &mut Rng) -> PrimCodec {
    let nn = |r: &mut Rng| -> i128 {
        match r.below(3) {
            0 => *r.pick(&[1i128, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 254, 255, 256, 257, 300, 65536]),
            _ => 1 + r.below(40) as i128,
        }
    };
    let p = match r.below(20) {
        0 => Prim::Value(Ty::Bool),
        1..=7 => Prim::Value(int_ty(r)),
        8 => Prim::Value(Ty::Enum { n: nn(r), ext: r.bool() }),
        9 | 10 => Prim::Value(Ty::Bits(size_ty(r, true))),
        11 | 12 => Prim::Value(Ty::Octs(size_ty(r, true))),
        13 | 14 | 15 => {
            let k = *r.pick(&[StrKind::Visible, StrKind::Printable, StrKind::Utf8]);
            Prim::Value(Ty::Str(k, size_ty(r, true)))
        }
        16 => {
            let n = nn(r);
            let ext = r.bool();
            Prim::ChoiceIdx { n, ext, ty: Ty::Enum { n, ext } }
        }
        17 => {
            let n = match r.below(3) {
                0 => 0,
                1 => r.below(9) as usize,
                _ => if r.chance(1, 3) {
                    *r.pick(&[127, 128, 129, 130, 255, 256, 257, 300])
                } else {
                    r.below(70) as usize
                },
            };
            let ext = r.bool();
            let fields = (0..n)
                .map(|i| Field { name: bit_name(i), ty: Ty::Null, opt: true, key: false })
                .collect();
            Prim::Header { n, ext, ty: Ty::Seq { ext, fields } }
        }
        18 => {
            let mut size = size_ty(r, true);
            size.ext = false;
            // a general length determinant may announce a fragment: only a constrained one can be checked
            let dsize = match size.ub {
                Some(u) if u < 65536 => size.clone(),
                _ => Size { lb: None, ub: None, ext: false },
            };
            Prim::Len {
                ty: Ty::SeqOf(size.clone(), Box::new(Ty::Null)),
                dty: Ty::SeqOf(dsize, Box::new(Ty::Null)),
                size,
            }
        }
        _ => Prim::NsLen { ty: Ty::NsLen },
    };
    let name = match &p {
        Prim::Value(t) => format!("{:?}", t),
        Prim::ChoiceIdx { n, ext, .. } => format!("ChoiceIdx{{n:{},ext:{}}}", n, ext),
        Prim::Header { n, ext, .. } => format!("SequenceHeader{{optionals:{},ext:{}}}", n, ext),
        Prim::Len { size, .. } => format!("LengthDeterminant{{{:?}}}", size),
        Prim::NsLen { .. } => "NormallySmallLength".to_string(),
    };
    PrimCodec { name, p }
}
