//! Model of ASN.1 types and values, independent of the codec under test.
use crate::json::J;

#[derive(Clone, Debug, PartialEq)]
pub struct Size {
    pub lb: Option<u64>,
    pub ub: Option<u64>,
    pub ext: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum StrKind {
    Visible,
    Printable,
    Utf8,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: &'static str,
    pub ty: Ty,
    pub opt: bool,
    pub key: bool,
}

#[derive(Clone, Debug)]
pub struct Alt {
    pub name: &'static str,
    pub ty: Ty,
}

#[derive(Clone, Debug)]
pub struct OpenAlt {
    pub key: i128,
    pub name: &'static str,
    pub ty: Ty,
}

#[derive(Clone, Debug)]
pub enum Ty {
    Bool,
    Null,
    Int {
        lb: Option<i128>,
        ub: Option<i128>,
        ext: bool,
    },
    Enum {
        n: i128,
        ext: bool,
    },
    Bits(Size),
    Octs(Size),
    Str(StrKind, Size),
    Seq {
        ext: bool,
        fields: Vec<Field>,
    },
    Choice {
        ext: bool,
        alts: Vec<Alt>,
        /// declared additions, which the encoder refuses
        xalts: Vec<Alt>,
    },
    SeqOf(Size, Box<Ty>),
    Open(Vec<OpenAlt>),
    Ref(usize),
    /// a bare "normally small length" (primitive engine only)
    NsLen,
    /// recognised but outside what the codec supports (OBJECT IDENTIFIER ...)
    Unsupported,
}

#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub ty: Ty,
}

#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub defs: Vec<Def>,
}

#[derive(Clone, Debug)]
pub enum Val {
    Bool(bool),
    Null,
    Int(i128),
    Enum(i128),
    /// one byte (0/1) per bit
    Bits(Vec<u8>),
    Octs(Vec<u8>),
    Str(String),
    /// present components only, by (normalised) name
    Seq(Vec<(&'static str, Val)>),
    Choice(&'static str, Box<Val>),
    List(Vec<Val>),
    Open(i128, Box<Val>),
    // Values only a newer version could send (never produced by decoding):
    /// SEQUENCE with extension additions: root components, then each addition (None = absent)
    SeqX(Vec<(&'static str, Val)>, Vec<Option<Vec<u8>>>),
    /// CHOICE addition number, content octets
    ChoiceX(u64, Vec<u8>),
    /// ENUMERATED addition number
    EnumX(u64),
    /// the value given to an encoder as one outside the extension root
    Flagged(Box<Val>),
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        use Val::*;
        match (self, o) {
            (Bool(a), Bool(b)) => a == b,
            (Null, Null) => true,
            (Int(a), Int(b)) => a == b,
            (Enum(a), Enum(b)) => a == b,
            (Bits(a), Bits(b)) => a == b,
            (Octs(a), Octs(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (Seq(a), Seq(b)) => {
                a.len() == b.len()
                    && a.iter().enumerate().all(|(i, (n, v))| {
                        if b[i].0 == *n {
                            return b[i].1 == *v;
                        }
                        b.iter().any(|(m, w)| m == n && w == v)
                    })
            }
            (Choice(n, a), Choice(m, b)) => n == m && a == b,
            (List(a), List(b)) => a == b,
            (Open(k, a), Open(l, b)) => k == l && a == b,
            (EnumX(a), EnumX(b)) => a == b,
            _ => false,
        }
    }
}

/// Names are compared without case, '-' and '_', so the identifier mapping of the code generator is
/// not part of the model ("type" is renamed "typ" by it).
pub fn norm(s: &str) -> String {
    let n: String = s
        .chars()
        .filter(|c| *c != '-' && *c != '_' && *c != ' ')
        .map(|c| c.to_ascii_lowercase())
        .collect();
    let n = n.strip_prefix("r#").map(|x| x.to_string()).unwrap_or(n);
    if n == "type" {
        "typ".into()
    } else {
        n
    }
}

pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

fn size(j: &J) -> Size {
    Size {
        lb: j.get("lb").opt_int().map(|x| x as u64),
        ub: j.get("ub").opt_int().map(|x| x as u64),
        ext: j.get("ext").truthy(),
    }
}

pub fn ty_from_json(j: &J) -> Ty {
    let k = j.get("k").str();
    match k {
        "bool" => Ty::Bool,
        "null" => Ty::Null,
        "int" => Ty::Int {
            lb: j.get("lb").opt_int(),
            ub: j.get("ub").opt_int(),
            ext: j.get("ext").truthy(),
        },
        "enum" => Ty::Enum {
            n: j.get("n").int(),
            ext: j.get("ext").truthy(),
        },
        "bits" => Ty::Bits(size(j)),
        "octs" => Ty::Octs(size(j)),
        "visible" => Ty::Str(StrKind::Visible, size(j)),
        "printable" => Ty::Str(StrKind::Printable, size(j)),
        "utf8" => Ty::Str(StrKind::Utf8, size(j)),
        "seq" => Ty::Seq {
            ext: j.get("ext").truthy(),
            fields: j
                .get("fields")
                .arr()
                .iter()
                .map(|f| Field {
                    name: leak(norm(f.get("name").str())),
                    ty: ty_from_json(f.get("ty")),
                    opt: f.get("opt").truthy(),
                    key: f.get("key").truthy(),
                })
                .collect(),
        },
        "choice" => {
            let alts = |k: &str| {
                j.get(k)
                    .arr()
                    .iter()
                    .map(|f| Alt {
                        name: leak(norm(f.get("name").str())),
                        ty: ty_from_json(f.get("ty")),
                    })
                    .collect()
            };
            Ty::Choice {
                ext: j.get("ext").truthy(),
                alts: alts("alts"),
                xalts: alts("xalts"),
            }
        }
        "seqof" => Ty::SeqOf(size(j), Box::new(ty_from_json(j.get("of")))),
        "open" => Ty::Open(
            j.get("alts")
                .arr()
                .iter()
                .map(|f| OpenAlt {
                    key: f.get("key").int(),
                    name: leak(norm(f.get("name").str())),
                    ty: ty_from_json(f.get("ty")),
                })
                .collect(),
        ),
        "ref" => Ty::Ref(j.get("i").int() as usize),
        "unsupported" => Ty::Unsupported,
        o => panic!("harness: unknown type kind {}", o),
    }
}

impl Schema {
    pub fn from_json(j: &J) -> Schema {
        Schema {
            defs: j
                .get("types")
                .arr()
                .iter()
                .map(|d| Def {
                    name: d.get("name").str().to_string(),
                    ty: ty_from_json(d.get("ty")),
                })
                .collect(),
        }
    }

    pub fn resolve<'a>(&'a self, ty: &'a Ty) -> &'a Ty {
        let mut t = ty;
        while let Ty::Ref(i) = t {
            t = &self.defs[*i].ty;
        }
        t
    }

    /// Is every value of the type expressible by the codec (no OBJECT IDENTIFIER inside a mandatory part ...)?
    pub fn supported(&self, ty: &Ty) -> bool {
        self.supp(ty, 0)
    }
    fn supp(&self, ty: &Ty, d: usize) -> bool {
        if d > 60 {
            return false;
        }
        match self.resolve(ty) {
            Ty::Unsupported => false,
            Ty::Seq { fields, .. } => fields.iter().all(|f| f.opt || self.supp(&f.ty, d + 1)),
            Ty::Choice { alts, .. } => alts.iter().any(|a| self.supp(&a.ty, d + 1)),
            Ty::SeqOf(s, t) => s.lb.unwrap_or(0) == 0 || self.supp(t, d + 1),
            Ty::Open(a) => a.iter().any(|a| self.supp(&a.ty, d + 1)),
            _ => true,
        }
    }

    /// Does `v` satisfy the type's constraint?  `Err` names the first violation.
    /// With `ext_ok`, values outside an extensible root are accepted.
    pub fn check(&self, ty: &Ty, v: &Val, ext_ok: bool) -> Result<(), String> {
        self.chk(ty, v, ext_ok).map_err(|e| e)
    }

    fn chk(&self, ty: &Ty, v: &Val, x: bool) -> Result<(), String> {
        let szchk = |s: &Size, n: usize, what: &str| -> Result<(), String> {
            let n = n as u64;
            if n < s.lb.unwrap_or(0) || s.ub.map_or(false, |u| n > u) {
                if s.ext && x {
                    return Ok(());
                }
                return Err(format!("{} of length {} outside {:?}", what, n, s));
            }
            Ok(())
        };
        match (self.resolve(ty), v) {
            (Ty::Bool, Val::Bool(_)) | (Ty::Null, Val::Null) => Ok(()),
            (Ty::Int { lb, ub, ext }, Val::Int(i)) => {
                if lb.map_or(false, |l| *i < l) || (ub.map_or(false, |u| *i > u)) {
                    if *ext && x {
                        return Ok(());
                    }
                    return Err(format!("integer {} outside {:?}..{:?}", i, lb, ub));
                }
                Ok(())
            }
            (Ty::NsLen, Val::Int(i)) if *i >= 0 => Ok(()),
            (Ty::Enum { ext: true, .. }, Val::EnumX(_)) if x => Ok(()),
            (Ty::Seq { ext: true, fields }, Val::SeqX(vs, _)) if x => {
                let f = Ty::Seq { ext: true, fields: fields.clone() };
                self.chk(&f, &Val::Seq(vs.clone()), x)
            }
            (Ty::Enum { n, .. }, Val::Enum(i)) => {
                if *i < 0 || i >= n {
                    return Err(format!("enumerated index {} with {} items", i, n));
                }
                Ok(())
            }
            (Ty::Bits(s), Val::Bits(b)) => szchk(s, b.len(), "BIT STRING"),
            (Ty::Octs(s), Val::Octs(b)) => szchk(s, b.len(), "OCTET STRING"),
            (Ty::Str(_, s), Val::Str(b)) => szchk(s, b.chars().count(), "character string"),
            (Ty::Seq { fields, .. }, Val::Seq(vs)) => {
                let mut seen = 0;
                for f in fields {
                    match vs.iter().find(|(n, _)| *n == f.name) {
                        Some((_, w)) => {
                            seen += 1;
                            self.chk(&f.ty, w, x).map_err(|e| format!("{}.{}", f.name, e))?
                        }
                        None => {
                            if !f.opt {
                                return Err(format!("mandatory component {} missing", f.name));
                            }
                        }
                    }
                }
                if seen != vs.len() {
                    return Err("unknown component present".into());
                }
                // key and open type agree; a type is selected by the last key before it
                let mut key = None;
                for f in fields {
                    if f.key {
                        key = vs.iter().find(|(n, _)| *n == f.name).map(|(_, w)| match w {
                            Val::Int(i) | Val::Enum(i) => *i,
                            _ => 0,
                        });
                    }
                    if let Ty::Open(_) = self.resolve(&f.ty) {
                        if let Some((_, Val::Open(k, _))) = vs.iter().find(|(n, _)| *n == f.name) {
                            if Some(*k) != key {
                                return Err(format!(
                                    "open type {} holds the type of key {} while the key field is {:?}",
                                    f.name, k, key
                                ));
                            }
                        }
                    }
                }
                Ok(())
            }
            (Ty::Choice { alts, .. }, Val::Choice(n, w)) => {
                match alts.iter().find(|a| a.name == *n) {
                    Some(a) => self.chk(&a.ty, w, x).map_err(|e| format!("{}:{}", n, e)),
                    None => Err(format!("CHOICE alternative {} is not a root alternative", n)),
                }
            }
            (Ty::SeqOf(s, t), Val::List(l)) => {
                szchk(s, l.len(), "SEQUENCE OF")?;
                for (i, w) in l.iter().enumerate() {
                    self.chk(t, w, x).map_err(|e| format!("[{}]{}", i, e))?
                }
                Ok(())
            }
            (Ty::Open(alts), Val::Open(k, w)) => {
                // two variants may carry the same key only if they are the same type
                let mut last = Err(format!("open type key {} is not declared", k));
                for a in alts.iter().filter(|a| a.key == *k) {
                    last = self.chk(&a.ty, w, x);
                    if last.is_ok() {
                        return last;
                    }
                }
                last
            }
            (t, w) => Err(format!("value shape {:?} does not fit type {:?}", short(w), tshort(t))),
        }
    }
}

pub fn short(v: &Val) -> String {
    let s = format!("{:?}", v);
    if s.len() > 400 {
        let mut e = 400;
        while !s.is_char_boundary(e) {
            e -= 1
        }
        format!("{}...", &s[..e])
    } else {
        s
    }
}
pub fn tshort(v: &Ty) -> String {
    let s = format!("{:?}", v);
    if s.len() > 300 {
        let mut e = 300;
        while !s.is_char_boundary(e) {
            e -= 1
        }
        format!("{}...", &s[..e])
    } else {
        s
    }
}
