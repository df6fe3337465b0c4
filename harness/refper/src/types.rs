//! A set of derived types as the source of codecs to exercise.
use crate::codec::*;
use crate::gen::*;
use crate::json::*;
use crate::rng::Rng;
use crate::run::*;
use crate::schema::*;
use std::rc::Rc;

pub struct Types {
    pub sch: Schema,
    pub name: String,
    /// (codec, weight): the types picked
    all: Vec<Rc<dyn Codec>>,
    by: std::collections::HashMap<String, Vec<usize>>,
}

/// Does the type reach one that `f` accepts?
pub fn reaches(sch: &Schema, ty: &Ty, f: &dyn Fn(&Ty) -> bool, d: usize) -> bool {
    if d > 40 {
        return false;
    }
    let t = sch.resolve(ty);
    f(t) || match t {
        Ty::Seq { fields, .. } => fields.iter().any(|x| reaches(sch, &x.ty, f, d + 1)),
        Ty::Choice { alts, .. } => alts.iter().any(|x| reaches(sch, &x.ty, f, d + 1)),
        Ty::Open(alts) => alts.iter().any(|x| reaches(sch, &x.ty, f, d + 1)),
        Ty::SeqOf(_, x) => reaches(sch, x, f, d + 1),
        _ => false,
    }
}

impl Types {
    pub fn new(name: &str, schema: &str, codecs: Vec<Rc<dyn Codec>>) -> Types {
        BITS64.store(name != "dtypes", std::sync::atomic::Ordering::Relaxed);
        let sch = Schema::from_json(&parse(schema));
        Types { sch, name: name.to_string(), all: codecs, by: Default::default() }
    }
    fn wanted(&self, prop: &str) -> Vec<usize> {
        let want: Box<dyn Fn(&Ty) -> bool> = match prop {
            "C08" => Box::new(|t| matches!(t, Ty::Seq { .. })),
            "C09" => Box::new(|t| matches!(t, Ty::Choice { .. })),
            "C10" => Box::new(|t| matches!(t, Ty::SeqOf(..))),
            "C11" => Box::new(|t| matches!(t, Ty::Open(_))),
            "C12" => Box::new(|t| matches!(t, Ty::Seq { ext: true, .. } | Ty::Choice { ext: true, .. } | Ty::Enum { ext: true, .. })),
            _ => Box::new(|_| true),
        };
        let ok = |c: &Rc<dyn Codec>| self.sch.supported(c.ty());
        let mut v: Vec<usize> = (0..self.all.len()).filter(|i| ok(&self.all[*i]) && reaches(&self.sch, self.all[*i].ty(), &*want, 0)).collect();
        // those that are of the wanted kind themselves count twice
        let more: Vec<usize> = v.iter().copied().filter(|i| want(self.sch.resolve(self.all[*i].ty()))).collect();
        v.extend(more);
        assert!(!v.is_empty(), "harness: no type for {}", prop);
        v
    }
}

impl Source for Types {
    fn schema(&self) -> &Schema {
        &self.sch
    }
    fn pick(&mut self, r: &mut Rng, prop: &str) -> Rc<dyn Codec> {
        if !self.by.contains_key(prop) {
            let w = self.wanted(prop);
            self.by.insert(prop.to_string(), w);
        }
        let i = *r.pick(&self.by[prop]);
        self.all[i].clone()
    }
    fn lim(&self, r: &mut Rng) -> Lim {
        let mut l = Lim::small();
        l.budget = *r.pick(&[5, 20, 60, 200, 400]);
        l
    }
    fn name(&self) -> &str {
        &self.name
    }
}

pub fn derived<T>(name: &str, i: usize) -> Rc<dyn Codec>
where
    T: asn1_codecs::aper::AperCodec<Output = T> + Reflect + 'static,
{
    Rc::new(Derived::<T> { name: name.to_string(), ty: Ty::Ref(i), p: std::marker::PhantomData })
}
