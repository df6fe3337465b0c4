//! The primitive encoders and decoders, called directly with random bounds.
use refper::codec::*;
use refper::mon::Counting;
use refper::primgen;
use refper::rng::Rng;
use refper::run::*;
use refper::schema::*;
use std::rc::Rc;

#[global_allocator]
static A: Counting = Counting;

struct Prims {
    sch: Schema,
}

impl Source for Prims {
    fn schema(&self) -> &Schema {
        &self.sch
    }
    fn pick(&mut self, r: &mut Rng, prop: &str) -> Rc<dyn Codec> {
        loop {
            let c = primgen::prim(r);
            // the header of a SEQUENCE alone does not reach its additions
            if prop == "C12" && matches!(c.p, Prim::Header { .. }) {
                continue;
            }
            return Rc::new(c);
        }
    }
    fn name(&self) -> &str {
        "prim"
    }
}

fn main() {
    if args().prop == "C14" {
        return refper::ub::run(|| Box::new(Prims { sch: Schema::default() }));
    }
    run(&mut Prims { sch: Schema::default() })
}
