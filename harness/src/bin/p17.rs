//! P17: declarations rich in temporary fields, each beside the same declaration with the fields kept.
include!(concat!(env!("OUT_DIR"), "/p17.rs"));
use std::collections::HashMap;
use vh::fam::{self, Fam, WrOps};
use vh::interp::{self, class};
use vh::model::hex;
use vh::val::Val;
use vh::{fail, wr_ops, Check, Cx, Fail, Leg, Src};

#[derive(Clone, Copy)]
struct Pair {
    d: usize,
    temp: WrOps,
    k: usize,
    kept: WrOps,
}
/// The kept type's value without its temporary fields.
fn drop_temps(f: Fam, d: usize, v: &Val) -> Val {
    let part = |n: usize, items: &[Val]| -> Vec<Val> { f.0.defs[d].bodies()[n].iter().zip(items).filter(|(f, _)| !f.temp).map(|(_, v)| v.clone()).collect() };
    match v {
        Val::Var(k, items) => Val::Var(*k, part(*k, items)),
        v => Val::Rec(part(0, v.items())),
    }
}
fn here(f: Fam, p: &Pair) -> String {
    f.decl(p.d)
}
fn twin_read(f: Fam, pairs: &[Pair], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let p = &pairs[s.below(pairs.len())];
    let data = interp::input(f.0, if s.chance(1, 2) { p.d } else { p.k }, s);
    let m = interp::read(f.0, p.d, &data);
    if m.res.as_ref().is_err_and(|e| e.undef()) {
        cx.discard();
        return Ok(());
    }
    let a = (p.temp.read)(&data);
    let b = (p.kept.read)(&data);
    cx.fp(&(p.d, &data));
    cx.nontrivial(m.seen.contains("temporary") && m.bits > 0);
    cx.note(|| format!("{} on {}: {} and {}", f.0.defs[p.d].name, hex(&data), fam::short(&a.res), fam::short(&b.res)));
    let what = || format!("input {}: temporary {}, kept {}; declaration:\n{}", hex(&data), fam::short(&a.res), fam::short(&b.res), here(f, p));
    match (&a.res, &b.res) {
        (Ok(x), Ok(y)) => {
            cx.tag("accepted");
            if !x.same(&drop_temps(f, p.d, y)) {
                return fail("twins: value", what());
            }
            if (a.bits, &a.rest, a.pos) != (b.bits, &b.rest, b.pos) {
                return fail("twins: consumed", what());
            }
            Ok(())
        }
        (Err(x), Err(y)) if class(x) == class(y) => {
            cx.tag(class(x));
            Ok(())
        }
        _ => fail("twins: outcome", what()),
    }
}
fn twin_write(f: Fam, pairs: &[Pair], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let p = &pairs[s.below(pairs.len())];
    let v = interp::value(f.0, p.d, s);
    let Some((v, m, a)) = fam::written(f, p.d, &v, p.temp, cx) else { return Ok(()) };
    let Some(w) = interp::keep_temps(f.0, p.d, &v) else {
        cx.tag("not written, or by position");
        return Ok(());
    };
    let Some((w, _, b)) = fam::written(f, p.k, &w, p.kept, cx) else { return Ok(()) };
    // sets may be iterated differently
    if !drop_temps(f, p.d, &w).eq(&v) {
        cx.discard();
        return Ok(());
    }
    cx.fp(&(p.d, &v));
    cx.nontrivial(m.seen.contains("temporary") && m.bits > 0);
    let what = || format!("value {v:?} kept {w:?}: temporary {:?}, kept {:?}; declaration:\n{}", a.res.as_ref().map(|b| hex(b)), b.res.as_ref().map(|b| hex(b)), here(f, p));
    cx.note(|| format!("{} value {v:?} -> {:?}", f.0.defs[p.d].name, a.res.as_ref().map(|b| hex(b))));
    match (&a.res, &b.res) {
        (Ok(x), Ok(y)) if x == y && a.bits == b.bits => {
            cx.tag("written");
            Ok(())
        }
        (Ok(_), Ok(_)) => fail("twins: output", what()),
        (Err(x), Err(y)) if class(x) == class(y) => {
            cx.tag(class(x));
            Ok(())
        }
        _ => fail("twins: outcome of writing", what()),
    }
}

fn main() {
    let f = Fam::new("P17", SEED, SCALE);
    let table: &'static [(usize, WrOps)] = Box::leak(each!(wr_ops).into_boxed_slice());
    let ops: HashMap<usize, WrOps> = table.iter().copied().collect();
    let pairs: &'static [Pair] = Box::leak(f.0.twins.iter().map(|(d, k)| Pair { d: *d, temp: ops[d], k: *k, kept: ops[k] }).collect::<Vec<_>>().into_boxed_slice());
    let written: Vec<Pair> = pairs.iter().filter(|p| f.0.defs[p.d].bodies().iter().any(|b| b.iter().any(|f| f.temp_value.is_some()))).copied().collect();
    let written: &'static [Pair] = Box::leak(written.into_boxed_slice());
    let mut legs = fam::legs(f, table, &["temporary"], [250000, 200000, 0]);
    legs.push(Leg::new("twins-read", 200000, 4000000, move |s, cx| twin_read(f, pairs, s, cx)));
    legs.push(Leg::new("twins-write", 200000, 4000000, move |s, cx| twin_write(f, written, s, cx)));
    vh::engine::main(Check {
        property: "P17",
        rule: "a temporary field was read or written among at least two leaves (on their own, with a second feature at work; as twins, with anything consumed or written)",
        assumptions: vec![fam::ASSUME],
        legs,
    })
}
