//! P12: declarations rich in enums: reading, writing, and the identifier a value reports.
include!(concat!(env!("OUT_DIR"), "/p12.rs"));
use deku::DekuError;
#[path = "../borrowed.rs"]
mod borrowed;
use vh::codec::mask;
use vh::fam::{self, Fam};
use vh::interp::{self, class, E};
use vh::model::hex;
use vh::ops;
use vh::schema::{Body, Enum, IdTy, Sel};
use vh::val::Val;
use vh::{fail, wr_ops, Check, Cx, Fail, Leg, Src};

type IdFn = fn(&Val) -> Result<Val, DekuError>;
macro_rules! p12 {
    ($t:ty, $d:expr, struct, $i:ty) => { ($d, None) };
    ($t:ty, $d:expr, enum, $i:ty) => { ($d, Some(ops::deku_id::<$t, $i> as IdFn)) };
}
fn en(f: Fam, d: usize) -> &'static Enum {
    match &f.0.defs[d].body {
        Body::Enum(e) => e,
        _ => unreachable!(),
    }
}
/// The identifier declared for a variant, if it is declared as such.
fn declared(e: &Enum, k: usize) -> Option<Val> {
    match (&e.variants[k].sel, &e.id) {
        (Sel::Id(x), IdTy::Prim(t)) => Some(Val::N(mask(*x as u128, t.w))),
        (Sel::Id(x), IdTy::Ctx(_)) if e.id2.is_some() => Some(Val::Seq(vec![Val::N(*x as i64 as u64 as u128), Val::N(e.variants[k].second.unwrap() as u64 as u128)])),
        (Sel::Id(x), IdTy::Ctx(_)) => Some(Val::N(*x as i64 as u64 as u128)),
        (Sel::IdBytes(b), _) => Some(Val::Seq(b.iter().map(|b| Val::N(*b as u128)).collect())),
        _ => None,
    }
}
fn reported(f: Fam, ids: &[(usize, IdFn)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, id) = ids[s.below(ids.len())];
    let e = en(f, d);
    let v = interp::value(f.0, d, s);
    let (k, _) = v.var();
    cx.fp(&(d, &v));
    cx.nontrivial(e.variants.len() >= 2);
    let want = declared(e, k);
    cx.tag(if want.is_some() { "identifier declared" } else { "pattern or discriminant" });
    let got = id(&v);
    cx.note(|| format!("declaration {} value {v:?} -> {got:?}", f.0.defs[d].name));
    let here = || format!("value {v:?}; declaration:\n{}", f.decl(d));
    match (want, got) {
        (Some(a), Ok(b)) if a == b => Ok(()),
        (Some(a), Ok(b)) => fail("reported identifier", format!("reports {b:?}, writes {a:?}; {}", here())),
        (Some(a), Err(x)) => fail(format!("no identifier: {}", class(&x)), format!("fails with {x:?}, writes {a:?}; {}", here())),
        (None, Err(DekuError::IdVariantNotFound)) => Ok(()),
        // a library that reports more than today has to report what is written
        (None, x) => fail("undeclared identifier", format!("{x:?}; {}", here())),
    }
}
/// What is written for a variant selects that variant again, unless an earlier one takes its identifier.
fn again(f: Fam, table: &[(usize, fam::WrOps)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let v = interp::value(f.0, d, s);
    let Some((v, m, w)) = fam::written(f, d, &v, o, cx) else { return Ok(()) };
    let (k, _) = v.var();
    cx.fp(&(d, &v));
    let (Ok(_), Ok(b)) = (&m.res, &w.res) else {
        cx.tag("not writable");
        return Ok(());
    };
    let mr = interp::read(f.0, d, b);
    let r = (o.read)(b);
    cx.note(|| format!("declaration {} value {v:?} -> {}", f.0.defs[d].name, hex(b)));
    match (&mr.res, &r.res) {
        (Err(E::Undef(_)), _) => {
            cx.discard();
            Ok(())
        }
        (Ok(a), Ok(x)) => {
            cx.nontrivial(a.var().0 == k);
            if x.var().0 != a.var().0 {
                return fail("another variant", format!("{v:?} written as {} is read as {x:?}; declaration:\n{}", hex(b), f.decl(d)));
            }
            Ok(())
        }
        (Ok(_), Err(x)) => fail(format!("own identifier refused: {}", class(x)), format!("{v:?} written as {} is refused with {x:?}; declaration:\n{}", hex(b), f.decl(d))),
        _ => {
            cx.tag("reading fails");
            Ok(())
        }
    }
}

fn main() {
    let f = Fam::new("P12", SEED, SCALE);
    let table: &'static [(usize, fam::WrOps)] = Box::leak(each!(wr_ops).into_boxed_slice());
    let enums: &'static [(usize, fam::WrOps)] = Box::leak(table.iter().filter(|(d, _)| f.0.defs[*d].is_enum()).copied().collect::<Vec<_>>().into_boxed_slice());
    let all: Vec<(usize, Option<IdFn>)> = each!(p12);
    let ids: &'static [(usize, IdFn)] = Box::leak(all.into_iter().filter_map(|(d, i)| i.map(|i| (d, i))).collect::<Vec<_>>().into_boxed_slice());
    let mut legs = fam::legs(f, table, &["enum"], [300000, 200000, 150000]);
    legs.push(Leg::new("reported", 150000, 3000000, move |s, cx| reported(f, ids, s, cx)));
    legs.push(Leg::new("again", 150000, 3000000, move |s, cx| again(f, enums, s, cx)));
    legs.extend(borrowed::legs());
    vh::engine::main(Check {
        property: "P12",
        rule: "an enum was read or written with at least two features at work and two leaves; for reported identifiers an enum of at least two variants; for selecting again, that the reference selects the same variant; for borrowed contexts that a body was read or has content",
        assumptions: vec![fam::ASSUME],
        legs,
    })
}
