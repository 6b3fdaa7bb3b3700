//! P16: declarations rich in update expressions.
include!(concat!(env!("OUT_DIR"), "/p16.rs"));
use deku::DekuError;
use vh::fam::{self, Fam};
use vh::interp::{self, class, E};
use vh::model::hex;
use vh::ops::{self, ReadObs, WriteObs};
use vh::schema::Field;
use vh::val::Val;
use vh::{fail, Check, Cx, Fail, Leg, Src};

#[derive(Clone, Copy)]
struct Ops {
    read: fn(&[u8]) -> ReadObs,
    write: fn(&Val) -> WriteObs,
    update: fn(&Val) -> (Result<(), DekuError>, Val),
    settle: fn(&Val) -> Val,
}
macro_rules! p16 { ($t:ty, $d:expr, $k:ident, $i:ty) => { ($d, Ops { read: ops::read::<$t>, write: ops::write::<$t>, update: ops::update::<$t>, settle: ops::settle::<$t> }) } }
type Table = &'static [(usize, Ops)];

/// The kept fields of a value, in order.
fn parts<'a>(f: Fam, d: usize, v: &'a Val) -> Vec<(&'static Field, &'a Val)> {
    let (k, items) = match v {
        Val::Var(k, items) => (*k, &items[..]),
        v => (0, v.items()),
    };
    f.0.defs[d].bodies()[k].iter().filter(|f| !f.temp).zip(items).collect()
}
/// An arbitrary value with its computed fields now and then made stale on purpose.
fn stale(f: Fam, d: usize, s: &mut Src) -> Val {
    match s.below(3) {
        0 => interp::value(f.0, d, s),
        _ => interp::arb(f.0, d, s),
    }
}
/// Updated value as deku and the reference have it; `None`: failed, rightly.
fn updated(f: Fam, d: usize, o: Ops, mark: bool, s: &mut Src, cx: &mut Cx) -> Result<Option<(Val, Val)>, Fail> {
    let v = (o.settle)(&stale(f, d, s));
    let here = |x: &Val| format!("value {v:?}, afterwards {x:?}; declaration:\n{}", f.decl(d));
    let m = interp::update(f.0, d, &v);
    let (r, x) = (o.update)(&v);
    cx.fp(&(d, &v));
    cx.note(|| format!("declaration {} value {v:?} -> {r:?} {x:?}", f.0.defs[d].name));
    let fields = parts(f, d, &v);
    if fields.iter().any(|(f, _)| f.update.is_some()) {
        cx.tag("has computed fields");
    }
    // whatever happens, what is not computed stays
    for ((fl, a), (_, b)) in fields.iter().zip(parts(f, d, &x)) {
        if fl.update.is_none() && !a.same(b) {
            return Err(Fail { kind: "another field changed".into(), msg: here(&x) });
        }
    }
    match (m, r) {
        (Ok((w, changed)), Ok(())) => {
            cx.tag(if changed { "changed" } else { "unchanged" });
            if !w.same(&x) {
                return Err(Fail { kind: "updated value".into(), msg: format!("declared {w:?}; {}", here(&x)) });
            }
            cx.nontrivial(mark && changed && v.weight() >= 2);
            Ok(Some((v.clone(), x)))
        }
        (Err(e), Err(x)) if e.admits(&x) => {
            cx.tag("does not fit");
            cx.nontrivial(mark);
            Ok(None)
        }
        (Err(e), Err(y)) => Err(Fail { kind: format!("error {}", class(&y)), msg: format!("failed with {y:?}, declared {e:?}; {}", here(&x)) }),
        (Err(e), Ok(())) => Err(Fail { kind: "does not fit and accepted".into(), msg: format!("declared {e:?}; {}", here(&x)) }),
        (Ok(_), Err(y)) => Err(Fail { kind: format!("refused: {}", class(&y)), msg: here(&x) }),
    }
}
fn update(f: Fam, table: Table, s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let Some((_, x)) = updated(f, d, o, true, s, cx)? else { return Ok(()) };
    // a second update follows the same rule, from the new value
    let m = interp::update(f.0, d, &x);
    let (r, y) = (o.update)(&x);
    match (m, r) {
        (Ok((w, changed)), Ok(())) => {
            cx.tag(if changed { "not yet settled" } else { "settled" });
            if !w.same(&y) {
                return fail("updated twice", format!("{x:?} becomes {y:?}, declared {w:?}; declaration:\n{}", f.decl(d)));
            }
            Ok(())
        }
        (Err(e), Err(x)) if e.admits(&x) => Ok(()),
        (m, r) => fail("updated twice: outcome", format!("{x:?}: {r:?}, declared {m:?}; declaration:\n{}", f.decl(d))),
    }
}
/// Written after updating, a value reads back as the reference says; equal, where reading and writing are symmetric.
fn sent(f: Fam, table: Table, s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let Some((_, x)) = updated(f, d, o, false, s, cx)? else { return Ok(()) };
    let here = || format!("updated value {x:?}; declaration:\n{}", f.decl(d));
    if interp::write(f.0, d, &x).res.is_err_and(|e| e.undef()) {
        cx.discard();
        return Ok(());
    }
    let w = (o.write)(&x);
    let m = interp::write(f.0, d, &w.val);
    if m.res.as_ref().is_err_and(|e| e.undef()) {
        cx.discard();
        return Ok(());
    }
    fam::compare_written(f, d, &w.val, &m, &w.res)?;
    let Ok(b) = w.res else {
        cx.tag("not writable");
        return Ok(());
    };
    let mr = interp::read(f.0, d, &b);
    let r = (o.read)(&b);
    match (&mr.res, &r.res) {
        (Err(E::Undef(_)), _) => {
            cx.discard();
            Ok(())
        }
        (Ok(a), Ok(y)) => {
            let equal = a.same(&x);
            cx.tag(if equal { "reads back equal" } else { "reads back another value" });
            cx.nontrivial(equal && x.weight() >= 2 && parts(f, d, &x).iter().any(|(f, _)| f.update.is_some()));
            if !a.same(y) {
                return fail("not what was updated", format!("wrote {}, read back {y:?}, declared {a:?}; {}", hex(&b), here()));
            }
            Ok(())
        }
        (Ok(a), Err(e)) => fail(format!("updated value unreadable: {}", class(e)), format!("wrote {}, reading it failed with {e:?}, declared {a:?}; {}", hex(&b), here())),
        (Err(e), Ok(y)) => fail("updated value readable", format!("wrote {}, read back {y:?}, declared {e:?}; {}", hex(&b), here())),
        (Err(_), Err(_)) => Ok(()),
    }
}

fn main() {
    let f = Fam::new("P16", SEED, SCALE);
    let table: Table = Box::leak(each!(p16).into_boxed_slice());
    vh::engine::main(Check {
        property: "P16",
        rule: "updating changed a computed field of a value of at least two leaves, or rightly failed; when sent, a type with computed fields whose updated value reads back equal",
        assumptions: vec![fam::ASSUME],
        legs: vec![
            Leg::new("update", 300000, 6000000, move |s, cx| update(f, table, s, cx)),
            Leg::new("sent", 200000, 4000000, move |s, cx| sent(f, table, s, cx)),
        ],
    })
}
