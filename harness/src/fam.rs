//! Cases shared by the checks on generated declarations.
use crate::engine::{fail, Cx, Fail, Leg, Src};
use crate::interp::{self, class, E};
use crate::model::hex;
use crate::ops::{ReadObs, WriteObs};
use crate::val::Val;
use crate::render::decl_all;
use crate::schema::{family, Schema};

pub const ASSUME: &str = "declarations are drawn from the generator in harness/src/schema.rs with the seed of the run; the reference interpreter in harness/src/interp.rs is the meaning of the documentation";
pub type ReadFn = fn(&[u8]) -> ReadObs;
/// A family of declarations, for the whole run.
#[derive(Clone, Copy)]
pub struct Fam(pub &'static Schema);
impl Fam {
    pub fn new(name: &str, seed: u64, scale: f64) -> Fam {
        Fam(Box::leak(Box::new(family(name, seed, scale))))
    }
    pub fn decl(&self, d: usize) -> String {
        decl_all(self.0, d)
    }
}
pub fn short(r: &Result<crate::val::Val, deku::DekuError>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("error {e:?}"),
    }
}
/// Compare what was read with the reference. `Ok(true)`: both succeeded.
pub fn compare(f: Fam, d: usize, data: &[u8], m: &interp::ReadOut, o: &ReadObs) -> Result<(), Fail> {
    let here = || format!("input {}; declaration:\n{}", hex(data), f.decl(d));
    match (&m.res, &o.res) {
        (Err(E::Undef(_)), _) => Ok(()),
        (Ok(a), Ok(b)) => {
            if !a.same(b) {
                return fail("value", format!("read {b:?}, declared {a:?}; {}", here()));
            }
            if m.bits != o.bits {
                return fail("consumed", format!("{} bits consumed, declared {}; {}", o.bits, m.bits, here()));
            }
            if m.rest != o.rest {
                return fail("unread bits", format!("unread bits {:?}, declared {:?}; {}", o.rest, m.rest, here()));
            }
            if m.next != o.pos {
                return fail("position", format!("input left at {}, declared {}; {}", o.pos, m.next, here()));
            }
            Ok(())
        }
        (Err(e), Err(x)) => {
            if !e.admits(x) {
                return fail(format!("error {} for {e:?}", class(x)), format!("failed with {x:?}, declared {e:?}; {}", here()));
            }
            Ok(())
        }
        (Ok(a), Err(x)) => fail(format!("refused: {}", class(x)), format!("failed with {x:?}, declared {a:?}; {}", here())),
        (Err(e), Ok(b)) => fail(format!("accepted: {e:?}"), format!("read {b:?}, declared {e:?}; {}", here())),
    }
}
/// Were enough features at work, among them one the check is about?
fn at_work(seen: &interp::Seen, need: Need) -> bool {
    seen.len() >= 2 && (need.is_empty() || need.iter().any(|n| seen.contains(n)))
}
/// Features of which a non-trivial case exercises at least one; empty: any.
pub type Need = &'static [&'static str];
pub fn read_case(f: Fam, table: &[(usize, WrOps)], need: Need, s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, WrOps { read: run, .. }) = table[s.below(table.len())];
    let data = interp::input(f.0, d, s);
    let m = interp::read(f.0, d, &data);
    if let Err(E::Undef(why)) = m.res {
        cx.tag(format!("undefined: {why}"));
        cx.discard();
        return Ok(());
    }
    let o = run(&data);
    cx.note(|| format!("declaration {} input {} -> {}", f.0.defs[d].name, hex(&data), short(&o.res)));
    for t in &m.seen {
        cx.tag(*t);
    }
    match &m.res {
        Ok(v) => {
            cx.tag("accepted");
            cx.nontrivial(v.weight() >= 2 && at_work(&m.seen, need));
        }
        Err(e) => {
            cx.tag(format!("{e:?}"));
            cx.nontrivial(*e != E::Incomplete && at_work(&m.seen, need));
        }
    }
    cx.fp(&(d, &data));
    compare(f, d, &data, &m, &o)
}

#[derive(Clone, Copy)]
pub struct WrOps {
    pub read: ReadFn,
    pub write: fn(&Val) -> WriteObs,
}
/// Write a value; the reference gets it with sets in the order they were iterated.
/// `None`: no documented meaning.
pub fn written(f: Fam, d: usize, v: &Val, ops: WrOps, cx: &mut Cx) -> Option<(Val, interp::WriteOut, WriteObs)> {
    if let Err(E::Undef(why)) = interp::write(f.0, d, v).res {
        cx.tag(format!("undefined: {why}"));
        cx.discard();
        return None;
    }
    let o = (ops.write)(v);
    let m = interp::write(f.0, d, &o.val);
    if m.res.as_ref().is_err_and(|e| e.undef()) {
        cx.discard();
        return None;
    }
    Some((o.val.clone(), m, o))
}
/// Compare what was written with the reference.
pub fn compare_written(f: Fam, d: usize, v: &Val, m: &interp::WriteOut, o: &Result<Vec<u8>, deku::DekuError>) -> Result<(), Fail> {
    let here = || format!("value {v:?}; declaration:\n{}", f.decl(d));
    match (&m.res, o) {
        (Err(E::Undef(_)), _) => Ok(()),
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Ok(a), Ok(b)) => fail("output", format!("wrote {}, declared {}; {}", hex(b), hex(a), here())),
        (Err(e), Err(x)) if e.admits(x) => Ok(()),
        (Err(e), Err(x)) => fail(format!("error {} for {e:?}", class(x)), format!("failed with {x:?}, declared {e:?}; {}", here())),
        (Ok(a), Err(x)) => fail(format!("refused: {}", class(x)), format!("failed with {x:?}, declared {}; {}", hex(a), here())),
        (Err(e), Ok(b)) => fail(format!("accepted: {e:?}"), format!("wrote {}, declared {e:?}; {}", hex(b), here())),
    }
}
fn tags(cx: &mut Cx, seen: &interp::Seen) {
    for t in seen {
        cx.tag(*t);
    }
}
pub fn write_case(f: Fam, table: &[(usize, WrOps)], need: Need, s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, ops) = table[s.below(table.len())];
    let v = interp::value(f.0, d, s);
    let Some((v, m, o)) = written(f, d, &v, ops, cx) else { return Ok(()) };
    cx.note(|| format!("declaration {} value {v:?} -> {:?}", f.0.defs[d].name, o.res.as_ref().map(|b| hex(b))));
    tags(cx, &m.seen);
    match &m.res {
        Ok(_) => cx.tag("written"),
        Err(e) => cx.tag(format!("{e:?}")),
    }
    cx.nontrivial(v.weight() >= 2 && at_work(&m.seen, need));
    cx.fp(&(d, &v));
    compare_written(f, d, &v, &m, &o.res)?;
    if m.res.is_ok() && o.bits != m.bits {
        return fail("bits written", format!("{} bits counted, {} declared; value {v:?}; declaration:\n{}", o.bits, m.bits, f.decl(d)));
    }
    let again = (ops.write)(&v);
    if again.val == v && (again.res.is_ok() != o.res.is_ok() || again.res.ok() != o.res.ok()) {
        return fail("not deterministic", format!("value {v:?}; declaration:\n{}", f.decl(d)));
    }
    Ok(())
}
pub fn round_case(f: Fam, table: &[(usize, WrOps)], need: Need, s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, ops) = table[s.below(table.len())];
    let here = |x: String| format!("{x}; declaration:\n{}", f.decl(d));
    // from the input
    let data = interp::input(f.0, d, s);
    if interp::read(f.0, d, &data).mixed {
        cx.tag("undefined: bit orders mixed within a byte");
        cx.discard();
        return Ok(());
    }
    let r = (ops.read)(&data);
    cx.fp(&(d, &data));
    let Ok(v) = r.res else {
        cx.tag("not accepted");
        return Ok(());
    };
    let Some((v, m, o)) = written(f, d, &v, ops, cx) else { return Ok(()) };
    tags(cx, &m.seen);
    cx.nontrivial(v.weight() >= 2 && at_work(&m.seen, need));
    cx.note(|| format!("declaration {} input {} -> {v:?} -> {:?}", f.0.defs[d].name, hex(&data), o.res.as_ref().map(|b| hex(b))));
    match o.res {
        Err(e) => {
            // a type may hold less than its declared sizes ask for only by its own fault
            fail(format!("decoded value not writable: {}", class(&e)), here(format!("read {v:?} from {}, writing fails with {e:?}", hex(&data))))
        }
        Ok(b) => {
            let back = (ops.read)(&b);
            match back.res {
                Ok(w) if w.same(&v) => {
                    if (back.bits) != r.bits {
                        return fail("round trip length", here(format!("{} bits read, {} written, from {} to {}", r.bits, back.bits, hex(&data), hex(&b))));
                    }
                    Ok(())
                }
                x => fail("round trip", here(format!("read {v:?} from {}, wrote {}, read back {}", hex(&data), hex(&b), short(&x)))),
            }
        }
    }
}

/// The entries of a table whose declarations read and write alike.
pub fn symmetric<T: Copy>(f: Fam, table: &[(usize, T)]) -> Vec<(usize, T)> {
    table.iter().filter(|(d, _)| interp::symmetric(f.0, *d)).copied().collect()
}

/// The usual legs on a family: reading, writing, round trips of those that read and write alike.
pub fn legs(f: Fam, table: &'static [(usize, WrOps)], need: Need, quick: [u64; 3]) -> Vec<Leg> {
    let sym: &'static [(usize, WrOps)] = Box::leak(symmetric(f, table).into_boxed_slice());
    let mut v = vec![
        Leg::new("read", quick[0], quick[0] * 20, move |s, cx| read_case(f, table, need, s, cx)),
        Leg::new("write", quick[1], quick[1] * 20, move |s, cx| write_case(f, table, need, s, cx)),
    ];
    if !sym.is_empty() {
        v.push(Leg::new("round-trip", quick[2], quick[2] * 20, move |s, cx| round_case(f, sym, need, s, cx)));
    }
    v.retain(|l| l.quick > 0);
    v
}
/// `each!(wr_ops)`: the operations of every root.
#[macro_export]
macro_rules! wr_ops { ($t:ty, $d:expr, $k:ident, $i:ty) => { ($d, $crate::fam::WrOps { read: $crate::ops::read::<$t>, write: $crate::ops::write::<$t> }) } }
