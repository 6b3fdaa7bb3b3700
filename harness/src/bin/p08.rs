//! P08: truncated and extended inputs of generated declarations.
macro_rules! p08 { ($t:ty, $d:expr, $k:ident, $i:ty) => { ($d, crate::Ops { read: vh::ops::read::<$t>, from_bytes: vh::ops::from_bytes::<$t>, from_reader: vh::ops::from_reader::<$t>, many: vh::ops::read_many::<$t> }) } }
mod ends {
    include!(concat!(env!("OUT_DIR"), "/p08a.rs"));
    pub fn table() -> Vec<(usize, crate::Ops)> {
        each!(p08)
    }
}
mod plain {
    include!(concat!(env!("OUT_DIR"), "/p08.rs"));
    pub fn table() -> Vec<(usize, crate::Ops)> {
        each!(p08)
    }
}
use plain::{SCALE, SEED};
use deku::DekuError;
use vh::fam::{self, Fam};
use vh::interp::{self, class, E};
use vh::io::RStream;
use vh::model::hex;
use vh::ops::{self, ReadObs, Rest};
use vh::val::Val;
use vh::{fail, Check, Cx, Fail, Leg, Src};

#[derive(Clone, Copy)]
struct Ops {
    read: fn(&[u8]) -> ReadObs,
    from_bytes: fn(&[u8], usize) -> Rest,
    from_reader: fn(&mut RStream, usize) -> Result<(usize, Val), DekuError>,
    many: fn(&[u8], usize, usize) -> Vec<ReadObs>,
}

/// Only an incomplete input, asking for something, is the right answer to a truncated one.
fn incomplete<T: std::fmt::Debug>(how: &str, r: Result<T, DekuError>, here: &dyn Fn() -> String) -> Result<(), Fail> {
    match r {
        Err(DekuError::Incomplete(n)) if n.bit_size() >= 1 => Ok(()),
        Err(DekuError::Incomplete(_)) => fail("asks for nothing", format!("{how}: {}", here())),
        Err(e) => fail(format!("truncated input: {}", class(&e)), format!("{how} failed with {e:?}; {}", here())),
        Ok(v) => fail("value from truncated input", format!("{how} gave {v:?}; {}", here())),
    }
}

/// Inputs the declaration accepts whatever follows: what the model consumed, in bits, and the value.
fn usable(f: Fam, d: usize, data: &[u8], cx: &mut Cx) -> Option<(Val, usize)> {
    let m = interp::read(f.0, d, data);
    if let Err(E::Undef(_)) = m.res {
        cx.discard();
        return None;
    }
    for t in &m.seen {
        cx.tag(*t);
    }
    match m.res {
        Ok(_) if m.end_matters || m.seeks => {
            cx.tag("depends on the end, or seeks");
            None
        }
        Ok(v) => Some((v, m.bits)),
        Err(_) => {
            cx.tag("not accepted");
            None
        }
    }
}

fn cut(f: Fam, table: &[(usize, Ops)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let data = interp::input(f.0, d, s);
    cx.fp(&(d, &data));
    let Some((v, bits)) = usable(f, d, &data, cx) else { return Ok(()) };
    let need = bits.div_ceil(8);
    cx.nontrivial(need >= 2 && v.weight() >= 2);
    cx.note(|| format!("declaration {} input {} -> {v:?}, {bits} bits; all shorter inputs incomplete", f.0.defs[d].name, hex(&data)));
    // every prefix, or a sample of a long one
    let step = need / 40 + 1;
    let first = s.below(step);
    for k in (first..need).step_by(step).chain(need.checked_sub(1)) {
        let part = &data[..k];
        let here = || format!("{k} of the {need} bytes of {} needed; declaration:\n{}", hex(&data), f.decl(d));
        cx.sub += 4;
        let r = (o.read)(part);
        incomplete("the reader", r.res, &here)?;
        incomplete("from_bytes", (o.from_bytes)(part, 0), &here)?;
        let mut st = RStream::new(part);
        incomplete("from_reader", (o.from_reader)(&mut st, 0), &here)?;
        let r = (o.many)(part, 0, 1).pop().unwrap();
        incomplete("the reader of a stream", r.res, &here)?;
    }
    Ok(())
}

/// The same at a bit offset, by way of the continuation of `from_bytes`.
fn cut_at(f: Fam, table: &[(usize, Ops)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let off = s.range(1, 7);
    let mut data = interp::input(f.0, d, s);
    // shift the input by the offset
    let mut bits: Vec<bool> = (0..off).map(|_| s.chance(1, 2)).collect();
    bits.extend(data.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)));
    while bits.len() % 8 != 0 {
        bits.push(false);
    }
    data = bits.chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u8)).collect();
    cx.fp(&(d, off, &data));
    let m = interp::read_at(f.0, d, &data, off);
    let Ok(v) = &m.res else {
        if m.res.is_err_and(|e| e.undef()) {
            cx.discard();
        }
        return Ok(());
    };
    if m.end_matters || m.seeks {
        return Ok(());
    }
    let need = m.bits.div_ceil(8);
    cx.nontrivial(need >= 2 && v.weight() >= 2);
    cx.note(|| format!("declaration {} input {} at bit {off} -> {v:?}; all shorter inputs incomplete", f.0.defs[d].name, hex(&data)));
    let step = need / 20 + 1;
    // the offset itself has to be there
    for k in (1..need).step_by(step).chain(need.checked_sub(1).filter(|k| *k > 0)) {
        let part = &data[..k];
        let here = || format!("{k} of the {need} bytes of {} needed, from bit {off}; declaration:\n{}", hex(&data), f.decl(d));
        cx.sub += 3;
        incomplete("from_bytes", (o.from_bytes)(part, off), &here)?;
        let mut st = RStream::new(part);
        incomplete("from_reader", (o.from_reader)(&mut st, off), &here)?;
        let r = (o.many)(part, off, 1).pop().unwrap();
        incomplete("the reader of a stream", r.res, &here)?;
    }
    Ok(())
}

fn extend(f: Fam, table: &[(usize, Ops)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let mut data = interp::input(f.0, d, s);
    cx.fp(&(d, &data));
    let Some((v, bits)) = usable(f, d, &data, cx) else { return Ok(()) };
    let need = bits.div_ceil(8);
    cx.nontrivial(need >= 1 && v.weight() >= 2);
    // what follows the consumed part, and the bits after it in its last byte, are arbitrary
    data.truncate(need);
    let base = (o.read)(&data);
    let here = |x: &[u8]| format!("input {} -> {}, with more data {}; declaration:\n{}", hex(&data), fam::short(&base.res), hex(x), f.decl(d));
    let Ok(v0) = &base.res else { return fail("refused at its own length", here(&data)) };
    if !v0.same(&v) || base.bits != bits {
        return fail("value", here(&data));
    }
    cx.note(|| format!("declaration {} input {} -> {v0:?}, the same with more data", f.0.defs[d].name, hex(&data)));
    for _ in 0..3 {
        let mut more = data.clone();
        let n = s.below(12);
        let b = s.bytes(n);
        more.extend(b);
        cx.sub += 3;
        let r = (o.read)(&more);
        match &r.res {
            Ok(w) if w.same(v0) => {}
            _ => return fail("more data changes the value", format!("{}: {}", fam::short(&r.res), here(&more))),
        }
        if r.bits != base.bits || r.rest != base.rest || r.pos != base.pos {
            return fail("more data changes what is consumed", format!("{} bits, position {}: {}", r.bits, r.pos, here(&more)));
        }
        match (o.from_bytes)(&more, 0) {
            Ok((at, bit, w)) if w.same(v0) && at * 8 + bit == bits => {}
            x => return fail("more data changes from_bytes", format!("{x:?}: {}", here(&more))),
        }
        let mut st = RStream::new(&more);
        match (o.from_reader)(&mut st, 0) {
            Ok((n, w)) if w.same(v0) && n == bits => {}
            x => return fail("more data changes from_reader", format!("{x:?}: {}", here(&more))),
        }
        if st.pos != base.pos {
            return fail("more data is consumed", format!("stream at {}, {} expected: {}", st.pos, base.pos, here(&more)));
        }
    }
    Ok(())
}

/// Collections that read to the end: inputs that end within an element.
fn to_end(f: Fam, table: &[(usize, Ops)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let data = interp::input(f.0, d, s);
    cx.fp(&(d, &data));
    let m = interp::read(f.0, d, &data);
    if m.res.as_ref().is_err_and(|e| e.undef()) {
        cx.discard();
        return Ok(());
    }
    let Ok(v) = &m.res else {
        cx.tag("not accepted");
        return Ok(());
    };
    if !m.end_matters {
        cx.tag("does not look at the end");
        return Ok(());
    }
    let need = data.len();
    let step = need / 40 + 1;
    let first = s.below(step);
    let mut inside = 0;
    for k in (first..need).step_by(step).chain(need.checked_sub(1)) {
        let part = &data[..k];
        let here = || format!("{k} of the {need} bytes of {}; declaration:\n{}", hex(&data), f.decl(d));
        match interp::read(f.0, d, part).res {
            Err(E::Incomplete) => {
                inside += 1;
                cx.sub += 4;
                incomplete("the reader", (o.read)(part).res, &here)?;
                incomplete("from_bytes", (o.from_bytes)(part, 0), &here)?;
                let mut st = RStream::new(part);
                incomplete("from_reader", (o.from_reader)(&mut st, 0), &here)?;
                incomplete("the reader of a stream", (o.many)(part, 0, 1).pop().unwrap().res, &here)?;
            }
            Ok(w) => {
                cx.sub += 1;
                match (o.read)(part).res {
                    Ok(x) if x.same(&w) => {}
                    x => return fail("an input ending between elements", format!("{}, declared {w:?}: {}", fam::short(&x), here())),
                }
            }
            Err(_) => {}
        }
    }
    cx.tag_if(inside > 0, "ends within an element");
    cx.nontrivial(inside > 0 && v.weight() >= 2);
    cx.note(|| format!("declaration {} input {} -> {v:?}; {inside} ends within an element", f.0.defs[d].name, hex(&data)));
    Ok(())
}
fn main() {
    let fa = Fam::new("P08A", SEED, SCALE);
    let ends: &'static [(usize, Ops)] = Box::leak(ends::table().into_boxed_slice());
    let f = Fam::new("P08", SEED, SCALE);
    let table: &'static [(usize, Ops)] = Box::leak(plain::table().into_boxed_slice());
    vh::engine::main(Check {
        property: "P08",
        rule: "the input is accepted, whatever follows it or to its end, with at least two leaves, and needs at least two bytes (one where data is appended; where the end matters, some prefix ends within an element)",
        assumptions: vec![fam::ASSUME, "whether the outcome depends on the end of the input is decided by the reference interpreter: reads to the end and seeks do"],
        legs: vec![
            Leg::new("cut", 300000, 6000000, move |s, cx| cut(f, table, s, cx)),
            Leg::new("cut-at-offset", 200000, 4000000, move |s, cx| cut_at(f, table, s, cx)),
            Leg::new("to-end", 300000, 6000000, move |s, cx| to_end(fa, ends, s, cx)),
            Leg::new("extend", 300000, 6000000, move |s, cx| extend(f, table, s, cx)),
        ],
    })
}
