//! P07: every entry point of generated declarations against the reference and each other.
include!(concat!(env!("OUT_DIR"), "/p07.rs"));
use deku::DekuError;
use vh::engine::{fail, Cx, Fail, Src};
use vh::fam::{self, Fam};
use vh::interp::{self, class, E};
use vh::io::RStream;
use vh::model::{bits_of, hex, number, Ord2};
use vh::ops::{self, ReadObs, WriteObs};
use vh::val::Val;
use vh::{Check, Leg};

type Got = Result<(Vec<u8>, usize, Val), DekuError>;
#[derive(Clone, Copy)]
struct Ops {
    read_many: fn(&[u8], usize, usize) -> Vec<ReadObs>,
    from_bytes: fn(&[u8], usize) -> Got,
    from_reader: fn(&mut RStream, usize) -> Result<(usize, Val), DekuError>,
    try_from: fn(&[u8]) -> Result<Val, DekuError>,
    write: fn(&Val) -> WriteObs,
    write_many: fn(&[Val]) -> (Vec<Val>, Result<Vec<u8>, DekuError>),
    to_bytes: fn(&Val) -> Result<Vec<u8>, DekuError>,
    to_bits: fn(&Val) -> Result<Vec<bool>, DekuError>,
    to_slice: fn(&Val, &mut [u8]) -> Result<usize, DekuError>,
    into_vec: fn(&Val) -> Result<Vec<u8>, DekuError>,
    into_bits: fn(&Val) -> Result<Vec<bool>, DekuError>,
}
macro_rules! all { ($t:ty, $d:expr, $k:ident, $i:ty) => { ($d, Ops {
    read_many: ops::read_many::<$t>,
    from_bytes: ops::from_bytes_rest::<$t>,
    from_reader: ops::from_reader::<$t>,
    try_from: ops::try_from::<$t>,
    write: ops::write::<$t>,
    write_many: ops::write_many::<$t>,
    to_bytes: ops::to_bytes::<$t>,
    to_bits: ops::to_bits::<$t>,
    to_slice: ops::to_slice::<$t>,
    into_vec: ops::into_vec::<$t>,
    into_bits: ops::into_bits::<$t>,
}) } }

/// `off` arbitrary bits, then the bits of `data`, then zeros up to a byte
fn shifted(off: usize, data: &[u8], s: &mut Src) -> Vec<u8> {
    let mut b: Vec<bool> = (0..off).map(|_| s.chance(1, 2)).collect();
    b.extend(data.iter().flat_map(|x| bits_of(*x as u128, 8, Ord2::Msb)));
    if off % 8 > 0 && s.chance(1, 2) {
        b.truncate(b.len() / 8 * 8);
    }
    pack(&b)
}
fn pack(b: &[bool]) -> Vec<u8> {
    b.chunks(8).map(|c| (number(c, Ord2::Msb) << (8 - c.len())) as u8).collect()
}
fn kind<T>(r: &Result<T, DekuError>) -> Option<String> {
    r.as_ref().err().map(class)
}

fn decode(f: Fam, table: &[(usize, Ops)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let off = match s.below(6) {
        0..=2 => 0,
        3 => s.below(8),
        4 => 8 * s.below(4),
        _ => s.below(40),
    };
    let data = interp::input(f.0, d, s);
    let data = if off == 0 { data } else { shifted(off, &data, s) };
    let m = interp::read_at(f.0, d, &data, off);
    if m.res.as_ref().is_err_and(|e| e.undef()) {
        cx.discard();
        return Ok(());
    }
    let here = |x: String| format!("{x}; input {} at bit {off}; declaration:\n{}", hex(&data), f.decl(d));
    cx.fp(&(d, &data, off));
    cx.nontrivial(m.seen.len() >= 2 && m.bits > off);
    cx.tag_if(off > 0, "bit offset");
    cx.tag(if m.res.is_ok() { "accepted" } else { "refused" });
    let many = (o.read_many)(&data, off, 1);
    let direct = &many[0];
    cx.note(|| format!("{} input {} at bit {off} -> {}", f.0.defs[d].name, hex(&data), fam::short(&direct.res)));
    fam::compare(f, d, &data, &m, direct)?;
    // from a slice
    match ((o.from_bytes)(&data, off), &direct.res) {
        (Ok((rest, bit, v)), Ok(w)) => {
            if !v.same(w) {
                return fail("from_bytes: value", here(format!("{v:?}, the reader gives {w:?}")));
            }
            if rest != data[direct.bits / 8..] || bit != direct.bits % 8 {
                return fail("from_bytes: remainder", here(format!("{} at bit {bit} remain after {} bits", hex(&rest), direct.bits)));
            }
        }
        (r, w) if r.is_err() && w.is_err() => {
            if kind(&r) != kind(w) {
                return fail("from_bytes: error", here(format!("{r:?}, the reader gives {w:?}")));
            }
        }
        (r, w) => return fail("from_bytes: outcome", here(format!("{r:?}, the reader gives {w:?}"))),
    }
    // from a stream
    let mut st = RStream::new(&data);
    match ((o.from_reader)(&mut st, off), &direct.res) {
        (Ok((n, v)), Ok(w)) => {
            if !v.same(w) {
                return fail("from_reader: value", here(format!("{v:?}, the reader gives {w:?}")));
            }
            if n != direct.bits {
                return fail("from_reader: amount", here(format!("{n} bits, the reader consumed {}", direct.bits)));
            }
            if st.pos != direct.pos {
                return fail("from_reader: position", here(format!("stream left at {}, {} with the reader", st.pos, direct.pos)));
            }
        }
        (r, w) if r.is_err() && w.is_err() => {
            if kind(&r) != kind(w) {
                return fail("from_reader: error", here(format!("{r:?}, the reader gives {w:?}")));
            }
        }
        (r, w) => return fail("from_reader: outcome", here(format!("{r:?}, the reader gives {w:?}"))),
    }
    // checked conversion
    if off == 0 {
        match ((o.try_from)(&data), &direct.res) {
            (Ok(v), Ok(w)) => {
                if !v.same(w) {
                    return fail("try_from: value", here(format!("{v:?}, the reader gives {w:?}")));
                }
                if direct.bits / 8 < data.len() {
                    return fail("try_from: trailing data accepted", here(format!("{} bits consumed", direct.bits)));
                }
            }
            (Err(e), Ok(_)) => {
                cx.tag("conversion refuses trailing data");
                if direct.bits == data.len() * 8 {
                    return fail("try_from: refused", here(format!("{e:?}, though everything was consumed")));
                }
                if !matches!(e, DekuError::Parse(_)) {
                    return fail("try_from: error for trailing data", here(format!("{e:?}")));
                }
            }
            (Ok(v), Err(e)) => return fail("try_from: outcome", here(format!("{v:?}, the reader fails with {e:?}"))),
            (r, w) => {
                if kind(&r) != kind(w) {
                    return fail("try_from: error", here(format!("{r:?}, the reader gives {w:?}")));
                }
            }
        }
    }
    Ok(())
}

/// Several values one after the other: one reader, and `from_bytes` on the remainders.
fn chain(f: Fam, table: &[(usize, Ops)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let k = 2 + s.below(3);
    let mut bits = vec![];
    for _ in 0..k {
        let data = interp::input(f.0, d, s);
        let m = interp::read(f.0, d, &data);
        if m.res.is_ok() && m.half == Ord2::Msb {
            let b: Vec<bool> = data.iter().flat_map(|x| bits_of(*x as u128, 8, Ord2::Msb)).collect();
            bits.extend_from_slice(&b[..m.bits.min(b.len())]);
        } else {
            // whole bytes keep their meaning only at a byte boundary
            while bits.len() % 8 != 0 {
                bits.push(false);
            }
            bits.extend(data.iter().flat_map(|x| bits_of(*x as u128, 8, Ord2::Msb)));
        }
    }
    let data = pack(&bits);
    let here = |x: String| format!("{x}; input {}; declaration:\n{}", hex(&data), f.decl(d));
    let cont = (o.read_many)(&data, 0, k);
    // the reference, continued in the same way
    let ctx = interp::root_ctx(f.0, d);
    let mut r = interp::Rd::new(f.0, &data);
    let mut at = (0usize, 0usize);
    let mut n = 0;
    cx.fp(&(d, &data));
    for c in &cont {
        let m = r.def(&f.0.defs[d], &ctx);
        if m.as_ref().is_err_and(|e| e.undef()) || r.mixed {
            cx.tag("stopped: no documented meaning");
            break;
        }
        match (&m, &c.res) {
            (Ok(a), Ok(b)) if a.same(b) && r.bits_read == c.bits => {}
            (Err(e), Err(x)) if e.admits(x) => {}
            (m, x) => return fail("continued reader", here(format!("value {n}: {x:?} after {} bits, declared {m:?} after {}", c.bits, r.bits_read))),
        }
        let slice = data.get(at.0..).unwrap_or(&[]);
        match ((o.from_bytes)(slice, at.1), &c.res) {
            (Ok((rest, bit, v)), Ok(w)) => {
                if !v.same(w) {
                    return fail("chained: value", here(format!("value {n} from byte {} bit {}: {v:?}, continuing gives {w:?}", at.0, at.1)));
                }
                at = (data.len() - rest.len(), bit);
                if at.0 * 8 + at.1 != c.bits {
                    return fail("chained: remainder", here(format!("value {n}: byte {} bit {bit}, continuing consumed {}", at.0, c.bits)));
                }
            }
            (a, b) => {
                if a.is_ok() != b.is_ok() || kind(&a) != kind(b) {
                    return fail("chained: outcome", here(format!("value {n} from byte {} bit {}: {a:?}, continuing gives {b:?}", at.0, at.1)));
                }
                break;
            }
        }
        n += 1;
        // a remainder counts from the top of a byte
        if r.lo != r.hi && r.half != Ord2::Msb {
            cx.tag("stopped: least significant first within a byte");
            break;
        }
    }
    cx.note(|| format!("{} input {} -> {n} values", f.0.defs[d].name, hex(&data)));
    cx.nontrivial(n >= 2 && at != (0, 0));
    cx.tag(format!("{n} values"));
    cx.tag_if(at.1 != 0, "partial bytes between values");
    Ok(())
}

fn encode(f: Fam, table: &[(usize, Ops)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let v = interp::value(f.0, d, s);
    if interp::write(f.0, d, &v).res.is_err_and(|e| e.undef()) {
        cx.discard();
        return Ok(());
    }
    let w = (o.write)(&v);
    let here = |x: String| format!("{x}; value {v:?}; declaration:\n{}", f.decl(d));
    cx.fp(&(d, &v));
    cx.nontrivial(v.weight() >= 2);
    cx.note(|| format!("{} value {v:?} -> {:?}", f.0.defs[d].name, w.res.as_ref().map(|b| hex(b))));
    let m = interp::write(f.0, d, &w.val);
    if m.res.as_ref().is_err_and(|e| e.undef()) {
        cx.discard();
        return Ok(());
    }
    fam::compare_written(f, d, &v, &m, &w.res)?;
    let same = |name: &str, r: Result<Vec<u8>, DekuError>| -> Result<(), Fail> {
        match (&r, &w.res) {
            (Ok(a), Ok(b)) if a == b => Ok(()),
            (Err(a), Err(b)) if class(a) == class(b) => Ok(()),
            (a, b) => fail(name, here(format!("{a:?}, the writer gives {b:?}"))),
        }
    };
    same("to_bytes", (o.to_bytes)(&v))?;
    same("Vec::try_from", (o.into_vec)(&v))?;
    for (name, r) in [("to_bits", (o.to_bits)(&v)), ("BitVec::try_from", (o.into_bits)(&v))] {
        match (&r, &w.res) {
            (Ok(a), Ok(b)) => {
                let whole = a.len() / 8;
                if a.len() != w.bits || pack(&a[..whole * 8]) != b[..whole] || a[whole * 8..] != w.rest[..] {
                    return fail(name, here(format!("{a:?}, the writer gives {} bits {}", w.bits, hex(b))));
                }
                cx.tag_if(a.len() % 8 != 0, "partial last byte");
            }
            (Err(a), Err(b)) if class(a) == class(b) => {}
            (a, b) => return fail(name, here(format!("{a:?}, the writer gives {b:?}"))),
        }
    }
    match &w.res {
        Ok(b) => {
            for n in [b.len(), b.len() + 1 + s.below(5), b.len().wrapping_sub(1), s.below(b.len() + 1)] {
                if n > b.len() + 10 {
                    continue;
                }
                let mut buf = vec![0xa5; n];
                match (o.to_slice)(&v, &mut buf) {
                    Ok(k) => {
                        if n < b.len() {
                            return fail("to_slice: too short a slice accepted", here(format!("{n} bytes for {}", hex(b))));
                        }
                        if k != b.len() {
                            return fail("to_slice: length", here(format!("{k} reported for {}", hex(b))));
                        }
                        if buf[..k] != b[..] || buf[k..].iter().any(|x| *x != 0xa5) {
                            return fail("to_slice: bytes", here(format!("{} instead of {}", hex(&buf), hex(b))));
                        }
                    }
                    Err(e) => {
                        cx.tag("slice too short");
                        if n >= b.len() {
                            return fail("to_slice: refused", here(format!("{e:?} with {n} bytes for {}", hex(b))));
                        }
                    }
                }
            }
        }
        Err(e) => {
            let mut buf = vec![0xa5; 400];
            match (o.to_slice)(&v, &mut buf) {
                Err(x) if class(&x) == class(e) => {}
                r => return fail("to_slice: error", here(format!("{r:?}, the writer gives {e:?}"))),
            }
        }
    }
    Ok(())
}

fn encode_many(f: Fam, table: &[(usize, Ops)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let v: Vec<Val> = (0..2 + s.below(3))
        .map(|_| interp::value(f.0, d, s))
        .collect();
    if let Err(E::Undef(_)) = interp::write_seq(f.0, d, &v) {
        cx.discard();
        return Ok(());
    }
    // sets in the order they are kept
    let (v, r) = (o.write_many)(&v);
    let m = interp::write_seq(f.0, d, &v);
    if let Err(E::Undef(_)) = m {
        cx.discard();
        return Ok(());
    }
    cx.fp(&(d, &v));
    cx.nontrivial(v.iter().map(|v| v.weight()).sum::<usize>() >= 2 && m.is_ok());
    cx.note(|| format!("{} values {v:?} -> {r:?}", f.0.defs[d].name));
    match (&m, &r) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Err(e), Err(x)) if e.admits(x) => Ok(()),
        (a, b) => fail("several values through one writer", format!("{b:?}, declared {a:?}; values {v:?}; declaration:\n{}", f.decl(d))),
    }
}

fn main() {
    let f = Fam::new("P07", SEED, SCALE);
    let table: &'static [(usize, Ops)] = Box::leak(each!(all).into_boxed_slice());
    vh::engine::main(Check {
        property: "P07",
        rule: "decoding: at least two attributes at work and something consumed; chains: at least two values; encoding: at least two leaves",
        assumptions: vec![fam::ASSUME, "a remainder is chained only when the partly read byte was taken most significant bit first, because a bit offset counts from the top"],
        legs: vec![
            Leg::new("decode", 200_000, 4_000_000, move |s, cx| decode(f, table, s, cx)),
            Leg::new("chain", 100_000, 2_000_000, move |s, cx| chain(f, table, s, cx)),
            Leg::new("encode", 150_000, 3_000_000, move |s, cx| encode(f, table, s, cx)),
            Leg::new("encode-many", 60_000, 1_000_000, move |s, cx| encode_many(f, table, s, cx)),
        ],
    })
}
