//! P09: hostile input into generated declarations and built-in types.
include!(concat!(env!("OUT_DIR"), "/p09.rs"));
use deku::ctx::{BitSize, ByteSize, Endian, Limit, Order, ReadExact};
use deku::no_std_io::Cursor;
use deku::reader::Reader;
use deku::{DekuError, DekuReader};
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::sync::Arc;
use vh::alloc::{measure, Usage};
use vh::engine::guard;
use vh::fam::{self, Fam};
use vh::interp;
use vh::io::{OnlyRead, RStream};
use vh::model::hex;
use vh::ops::{self, ReadObs, Rest};
use vh::val::{Det, Val};
use vh::{fail, Check, Cx, Fail, Leg, Src};

/// Memory a decode may ask for: a constant, and a multiple of the input.
const CONST: usize = 2 << 20;
const PER_BYTE: usize = 32 << 10;

#[derive(Clone, Copy)]
struct Ops {
    read: fn(&[u8]) -> (ReadObs, Usage),
    from_bytes: fn(&[u8], usize) -> Rest,
    from_reader: fn(&mut RStream, usize) -> Result<(usize, Val), DekuError>,
    noseek: fn(&mut OnlyRead) -> ReadObs,
    try_from: fn(&[u8]) -> Result<Val, DekuError>,
}
macro_rules! p09 { ($t:ty, $d:expr, $k:ident, $i:ty) => { ($d, Ops { read: ops::read_measured::<$t>, from_bytes: ops::from_bytes::<$t>, from_reader: ops::from_reader::<$t>, noseek: ops::read_noseek::<$t>, try_from: ops::try_from::<$t> }) } }

fn bounded(u: Usage, len: usize, here: &dyn Fn() -> String) -> Result<(), Fail> {
    let cap = CONST + PER_BYTE * len;
    if u.max_request > cap || u.peak > cap {
        return fail("memory", format!("{} bytes live at once, largest request {}, for {len} bytes of input; {}", u.peak, u.max_request, here()));
    }
    Ok(())
}
fn calm<T>(r: Result<T, String>, here: &dyn Fn() -> String) -> Result<T, Fail> {
    r.or_else(|m| fail(format!("panic:{}", m.chars().filter(|c| !c.is_ascii_digit()).take(100).collect::<String>()), format!("{m}; {}", here())))
}
/// Inputs meant to hurt.
fn nasty(f: Fam, d: usize, s: &mut Src) -> Vec<u8> {
    let mut data = match s.below(6) {
        0 => {
            let n = s.below(40);
            s.bytes(n)
        }
        1 => vec![0xff; s.below(24)],
        2 => {
            let n = s.below(24);
            (0..n).map(|_| *s.pick(&[0u8, 0xff, 0x7f, 0x80, 1])).collect()
        }
        _ => interp::input(f.0, d, s),
    };
    if s.chance(1, 3) && !data.is_empty() {
        // a claim somewhere becomes enormous
        let i = s.below(data.len());
        let n = (1 + s.below(8)).min(data.len() - i);
        let with = *s.pick(&[0xff, 0x7f, 0x80, 0xfe]);
        data[i..i + n].iter_mut().for_each(|b| *b = 0xff);
        data[i] = with;
    }
    data
}
fn derived(f: Fam, table: &[(usize, Ops)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let data = nasty(f, d, s);
    let off = if s.chance(1, 8) { *s.pick(&[8, 9, 1000, usize::MAX, usize::MAX - 7, 1 << 61]) } else { s.below(8) };
    cx.fp(&(d, &data));
    let here = || format!("input {} (offset {off}); declaration:\n{}", hex(&data), f.decl(d));
    let m = interp::read(f.0, d, &data);
    for t in &m.seen {
        cx.tag(*t);
    }
    // the interesting ones claim an amount or break a rule
    let claims = ["count", "byte budget", "bit budget", "padding", "seek", "string", "until", "read to end", "enum", "reduced size"];
    cx.nontrivial(!data.is_empty() && m.seen.iter().any(|t| claims.contains(t)));
    cx.note(|| format!("declaration {} input {}", f.0.defs[d].name, hex(&data)));
    let (r, u) = calm(guard(|| (o.read)(&data)), &here)?;
    cx.tag(match &r.res {
        Ok(_) => "accepted".to_string(),
        Err(e) => interp::class(e),
    });
    bounded(u, data.len(), &here)?;
    cx.sub += 5;
    let (_, u) = measure(|| calm(guard(|| (o.from_bytes)(&data, off).is_ok()), &here));
    bounded(u, data.len(), &here)?;
    calm(guard(|| (o.from_bytes)(&data, off).is_ok()), &here)?;
    let mut st = RStream::new(&data);
    if s.chance(1, 2) {
        st.chunks = (0..1 + s.below(4)).map(|_| s.below(4)).chain([1]).collect();
    }
    let mut st2 = st.clone();
    let (x, u) = measure(|| calm(guard(|| (o.from_reader)(&mut st, off).is_ok()), &here));
    x?;
    bounded(u, 2 * data.len(), &here)?;
    let (x, u) = measure(|| calm(guard(|| (o.try_from)(&data).is_ok()), &here));
    x?;
    bounded(u, data.len(), &here)?;
    st2.seekable = false;
    let mut only = OnlyRead(st2);
    let (x, u) = measure(|| calm(guard(|| (o.noseek)(&mut only).res.is_ok()), &here));
    x?;
    bounded(u, 2 * data.len(), &here)
}

type Run = fn(&mut Reader<&mut RStream>, usize, usize) -> Result<usize, DekuError>;
/// What is decoded, given an enormous amount and a small number.
fn builtins() -> Vec<(&'static str, Run)> {
    let mut v: Vec<(&'static str, Run)> = vec![];
    macro_rules! coll { ($($t:ty, $e:ty;)*) => { $(
        v.push((concat!(stringify!($t), " count"), |r, n, _| <$t>::from_reader_with_ctx(r, (Limit::<$e, fn(&$e) -> bool>::new_count(n), ())).map(|v| v.len())));
        v.push((concat!(stringify!($t), " bits"), |r, n, _| <$t>::from_reader_with_ctx(r, (Limit::<$e, fn(&$e) -> bool>::new_bit_size(BitSize(n)), ())).map(|v| v.len())));
        v.push((concat!(stringify!($t), " bytes"), |r, n, _| <$t>::from_reader_with_ctx(r, (Limit::<$e, fn(&$e) -> bool>::new_byte_size(ByteSize(n)), ())).map(|v| v.len())));
        v.push((concat!(stringify!($t), " until never"), |r, _, _| <$t>::from_reader_with_ctx(r, (Limit::new_until(|_: &$e| false), ())).map(|v| v.len())));
        v.push((concat!(stringify!($t), " to end"), |r, _, _| <$t>::from_reader_with_ctx(r, (Limit::<$e, fn(&$e) -> bool>::end(), ())).map(|v| v.len())));
    )* } }
    coll! { Vec<u8>, u8; Vec<u16>, u16; Vec<u128>, u128; Vec<bool>, bool; Vec<(u8, u64)>, (u8, u64); Vec<[u8; 7]>, [u8; 7]; Vec<CString>, CString; Vec<()>, ();
        Vec<[u8; 0]>, [u8; 0]; Vec<[u32; 100]>, [u32; 100]; Vec<Box<u32>>, Box<u32>; Vec<std::net::Ipv6Addr>, std::net::Ipv6Addr; Vec<core::num::NonZeroU16>, core::num::NonZeroU16;
        Box<[u8]>, u8; Box<[u64]>, u64; Arc<[u8]>, u8; Arc<[u32]>, u32; HashSet<u8, Det>, u8; HashSet<u64, Det>, u64; }
    macro_rules! map { ($($k:ty, $x:ty;)*) => { $(
        v.push((concat!("map ", stringify!($k), " to ", stringify!($x), " count"), |r, n, _| HashMap::<$k, $x, Det>::from_reader_with_ctx(r, (Limit::<($k, $x), fn(&($k, $x)) -> bool>::new_count(n), ())).map(|v| v.len())));
        v.push((concat!("map ", stringify!($k), " to ", stringify!($x), " bits"), |r, n, _| HashMap::<$k, $x, Det>::from_reader_with_ctx(r, (Limit::<($k, $x), fn(&($k, $x)) -> bool>::new_bit_size(BitSize(n)), ())).map(|v| v.len())));
        v.push((concat!("map ", stringify!($k), " to ", stringify!($x), " bytes"), |r, n, _| HashMap::<$k, $x, Det>::from_reader_with_ctx(r, (Limit::<($k, $x), fn(&($k, $x)) -> bool>::new_byte_size(ByteSize(n)), ())).map(|v| v.len())));
    )* } }
    map! { u8, u8; u16, u128; u32, [u64; 20]; }
    macro_rules! num { ($($t:ty),*) => { $(
        v.push((concat!(stringify!($t), " in bits"), |r, n, k| <$t>::from_reader_with_ctx(r, (if k & 1 == 0 { Endian::Big } else { Endian::Little }, BitSize(n), if k & 2 == 0 { Order::Msb0 } else { Order::Lsb0 })).map(|_| 0)));
        v.push((concat!(stringify!($t), " in bytes"), |r, n, k| <$t>::from_reader_with_ctx(r, (if k & 1 == 0 { Endian::Big } else { Endian::Little }, ByteSize(n), if k & 2 == 0 { Order::Msb0 } else { Order::Lsb0 })).map(|_| 0)));
    )* } }
    num!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    v.push(("counted numbers of huge size", |r, n, k| Vec::<u32>::from_reader_with_ctx(r, (Limit::<u32, fn(&u32) -> bool>::new_count(k), (Endian::Big, BitSize(n.max(1))))).map(|v| v.len())));
    v.push(("huge count of small numbers", |r, n, k| Vec::<u64>::from_reader_with_ctx(r, (Limit::<u64, fn(&u64) -> bool>::new_count(n), (Endian::Big, BitSize(1 + k % 16)))).map(|v| v.len())));
    v.push(("string of huge size", |r, n, _| CString::from_reader_with_ctx(r, ByteSize(n)).map(|v| v.as_bytes().len())));
    v.push(("endless string", |r, _, _| CString::from_reader_with_ctx(r, ()).map(|v| v.as_bytes().len())));
    v.push(("exact bytes", |r, n, _| Vec::<u8>::from_reader_with_ctx(r, ReadExact(n)).map(|v| v.len())));
    v.push(("skipped bits", |r, n, k| r.skip_bits(n, if k & 1 == 0 { Order::Msb0 } else { Order::Lsb0 }).map(|_| 0)));
    // the caller of this one chose the amount, it is not decoded
    v.push(("raw bits", |r, n, k| r.read_bits(n % 100_000, if k & 1 == 0 { Order::Msb0 } else { Order::Lsb0 }).map(|b| b.map_or(0, |b| b.len()))));
    v
}
fn amount(s: &mut Src, len: usize) -> usize {
    match s.below(8) {
        0 => s.below(len * 8 + 20),
        1 => usize::MAX - s.below(9),
        2 => (usize::MAX >> s.below(6)) - s.below(9),
        3 => 1usize << s.below(64),
        4 => (1usize << s.below(64)).wrapping_sub(1 + s.below(8)),
        5 => u32::MAX as usize - s.below(3),
        6 => u16::MAX as usize + s.below(3),
        _ => isize::MAX as usize / (1 + s.below(40)) + s.below(20),
    }
}
fn builtin(table: &[(&'static str, Run)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (name, run) = table[s.below(table.len())];
    let n = s.below(60);
    let data = s.bytes(n);
    let n = amount(s, data.len());
    let k = s.below(64);
    let off = s.below(12);
    let order = if s.chance(1, 2) { Order::Msb0 } else { Order::Lsb0 };
    let here = || format!("{name}, amount {n}, number {k}, from bit {off}, of {}", hex(&data));
    let mut st = RStream::new(&data);
    if s.chance(1, 2) {
        st.chunks = (0..1 + s.below(4)).map(|_| s.below(4)).chain([1]).collect();
    }
    let ended = s.chance(1, 3);
    st.seekable = s.chance(2, 3);
    cx.fp(&(name, n, k, off, &data));
    cx.tag(name);
    cx.nontrivial(n > data.len() && !data.is_empty());
    cx.note(here);
    let (r, u) = measure(|| {
        guard(|| {
            let mut r = Reader::new(&mut st);
            r.skip_bits(off, order)?;
            if ended {
                // leaves a byte buffered
                r.end();
            }
            run(&mut r, n, k)
        })
    });
    let r = calm(r, &here)?;
    cx.tag_if(r.is_ok(), "accepted");
    bounded(u, data.len(), &here)?;
    // more elements than bits in the input cannot have been read
    if let Ok(l) = r {
        if l > data.len() * 8 {
            return fail("more elements than input", format!("{l} elements: {}", here()));
        }
    }
    // through a cursor as well
    let (r, u) = measure(|| {
        guard(|| {
            let mut c = Cursor::new(&data);
            let mut r = Reader::new(&mut c);
            r.skip_bits(off, order).is_ok()
        })
    });
    calm(r, &here)?;
    bounded(u, data.len(), &here)
}

fn main() {
    let f = Fam::new("P09", SEED, SCALE);
    let table: &'static [(usize, Ops)] = Box::leak(each!(p09).into_boxed_slice());
    let b: &'static [(&'static str, Run)] = Box::leak(builtins().into_boxed_slice());
    vh::engine::main(Check {
        property: "P09",
        rule: "the input is not empty and the declaration takes an amount, position or identifier from it; for built-in types, an amount larger than the input",
        assumptions: vec![
            fam::ASSUME,
            "the fixed constant is 2 MiB and the multiple 32 KiB per byte of input; nesting of declarations is bounded and elements take at least one bit",
        ],
        legs: vec![
            Leg::new("derived", 250000, 6000000, move |s, cx| derived(f, table, s, cx)),
            Leg::new("built-in", 250000, 6000000, move |s, cx| builtin(b, s, cx)),
        ],
    })
}
