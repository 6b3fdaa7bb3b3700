//! P19: static sizes of generated declarations and of the library's types against what is encoded.
include!(concat!(env!("OUT_DIR"), "/p19.rs"));
use deku::prelude::*;
use vh::codec::Ty;
use vh::fam::{self, Fam, WrOps};
use vh::interp;
use vh::model::hex;
use vh::ops;
use vh::schema::{Body, Def, Ex, FTy, Field, IdTy, Schema, Size, Skip};
use vh::{fail, Check, Cx, Fail, Leg, Src};

#[derive(Clone, Copy)]
struct Ops {
    rw: WrOps,
    size: fn() -> (usize, Option<usize>),
}
macro_rules! p19 { ($t:ty, $d:expr, $k:ident, $i:ty) => { ($d, Ops { rw: WrOps { read: ops::read::<$t>, write: ops::write::<$t> }, size: ops::size::<$t> }) } }

/// Bits a value takes: the least and the most, over the variants of enums.
fn span_ty(s: &Schema, t: &FTy, z: &Size) -> (usize, usize) {
    let leaf = |t: &Ty| match z {
        Size::Bits(n) => *n,
        Size::Bytes(n) => n * 8,
        _ => t.w,
    };
    match t {
        FTy::Prim(t) => (leaf(t), leaf(t)),
        FTy::Array(t, n) => {
            let (a, b) = span_ty(s, t, z);
            (a * n, b * n)
        }
        FTy::Tuple(v) => v.iter().map(|t| span_ty(s, t, z)).fold((0, 0), |x, y| (x.0 + y.0, x.1 + y.1)),
        FTy::Def(d) => span(s, &s.defs[*d]),
        FTy::Unit => (0, 0),
        x => panic!("no fixed size: {x:?}"),
    }
}
fn span_body(s: &Schema, fs: &[Field]) -> (usize, usize) {
    let mut r = (0, 0);
    for f in fs {
        let pad: usize = [1, 8, 1, 8].iter().zip(&f.pad).map(|(m, e)| if let Some(Ex::K(k)) = e { m * *k as usize } else { 0 }).sum();
        let fixed = pad + f.magic.as_ref().map_or(0, |m| m.len() * 8);
        let (a, b) = if f.skip == Skip::All { (0, 0) } else { span_ty(s, &f.ty, &f.size) };
        r = (r.0 + fixed + a, r.1 + fixed + b);
    }
    r
}
fn span(s: &Schema, d: &Def) -> (usize, usize) {
    let m = d.magic.as_ref().map_or(0, |m| m.len() * 8);
    let (a, b) = match &d.body {
        Body::Struct { fields, .. } => span_body(s, fields),
        Body::Enum(e) => {
            let id = match &e.id {
                IdTy::Prim(t) => span_ty(s, &FTy::Prim(*t), &e.size).0,
                IdTy::Bytes(n) => n * 8,
                IdTy::Ctx(_) => 0,
            };
            // a stored identifier is the identifier itself
            let v: Vec<_> = e.variants.iter().map(|v| span_body(s, &v.fields[v.stores as usize..])).collect();
            (id + v.iter().map(|x| x.0).min().unwrap_or(0), id + v.iter().map(|x| x.1).max().unwrap_or(0))
        }
    };
    (m + a, m + b)
}
fn in_bytes((bits, bytes): (usize, Option<usize>)) -> bool {
    bytes == if bits % 8 == 0 { Some(bits / 8) } else { None }
}
/// Every declaration once per seed, then whatever values.
fn sized(f: Fam, table: &[(usize, Ops)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let def = &f.0.defs[d];
    let here = || f.decl(d);
    let z = (o.size)();
    let (lo, hi) = span(f.0, def);
    cx.tag(if lo == hi { "one size" } else { "several sizes" });
    if !in_bytes(z) {
        return fail("size in bytes", format!("{z:?}; declaration:\n{}", here()));
    }
    if z.0 != hi {
        return fail("static size", format!("{} bits, declared {hi}; declaration:\n{}", z.0, here()));
    }
    if s.chance(1, 2) {
        let v = interp::value(f.0, d, s);
        let Some((v, m, w)) = fam::written(f, d, &v, o.rw, cx) else { return Ok(()) };
        cx.fp(&(d, &v));
        cx.note(|| format!("{}: {z:?}, value {v:?} -> {:?}", def.name, w.res.as_ref().map(|b| hex(b))));
        let (Ok(_), Ok(b)) = (&m.res, &w.res) else {
            cx.tag("not writable");
            return Ok(());
        };
        cx.nontrivial(z.0 > 0 && v.weight() >= 2);
        if w.bits == z.0 {
            cx.tag("as large as the static size");
        }
        if w.bits > z.0 || lo == hi && w.bits != z.0 {
            return fail("encoded size", format!("{} bits written, static size {}; value {v:?}; declaration:\n{}", w.bits, z.0, here()));
        }
        if b.len() > z.0.div_ceil(8) {
            return fail("bytes written", format!("{} bytes written, static size {} bits; value {v:?}; declaration:\n{}", b.len(), z.0, here()));
        }
    } else {
        let data = interp::input(f.0, d, s);
        let m = interp::read(f.0, d, &data);
        if m.res.as_ref().is_err_and(|e| e.undef()) {
            cx.discard();
            return Ok(());
        }
        let r = (o.rw.read)(&data);
        cx.fp(&(d, &data));
        let Ok(v) = &r.res else {
            cx.tag("not accepted");
            return Ok(());
        };
        cx.nontrivial(z.0 > 0 && v.weight() >= 2);
        if r.bits > z.0 || lo == hi && r.bits != z.0 {
            return fail("decoded size", format!("{} bits read, static size {}; value {v:?} from {}; declaration:\n{}", r.bits, z.0, hex(&data), here()));
        }
    }
    Ok(())
}

// declarations the generator has no words for
#[derive(DekuRead, DekuWrite, DekuSize, Clone, Debug, PartialEq)]
#[deku(ctx = "which: u8", id = "which", ctx_default = "1")]
pub enum ByCaller {
    #[deku(id = 1)]
    A(u8),
    #[deku(id = 2)]
    B { x: u32, y: u16 },
    #[deku(id_pat = "_")]
    C(u16),
}
#[derive(DekuRead, DekuWrite, DekuSize, Clone, Debug, PartialEq)]
pub struct Generic<T: deku::DekuWriter<()> + for<'a> deku::DekuReader<'a, ()>> {
    pub a: T,
    #[deku(bits = 3, pad_bits_after = "5")]
    pub b: u8,
}
const N: usize = 5;
#[derive(DekuRead, DekuWrite, DekuSize, Clone, Debug, PartialEq)]
#[deku(magic = b"mg", endian = "big")]
pub struct Consts {
    #[deku(bits = "N")]
    pub a: u16,
    #[deku(bits = "N - 2")]
    pub b: [u8; 1],
    #[deku(bytes = "N - 2", pad_bytes_before = "N")]
    pub c: (u32, u64),
    pub d: [[u16; 2]; 3],
}
#[derive(DekuRead, DekuWrite, DekuSize, Clone, Copy, Debug, PartialEq)]
#[deku(id_type = "u16", bits = 3)]
#[repr(u16)]
pub enum Disc {
    A = 1,
    B,
    C = 7,
}
#[derive(DekuRead, DekuWrite, DekuSize, Clone, Debug, PartialEq)]
pub struct Nest {
    #[deku(bits = "5")]
    pub a: u8,
    pub d: Disc,
    pub g: [Disc; 8],
    pub e: (Disc, u8, bool),
}
#[derive(DekuRead, DekuWrite, DekuSize, Clone, Debug, PartialEq)]
pub struct Nothing;
#[derive(DekuRead, DekuWrite, DekuSize, Clone, Debug, PartialEq)]
pub struct Tup(pub u8, #[deku(bits = 24)] pub u32, #[deku(skip)] pub u64);
/// `deku_derive` removes the attributes, also for the derives below it
#[deku_derive(DekuRead, DekuWrite)]
#[derive(DekuSize, Clone, Debug, PartialEq)]
pub struct Stripped {
    #[deku(bits = 4)]
    pub a: u8,
    #[deku(bits = 12)]
    pub b: u16,
}

#[deku_derive(DekuRead, DekuWrite)]
#[derive(Clone, deku::DekuSize, Debug, PartialEq)]
#[deku(id_type = "u8", bits = 2, magic = b"e")]
pub enum StrippedEnum {
    #[deku(id = 1)]
    A {
        #[deku(temp, temp_value = "3", bits = 6)]
        n: u8,
        #[deku(bits = 8)]
        b: u16,
    },
    #[deku(id = 2)]
    B(#[deku(bits = 14)] u16),
}

type Built = (&'static str, (usize, Option<usize>), usize, fn(&mut Src) -> Result<(usize, usize), DekuError>);
/// Bits of a random value written, and of random bytes read; 0 where it is refused.
fn both<T>(make: fn(&mut Src) -> T, s: &mut Src) -> Result<(usize, usize), DekuError>
where
    T: DekuWriter<()> + for<'a> DekuReader<'a, ()>,
{
    let mut w = vec![];
    let mut c = deku::no_std_io::Cursor::new(&mut w);
    let mut wr = deku::writer::Writer::new(&mut c);
    make(s).to_writer(&mut wr, ())?;
    let bits = wr.bits_written + wr.rest().len();
    wr.finalize()?;
    let mut c = deku::no_std_io::Cursor::new(&w);
    let mut r = deku::reader::Reader::new(&mut c);
    T::from_reader_with_ctx(&mut r, ())?;
    Ok((bits, r.bits_read))
}
fn built() -> Vec<Built> {
    let mut v: Vec<Built> = vec![];
    macro_rules! b {
        ($t:ty, $bits:expr, $make:expr) => {
            v.push((stringify!($t), ops::size::<$t>(), $bits, |s| both::<$t>($make, s)))
        };
    }
    macro_rules! prims { ($($t:ident $n:expr),*) => { $(
        b!($t, $n, |s| s.int($n) as $t);
        b!([$t; 3], 3 * $n, |s| [s.int($n) as $t, 0 as $t, s.int($n) as $t]);
        b!([[$t; 2]; 4], 8 * $n, |s| [[s.int($n) as $t, 1 as $t]; 4]);
        b!([$t; 0], 0, |_| []);
        b!(($t,), $n, |s| (s.int($n) as $t,));
        b!(($t, u8, $t, bool), 2 * $n + 16, |s| (s.int($n) as $t, 3, 0 as $t, true));
    )* } }
    prims!(u8 8, u16 16, u32 32, u64 64, u128 128, usize 64, i8 8, i16 16, i32 32, i64 64, i128 128, isize 64, f32 32, f64 64);
    b!(bool, 8, |s| s.chance(1, 2));
    b!((u8, u16, u32), 56, |_| (1, 2, 3));
    b!((u8, u16, u32, u64, u128), 248, |_| (1, 2, 3, 4, 5));
    b!((u8, u8, u8, u8, u8, u16), 56, |_| (1, 2, 3, 4, 5, 6));
    b!((u8, u8, u8, u8, u8, u16, i8), 64, |_| (1, 2, 3, 4, 5, 6, 7));
    b!((u8, u8, u8, u8, u8, u16, i8, i64), 128, |_| (1, 2, 3, 4, 5, 6, 7, 8));
    b!((u8, u8, u8, u8, u8, u16, i8, i64, u8), 136, |_| (1, 2, 3, 4, 5, 6, 7, 8, 9));
    b!((u8, u8, u8, u8, u8, u16, i8, i64, u8, u32), 168, |_| (1, 2, 3, 4, 5, 6, 7, 8, 9, 10));
    b!((u8, u8, u8, u8, u8, u16, i8, i64, u8, u32, u16), 184, |_| (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11));
    b!(Consts, 16 + 5 + 3 + 40 + 48 + 96, |s| Consts { a: s.below(32) as u16, b: [s.below(8) as u8], c: (s.below(1 << 24) as u32, 1), d: [[s.int(16) as u16; 2]; 3] });
    b!(Disc, 3, |s| [Disc::A, Disc::B, Disc::C][s.below(3)]);
    b!(Nest, 5 + 3 + 24 + 19, |s| Nest { a: s.below(32) as u8, d: Disc::B, g: [Disc::C; 8], e: (Disc::A, s.int(8) as u8, true) });
    b!(Nothing, 0, |_| Nothing);
    b!(Tup, 32, |s| Tup(s.int(8) as u8, s.below(1 << 24) as u32, 0));
    b!(Generic<u8>, 16, |s| Generic { a: s.int(8) as u8, b: 5 });
    b!(Generic<[u16; 3]>, 56, |s| Generic { a: [s.int(16) as u16; 3], b: 5 });
    b!(Generic<Consts>, 208 + 8, |s| Generic { a: Consts { a: s.below(32) as u16, b: [0], c: (1, 1), d: [[0; 2]; 3] }, b: 5 });
    b!(Stripped, 16, |s| Stripped { a: s.below(16) as u8, b: s.below(4096) as u16 });
    b!(StrippedEnum, 24, |s| if s.chance(1, 2) { StrippedEnum::A { b: s.below(256) as u16 } } else { StrippedEnum::B(s.below(1 << 14) as u16) });
    v
}
fn library(v: &[Built], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let i = s.below(v.len() + 1);
    if i == v.len() {
        // the size of an enum chosen by its caller has no identifier in it
        let z = ops::size::<ByCaller>();
        cx.nontrivial(true);
        if z != (48, Some(6)) {
            return fail("static size of ByCaller", format!("{z:?}, declared 48 bits"));
        }
        let x = [ByCaller::A(1), ByCaller::B { x: 1, y: 2 }, ByCaller::C(3)][s.below(3)].clone();
        return match x.to_bits() {
            Ok(b) if b.len() <= 48 => Ok(()),
            x => fail("encoded size of ByCaller", format!("{x:?}")),
        };
    }
    let (name, z, bits, run) = &v[i];
    cx.tag(*name);
    cx.nontrivial(*bits > 0);
    let seen = run(s);
    cx.note(|| format!("{name}: {z:?}, {seen:?} bits written and read"));
    cx.fp(&(i, &s.rec));
    if !in_bytes(*z) {
        return fail(format!("size in bytes of {name}"), format!("{z:?}"));
    }
    if z.0 != *bits {
        return fail(format!("static size of {name}"), format!("{} bits, declared {bits}", z.0));
    }
    match seen {
        Ok((w, r)) if w == z.0 && r == z.0 => Ok(()),
        x => fail(format!("encoded size of {name}"), format!("static size {}, written and read {x:?}", z.0)),
    }
}

fn main() {
    let f = Fam::new("P19", SEED, SCALE);
    let table: &'static [(usize, Ops)] = Box::leak(each!(p19).into_boxed_slice());
    let v: &'static [Built] = Box::leak(built().into_boxed_slice());
    vh::engine::main(Check {
        property: "P19",
        rule: "a value of at least two leaves (a library type of at least one bit) was written or read and its bits compared with the static size",
        assumptions: vec![fam::ASSUME, "sizes of declarations with conditions, custom conversions or seeks are not fixed layouts and are not compared"],
        legs: vec![
            Leg::new("generated", 300000, 6000000, move |s, cx| sized(f, table, s, cx)),
            Leg::new("library", 40000, 400000, move |s, cx| library(v, s, cx)),
        ],
    })
}
