//! P11: collections: generated declarations, and a matrix of containers, elements and limits against
//! decoding and encoding the elements one by one.
include!(concat!(env!("OUT_DIR"), "/p11.rs"));
use deku::ctx::{BitSize, ByteSize, Endian, Limit, Order};
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuError, DekuRead, DekuReader, DekuWrite, DekuWriter};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;
use vh::engine::hash_of;
use vh::fam::{self, Fam};
use vh::interp::class;
use vh::io::{RStream, WStream};
use vh::model::hex;
use vh::val::{Det, Gen, Val};
use vh::{fail, wr_ops, Check, Cx, Fail, Leg, Src};

#[derive(DekuRead, DekuWrite, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Odd {
    #[deku(bits = 3)]
    a: u8,
    #[deku(bits = 2)]
    b: u8,
}
#[derive(DekuRead, DekuWrite, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Growing {
    n: u8,
    #[deku(count = "*n % 4")]
    v: Vec<u8>,
}
#[derive(DekuRead, DekuWrite, Clone, Debug, PartialEq, Eq, Hash)]
#[deku(id_type = "u8", bits = 2)]
pub enum Choice {
    #[deku(id = 0)]
    A(u8),
    #[deku(id = 1)]
    B { x: u16, y: bool },
    #[deku(id = 2)]
    C,
}
impl Gen for Odd {
    fn to_val(&self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        Odd { a: u8::from_val(&v.items()[0]), b: u8::from_val(&v.items()[1]) }
    }
}
impl Gen for Growing {
    fn to_val(&self) -> Val {
        Val::Rec(vec![self.n.to_val(), self.v.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        Growing { n: u8::from_val(&v.items()[0]), v: Gen::from_val(&v.items()[1]) }
    }
}
impl Gen for Choice {
    fn to_val(&self) -> Val {
        match self {
            Choice::A(a) => Val::Var(0, vec![a.to_val()]),
            Choice::B { x, y } => Val::Var(1, vec![x.to_val(), y.to_val()]),
            Choice::C => Val::Var(2, vec![]),
        }
    }
    fn from_val(v: &Val) -> Self {
        let (k, i) = v.var();
        match k {
            0 => Choice::A(Gen::from_val(&i[0])),
            1 => Choice::B { x: Gen::from_val(&i[0]), y: Gen::from_val(&i[1]) },
            _ => Choice::C,
        }
    }
}

type Pred<T> = Box<dyn FnMut(&T) -> bool>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Lim {
    Count(usize),
    /// stop at the first element whose hash has this remainder
    Until(u64, u64),
    Bits(usize),
    Bytes(usize),
    End,
}
fn stops(v: &Val, m: u64, r: u64) -> bool {
    hash_of(v) % m == r
}
#[derive(Clone, Copy, PartialEq)]
enum Shape {
    Seq,
    Set,
    Map,
}
/// The elements one by one.
fn singly<T: Gen + for<'a> DekuReader<'a, Ctx>, Ctx: Copy>(r: &mut Reader<&mut RStream>, lim: Lim, ctx: Ctx) -> (Result<Vec<Val>, DekuError>, bool) {
    let mut v = vec![];
    let from = r.bits_read;
    let mut over = false;
    loop {
        let done = match lim {
            Lim::Count(n) => v.len() == n,
            Lim::Until(m, k) => v.last().is_some_and(|x| stops(x, m, k)),
            Lim::Bits(_) | Lim::Bytes(_) => {
                let n = match lim {
                    Lim::Bits(n) => n,
                    Lim::Bytes(n) => n * 8,
                    _ => 0,
                };
                over |= r.bits_read - from > n;
                r.bits_read - from == n
            }
            Lim::End => r.end(),
        };
        if done {
            return (Ok(v), over);
        }
        match T::from_reader_with_ctx(r, ctx) {
            Ok(x) => v.push(x.to_val()),
            Err(e) => return (Err(e), over),
        }
    }
}
fn gather(shape: Shape, v: Vec<Val>) -> Val {
    let mut r: Vec<Val> = vec![];
    match shape {
        Shape::Seq => return Val::Seq(v),
        Shape::Set => {
            for x in v {
                if !r.contains(&x) {
                    r.push(x)
                }
            }
        }
        Shape::Map => {
            for x in v {
                match r.iter_mut().find(|y| y.items()[0] == x.items()[0]) {
                    Some(y) => *y = x,
                    None => r.push(x),
                }
            }
        }
    }
    Val::Set(r)
}
fn wobs(r: Result<(), DekuError>, w: &mut Writer<&mut WStream>) -> (Result<(), DekuError>, usize) {
    let n = w.bits_written + w.rest().len();
    (r.and_then(|()| w.finalize()), n)
}

fn run<C, T, Ctx>(name: &str, shape: Shape, ctx: Ctx, s: &mut Src, cx: &mut Cx) -> Result<(), Fail>
where
    T: Gen + for<'a> DekuReader<'a, Ctx> + DekuWriter<Ctx> + 'static,
    C: Gen + for<'a> DekuReader<'a, (Limit<T, Pred<T>>, Ctx)> + for<'a> DekuReader<'a, (Limit<T, fn(&T) -> bool>, Ctx)> + DekuWriter<Ctx>,
    Ctx: Copy + std::fmt::Debug,
{
    let n = s.below(40);
    let mut data = s.bytes(n);
    if s.chance(1, 3) {
        data.iter_mut().for_each(|b| *b &= 0x83);
    }
    let off = if s.chance(1, 2) { 0 } else { s.below(12) };
    // a budget usually fits a whole number of elements
    let fit = |s: &mut Src| {
        let mut st = RStream::new(&data);
        let mut r = Reader::new(&mut st);
        if r.skip_bits(off, Order::Msb0).is_err() {
            return 0;
        }
        let from = r.bits_read;
        for _ in 0..s.below(7) {
            let at = r.bits_read;
            if T::from_reader_with_ctx(&mut r, ctx).is_err() {
                return at - from;
            }
        }
        r.bits_read - from
    };
    let lim = match s.below(7) {
        0 => Lim::Count(s.below(9)),
        1 => {
            let m = 1 + s.below(6) as u64;
            Lim::Until(m, s.below(m as usize) as u64)
        }
        2 => Lim::Bits(fit(s)),
        3 => Lim::Bits(s.below(80)),
        4 => Lim::Bytes(fit(s) / 8),
        5 => Lim::Bytes(s.below(12)),
        _ => Lim::End,
    };
    let seen: Rc<RefCell<Vec<Val>>> = Rc::default();
    let log = seen.clone();
    let limit: Limit<T, Pred<T>> = match lim {
        Lim::Count(n) => Limit::Count(n),
        Lim::Until(m, k) => {
            let ask: Pred<T> = Box::new(move |x: &T| {
                let v = x.to_val();
                let stop = stops(&v, m, k);
                log.borrow_mut().push(v);
                stop
            });
            if s.chance(1, 2) {
                Limit::new_until(ask)
            } else {
                Limit::Until(ask, PhantomData)
            }
        }
        Lim::Bits(n) => Limit::BitSize(BitSize(n)),
        Lim::Bytes(n) => Limit::ByteSize(ByteSize(n)),
        Lim::End => Limit::End,
    };
    // the same limit through its constructors
    let plain: Option<Limit<T, fn(&T) -> bool>> = match lim {
        _ if s.chance(1, 2) => None,
        Lim::Count(n) if s.chance(1, 2) => Some(n.into()),
        Lim::Bits(n) if s.chance(1, 2) => Some(BitSize(n).into()),
        Lim::Bytes(n) if s.chance(1, 2) => Some(ByteSize(n).into()),
        Lim::Count(n) => Some(Limit::new_count(n)),
        Lim::Bits(n) => Some(Limit::new_bit_size(BitSize(n))),
        Lim::Bytes(n) => Some(Limit::new_byte_size(ByteSize(n))),
        Lim::End => Some(Limit::end()),
        Lim::Until(..) => None,
    };
    let here = || format!("{name} with {ctx:?}, {lim:?}, from bit {off} of {}", hex(&data));
    let (mut sa, mut sb) = (RStream::new(&data), RStream::new(&data));
    let (a, over, x) = {
        let mut r = Reader::new(&mut sa);
        if r.skip_bits(off, Order::Msb0).is_err() {
            return Ok(());
        }
        let (v, over) = singly::<T, Ctx>(&mut r, lim, ctx);
        (v, over, (r.bits_read, r.rest()))
    };
    let (b, y) = {
        let mut r = Reader::new(&mut sb);
        let _ = r.skip_bits(off, Order::Msb0);
        let v = match plain {
            Some(l) => C::from_reader_with_ctx(&mut r, (l, ctx)),
            None => C::from_reader_with_ctx(&mut r, (limit, ctx)),
        };
        (v, (r.bits_read, r.rest()))
    };
    cx.fp(&(name, format!("{ctx:?}{lim:?}"), off, &data));
    cx.tag(format!("{lim:?}").chars().filter(|c| c.is_alphabetic()).collect::<String>());
    cx.tag_if(a.is_ok(), "accepted");
    cx.tag_if(over, "budget overshot");
    cx.nontrivial(a.as_ref().is_ok_and(|v| v.len() >= 2) || over);
    cx.note(|| format!("{} -> {a:?}", here()));
    match (&a, &b) {
        (Ok(v), Ok(c)) => {
            let want = gather(shape, v.clone());
            cx.tag_if(want.items().len() < v.len(), "duplicates");
            if !want.same(&c.to_val()) {
                return fail("elements", format!("{:?}, one by one {v:?}; {}", c.to_val(), here()));
            }
            if x != y || sa.pos != sb.pos {
                return fail("consumed", format!("{} bits, position {}, one by one {} bits, position {}; {}", y.0, sb.pos, x.0, sa.pos, here()));
            }
        }
        (Err(_), Err(_)) if over => {}
        (Err(e), Err(g)) if class(e) == class(g) => {}
        (_, b) => return fail("outcome", format!("{:?}, one by one {a:?}; {}", b.as_ref().map(|c| c.to_val()), here())),
    }
    if let (Lim::Until(..), Ok(v)) = (lim, &a) {
        if *seen.borrow() != *v {
            return fail("predicate", format!("asked about {:?}, elements {v:?}; {}", seen.borrow(), here()));
        }
    }
    // writing
    let Ok(c) = b else { return Ok(()) };
    let c = match s.below(3) {
        0 => {
            // fewer elements, another order
            let mut v = c.to_val().items().to_vec();
            if !v.is_empty() {
                let n = s.below(v.len());
                v.rotate_left(n);
                v.truncate(1 + s.below(v.len()));
            }
            C::from_val(&if shape == Shape::Seq { Val::Seq(v) } else { Val::Set(v) })
        }
        _ => c,
    };
    let items = c.to_val();
    let pre: Vec<bool> = (0..s.below(9)).map(|_| s.chance(1, 2)).collect();
    let lead: deku::bitvec::BitVec<u8, deku::bitvec::Msb0> = pre.iter().copied().collect();
    let go = |f: &dyn Fn(&mut Writer<&mut WStream>) -> Result<(), DekuError>| {
        let mut st = WStream::new();
        let r = {
            let mut w = Writer::new(&mut st);
            let r = w.write_bits(&lead).and_then(|()| f(&mut w));
            wobs(r, &mut w)
        };
        (r.0.map_err(|e| class(&e)), r.1, hex(&st.data))
    };
    let one = go(&|w| items.items().iter().try_for_each(|x| T::from_val(x).to_writer(w, ctx)));
    let all = go(&|w| c.to_writer(w, ctx));
    if one != all {
        return fail("written", format!("{name} with {ctx:?}: {items:?} after {} bits gives {all:?}, one by one {one:?}", pre.len()));
    }
    if shape == Shape::Seq {
        let v: Vec<T> = items.items().iter().map(T::from_val).collect();
        let slice = go(&|w| <&[T] as DekuWriter<Ctx>>::to_writer(&&v[..], w, ctx));
        let plain = go(&|w| <[T] as DekuWriter<Ctx>>::to_writer(&v[..], w, ctx));
        if one != slice || one != plain {
            return fail("written slice", format!("{name} with {ctx:?}: {items:?} after {} bits gives {slice:?} and {plain:?}, one by one {one:?}", pre.len()));
        }
    }
    Ok(())
}

/// How an amount from the input is meant.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Meant {
    Count,
    Bytes,
    Bits,
}
trait Amount: for<'a> DekuReader<'a> {
    const NAME: &'static str;
    const MEANT: Meant;
    /// bytes of the amount and of an element
    const SIZES: (usize, usize);
    /// the amount, when it is one of memory's sizes
    fn amount(data: &[u8]) -> Option<usize>;
    fn elements(&self) -> Vec<u64>;
    fn unordered() -> bool;
}
macro_rules! amount {
    ($name:ident, $t:ty, [$($c:tt)*], $e:ty, $meant:ident, $attr:ident, $un:literal) => {
        amount!($name, $t, [$($c)*], $e, $meant, $attr, $un, |x| *x as u64);
    };
    ($name:ident, $t:ty, [$($c:tt)*], $e:ty, $meant:ident, $attr:ident, $un:literal, $one:expr) => {
        #[derive(DekuRead, Debug)]
        #[deku(endian = "little")]
        struct $name {
            n: $t,
            #[deku($attr = "n")]
            v: $($c)*,
        }
        impl Amount for $name {
            const NAME: &'static str = stringify!($t, $($c)*, $attr);
            const MEANT: Meant = Meant::$meant;
            const SIZES: (usize, usize) = (size_of::<$t>(), size_of::<$e>());
            fn amount(data: &[u8]) -> Option<usize> {
                usize::try_from(<$t>::from_le_bytes(data[..size_of::<$t>()].try_into().unwrap())).ok()
            }
            fn elements(&self) -> Vec<u64> {
                let _ = self.n;
                self.v.iter().map($one).collect()
            }
            fn unordered() -> bool {
                $un
            }
        }
        list!($name);
    };
}
fn amounts<T: Amount>(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (w, e) = T::SIZES;
    let mut n = vec![0u8; w];
    match s.below(5) {
        0 => n = s.bytes(w),
        1 => {
            // around zero, seen as a signed number
            let k = s.below(19) as i64 - 9;
            n = (0..w).map(|i| if i < 8 { (k >> (8 * i)) as u8 } else { (k >> 63) as u8 }).collect();
        }
        2 => {
            let i = s.below(w);
            n[i] = 1 << s.below(8);
        }
        _ => n[0] = s.below(24) as u8,
    }
    let len = s.below(24);
    let rest: Vec<u8> = s.bytes(len);
    let mut data = n.clone();
    data.extend_from_slice(&rest);
    let mut st = RStream::new(&data);
    let got = T::from_reader_with_ctx(&mut Reader::new(&mut st), ());
    let k = T::amount(&data);
    let here = || format!("{}: {}", T::NAME, hex(&data));
    cx.fp(&(T::NAME, &data));
    cx.tag(format!("{:?}", T::MEANT));
    cx.tag_if(k.is_none(), "not a size");
    cx.tag_if(got.is_ok(), "accepted");
    cx.nontrivial(k.is_none() || got.is_ok() || k.is_some_and(|k| k > rest.len()));
    let Some(k) = k else {
        return match got {
            Err(DekuError::Parse(_)) => Ok(()),
            g => fail("amount that is no size", format!("{:?}; {}", g.map(|v| v.elements()), here())),
        };
    };
    let bytes = match T::MEANT {
        Meant::Count => k.checked_mul(e),
        Meant::Bytes => (k % e == 0).then_some(k),
        Meant::Bits => (k % (8 * e) == 0).then_some(k / 8),
    };
    match (bytes, got) {
        (Some(b), Ok(v)) if b <= rest.len() => {
            let mut want: Vec<u64> = rest[..b].chunks(e).map(|c| c.iter().rev().fold(0, |a, x| a << 8 | *x as u64)).collect();
            let mut have = v.elements();
            if T::unordered() {
                if T::NAME.contains("HashMap") {
                    // the last value of a key stays
                    want = want.iter().enumerate().filter(|(i, x)| !want[i + 1..].iter().any(|y| y & 0xff == **x & 0xff)).map(|(_, x)| *x).collect();
                }
                want.sort();
                want.dedup();
                have.sort();
            }
            if want != have {
                return fail("amount of elements", format!("{have:?}, not {want:?}; {}", here()));
            }
            if st.pos != (w + b) as u64 {
                return fail("amount consumed", format!("position {}; {}", st.pos, here()));
            }
            Ok(())
        }
        (Some(b), Err(_)) if b > rest.len() => Ok(()),
        (None, Err(_)) => Ok(()),
        (_, g) => fail("amount", format!("{:?}; {}", g.map(|v| v.elements()), here())),
    }
}
type Few = fn(&mut Src, &mut Cx) -> Result<(), Fail>;
fn amount_cases() -> Vec<Few> {
    let mut all: Vec<Few> = vec![];
    macro_rules! list { ($t:ty) => { all.push(amounts::<$t>) } }
    macro_rules! of { ($($t:ty),*) => { $( {
        amount!(A, $t, [Vec<u8>], u8, Count, count, false);
        amount!(B, $t, [Vec<u16>], u16, Count, count, false);
        amount!(C, $t, [HashSet<u8>], u8, Count, count, true);
        amount!(D, $t, [Vec<u8>], u8, Bytes, bytes_read, false);
        amount!(E, $t, [Vec<u16>], u16, Bytes, bytes_read, false);
        amount!(F, $t, [Vec<u8>], u8, Bits, bits_read, false);
        amount!(H, $t, [HashSet<u8>], u8, Bytes, bytes_read, true);
        amount!(I, $t, [HashSet<u16>], u16, Bits, bits_read, true);
        amount!(J, $t, [HashMap<u8, u8>], u16, Count, count, true, |(k, v)| *k as u64 | (*v as u64) << 8);
        amount!(K, $t, [HashMap<u8, u8>], u16, Bytes, bytes_read, true, |(k, v)| *k as u64 | (*v as u64) << 8);
        amount!(L, $t, [HashMap<u8, u8>], u16, Bits, bits_read, true, |(k, v)| *k as u64 | (*v as u64) << 8);
        amount!(M, $t, [std::sync::Arc<[u16]>], u16, Bytes, bytes_read, false);
        amount!(G, $t, [Box<[u32]>], u32, Count, count, false);
    } )* } }
    of!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);
    all
}

type Case = Box<dyn Fn(&mut Src, &mut Cx) -> Result<(), Fail> + Send + Sync>;
fn endian(s: &mut Src) -> Endian {
    if s.chance(1, 2) { Endian::Big } else { Endian::Little }
}
fn order(s: &mut Src) -> Order {
    if s.chance(1, 2) { Order::Msb0 } else { Order::Lsb0 }
}
fn cases() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    macro_rules! seqs { ($t:ty, |$s:ident| $c:expr) => {
        v.push(Box::new(|$s: &mut Src, cx: &mut Cx| { let c = $c; run::<Vec<$t>, $t, _>(concat!("Vec of ", stringify!($t)), Shape::Seq, c, $s, cx) }));
        v.push(Box::new(|$s: &mut Src, cx: &mut Cx| { let c = $c; run::<Box<[$t]>, $t, _>(concat!("Box of ", stringify!($t)), Shape::Seq, c, $s, cx) }));
        v.push(Box::new(|$s: &mut Src, cx: &mut Cx| { let c = $c; run::<Arc<[$t]>, $t, _>(concat!("Arc of ", stringify!($t)), Shape::Seq, c, $s, cx) }));
    } }
    macro_rules! set { ($t:ty, |$s:ident| $c:expr) => {
        v.push(Box::new(|$s: &mut Src, cx: &mut Cx| { let c = $c; run::<HashSet<$t, Det>, $t, _>(concat!("set of ", stringify!($t)), Shape::Set, c, $s, cx) }));
    } }
    macro_rules! map { ($k:ty, $x:ty, |$s:ident| $c:expr) => {
        v.push(Box::new(|$s: &mut Src, cx: &mut Cx| { let c = $c; run::<HashMap<$k, $x, Det>, ($k, $x), _>(concat!("map of ", stringify!($k), " to ", stringify!($x)), Shape::Map, c, $s, cx) }));
    } }
    macro_rules! both { ($($t:ty),*; |$s:ident| $c:expr) => { $( seqs!($t, |$s| $c); set!($t, |$s| $c); )* } }
    both!(u8, u16, i32, bool, (u8, bool), [u8; 3], CString, core::num::NonZeroU8, Box<u16>, Odd, Growing, Choice, Option<u8>; |_s| ());
    seqs!(f32, |_s| ());
    both!(u16, u32, i64, (u8, u16), [u16; 2], core::num::NonZeroU16; |s| endian(s));
    both!(u8, u16, i32, (u8, u16), [u8; 2]; |s| (endian(s), BitSize(1 + s.below(8))));
    both!(u8, i16, u64; |s| BitSize(1 + s.below(8)));
    both!(u16, u32; |s| (endian(s), ByteSize(1 + s.below(2))));
    both!(u8, u16, u32; |s| (endian(s), BitSize(1 + s.below(8)), order(s)));
    both!(u8, u16; |s| (endian(s), order(s)));
    map!(u8, u8, |_s| ());
    map!(u8, u16, |s| endian(s));
    map!(u16, u8, |s| (endian(s), BitSize(1 + s.below(8))));
    map!(bool, Growing, |_s| ());
    map!(Odd, Choice, |_s| ());
    map!(CString, u8, |_s| ());
    v
}

fn main() {
    let f = Fam::new("P11", SEED, SCALE);
    let table = Box::leak(each!(wr_ops).into_boxed_slice());
    let cases: &'static [Case] = Box::leak(cases().into_boxed_slice());
    let need = &["count", "bit budget", "byte budget", "until", "read to end", "several elements"];
    let mut legs = fam::legs(f, table, need, [250000, 150000, 150000]);
    legs.push(Leg::new("matrix", 600000, 12000000, move |s, cx| cases[s.below(cases.len())](s, cx)));
    let few: &'static [Few] = Box::leak(amount_cases().into_boxed_slice());
    legs.push(Leg::new("amounts", 30000, 600000, move |s, cx| few[s.below(few.len())](s, cx)));
    vh::engine::main(Check {
        property: "P11",
        rule: "declarations: at least two leaves, two features at work, one of them a collection limit or several elements; matrix: at least two elements, or a budget that is not a whole number of elements; amounts: elements read, or an amount that is no size or beyond the input",
        assumptions: vec![fam::ASSUME, "elements without any size in memory are left out: a vector of them reads as empty"],
        legs,
    })
}
