//! P20: library types against their contents: generated declarations, and a matrix of wrappers, contents
//! and contexts.
include!(concat!(env!("OUT_DIR"), "/p20.rs"));
use core::num::*;
use deku::ctx::{BitSize, ByteSize, Endian, Order};
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuError, DekuRead, DekuReader, DekuWrite, DekuWriter};
use std::borrow::Cow;
use std::ffi::CString;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::sync::Arc;
use vh::fam::{self, Fam};
use vh::interp::class;
use vh::io::{RStream, WStream};
use vh::model::{hex, BitCur, BitOut, Ord2};
use vh::val::{Gen, Val};
use vh::{fail, wr_ops, Check, Cx, Fail, Leg, Src};

#[derive(DekuRead, DekuWrite, Clone, Debug, PartialEq)]
pub struct Odd {
    #[deku(bits = 3)]
    a: u8,
    #[deku(bits = 2, assert = "*b != 3")]
    b: u8,
}
#[derive(DekuRead, DekuWrite, Clone, Debug, PartialEq)]
#[deku(endian = "endian", ctx = "endian: Endian")]
pub struct Growing {
    #[deku(bits = 4)]
    n: u8,
    x: u16,
    #[deku(count = "*n % 4")]
    v: Vec<u8>,
}
impl Gen for Odd {
    fn to_val(&self) -> Val {
        Val::Rec(vec![self.a.to_val(), self.b.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        Odd { a: u8::from_val(&v.items()[0]), b: u8::from_val(&v.items()[1]) }
    }
}
impl Gen for Growing {
    fn to_val(&self) -> Val {
        Val::Rec(vec![self.n.to_val(), self.x.to_val(), self.v.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        Growing { n: Gen::from_val(&v.items()[0]), x: Gen::from_val(&v.items()[1]), v: Gen::from_val(&v.items()[2]) }
    }
}

type Res<T> = Result<T, DekuError>;
type In<'b> = Reader<&'b mut RStream>;
type Out<'b> = Writer<&'b mut WStream>;
/// One part of the contents.
struct Part<C> {
    rd: fn(&mut In, C) -> Res<Val>,
    wr: fn(&Val, &mut Out, C) -> Res<()>,
}
fn part<T: Gen + DekuReader<'static, C> + DekuWriter<C>, C>() -> Part<C> {
    Part { rd: |r, c| T::from_reader_with_ctx(r, c).map(|x| x.to_val()), wr: |v, w, c| T::from_val(v).to_writer(w, c) }
}
#[derive(Clone, Copy, PartialEq)]
enum Shape {
    /// the contents themselves
    Same,
    Seq,
    Opt,
}
impl Shape {
    fn join(self, mut v: Vec<Val>) -> Val {
        match self {
            Shape::Same => v.pop().unwrap(),
            Shape::Seq => Val::Seq(v),
            Shape::Opt => Val::Opt(v.pop().map(Box::new)),
        }
    }
    fn split(self, v: &Val) -> Vec<Val> {
        match (self, v) {
            (Shape::Same, v) => vec![v.clone()],
            (_, Val::Seq(v)) => v.clone(),
            (_, Val::Opt(v)) => v.iter().map(|x| (**x).clone()).collect(),
            (_, v) => panic!("{v:?}"),
        }
    }
}
#[derive(PartialEq, Debug)]
struct ReadEnd {
    bits: usize,
    rest: Vec<bool>,
    pos: u64,
}
/// after `off` bits
fn reading<T>(data: &[u8], off: usize, f: impl FnOnce(&mut In) -> Res<T>) -> Option<(Res<T>, ReadEnd)> {
    let mut st = RStream::new(data);
    let mut r = Reader::new(&mut st);
    r.skip_bits(off, Order::Msb0).ok()?;
    let v = f(&mut r);
    let (bits, rest) = (r.bits_read, r.rest());
    Some((v, ReadEnd { bits, rest, pos: st.pos }))
}
/// after some bits
fn writing(pre: &[bool], f: impl FnOnce(&mut Out) -> Res<()>) -> (Result<(), String>, usize, String) {
    let mut st = WStream::new();
    let (r, n) = {
        let lead: deku::bitvec::BitVec<u8, deku::bitvec::Msb0> = pre.iter().copied().collect();
        let mut w = Writer::new(&mut st);
        let r = w.write_bits(&lead).and_then(|()| f(&mut w));
        let n = w.bits_written + w.rest().len();
        (r.and_then(|()| w.finalize()), n)
    };
    (r.map_err(|e| class(&e)), n, hex(&st.data))
}
fn bits(s: &mut Src) -> Vec<bool> {
    (0..s.below(9)).map(|_| s.chance(1, 2)).collect()
}
fn input(s: &mut Src, most: usize) -> Vec<u8> {
    let n = s.below(most);
    let mut data = s.bytes(n);
    if s.chance(1, 3) {
        data.iter_mut().for_each(|b| *b &= 0x81);
    }
    data
}

type Rd<'a> = &'a dyn Fn(&mut In) -> Res<Val>;
type Wr<'a> = &'a dyn Fn(&Val, &mut Out, usize) -> Res<()>;
fn run<W, C>(name: &str, parts: &[Part<C>], shape: Shape, c: C, s: &mut Src, cx: &mut Cx) -> Result<(), Fail>
where
    W: Gen + DekuReader<'static, C> + DekuWriter<C>,
    C: Copy + std::fmt::Debug,
{
    let whole = |r: &mut In| W::from_reader_with_ctx(r, c).map(|w| w.to_val());
    let put = |v: &Val, w: &mut Out, how: usize| {
        let x = W::from_val(v);
        match how {
            0 => x.to_writer(w, c),
            1 => (&x).to_writer(w, c),
            _ => (&&x).to_writer(w, c),
        }
    };
    let rd = |k: usize, r: &mut In| (parts[k].rd)(r, c);
    let wr = |k: usize, v: &Val, w: &mut Out| (parts[k].wr)(v, w, c);
    compare(&format!("{name} with {c:?}"), parts.len(), shape, &whole, &put, &rd, &wr, s, cx)
}
#[allow(clippy::too_many_arguments)]
fn compare(name: &str, parts: usize, shape: Shape, whole: Rd, put: Wr, rd: &dyn Fn(usize, &mut In) -> Res<Val>, wr: &dyn Fn(usize, &Val, &mut Out) -> Res<()>, s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let data = input(s, 60);
    let off = if s.chance(1, 2) { 0 } else { s.below(12) };
    let singly = reading(&data, off, |r| (0..parts).map(|k| rd(k, r)).collect::<Res<Vec<_>>>());
    let (Some((a, x)), Some((b, y))) = (singly, reading(&data, off, whole)) else { return Ok(()) };
    cx.fp(&(name, off, &data));
    cx.tag(match shape { Shape::Same => "wrapped", Shape::Seq => "sequence", Shape::Opt => "optional" });
    cx.tag_if(a.is_ok(), "accepted");
    cx.nontrivial(a.is_ok() && x.bits > off || a.is_err());
    let here = || format!("{name} from bit {off} of {}", hex(&data));
    cx.note(|| format!("{} -> {a:?}", here()));
    let v = match (&a, &b) {
        (Ok(v), Ok(w)) => {
            let want = shape.join(v.clone());
            if !want.same(w) {
                return fail("value", format!("{w:?}, contents {want:?}; {}", here()));
            }
            want
        }
        (Err(e), Err(g)) if class(e) == class(g) => {
            if x.bits != y.bits {
                return fail("consumed", format!("{y:?}, contents one by one {x:?}, both {e:?}; {}", here()));
            }
            return Ok(());
        }
        _ => return fail("outcome", format!("{b:?}, contents one by one {a:?}; {}", here())),
    };
    if x != y {
        return fail("consumed", format!("{y:?}, contents one by one {x:?}; {}", here()));
    }
    // writing it, and now and then nothing
    let v = if shape == Shape::Opt && s.chance(1, 4) { Val::Opt(None) } else { v };
    let items = shape.split(&v);
    let pre = bits(s);
    let one = writing(&pre, |w| items.iter().enumerate().try_for_each(|(k, v)| wr(k, v, w)));
    for how in 0..3 {
        let all = writing(&pre, |w| put(&v, w, how));
        if one != all {
            return fail("written", format!("{name}: {v:?} after {} bits gives {all:?} through {how} references, contents one by one {one:?}", pre.len()));
        }
    }
    Ok(())
}
/// Copy-on-write values that are borrowed, and slices.
fn borrowed<T, C>(name: &str, c: C, s: &mut Src, cx: &mut Cx) -> Result<(), Fail>
where
    T: Gen + Clone + DekuReader<'static, C> + DekuWriter<C>,
    C: Copy + std::fmt::Debug,
{
    let data = input(s, 60);
    let n = s.below(4);
    let Some((Ok(v), _)) = reading(&data, 0, |r| (0..n).map(|_| T::from_reader_with_ctx(r, c)).collect::<Res<Vec<T>>>()) else {
        cx.discard();
        return Ok(());
    };
    let pre = bits(s);
    cx.fp(&(name, format!("{c:?}"), &data, n, &pre));
    cx.nontrivial(n > 0);
    let one = writing(&pre, |w| v.iter().try_for_each(|x| x.to_writer(w, c)));
    cx.note(|| format!("{name} with {c:?}: {n} elements of {} after {} bits -> {one:?}", hex(&data), pre.len()));
    let forms = [
        ("borrowed", writing(&pre, |w| v.iter().try_for_each(|x| Cow::Borrowed(x).to_writer(w, c)))),
        ("slice", writing(&pre, |w| (&v[..]).to_writer(w, c))),
        ("unsized slice", writing(&pre, |w| <[T] as DekuWriter<C>>::to_writer(&v[..], w, c))),
        ("boxed", writing(&pre, |w| v.clone().into_boxed_slice().to_writer(w, c))),
        ("shared", writing(&pre, |w| Arc::<[T]>::from(v.clone()).to_writer(w, c))),
        ("vector", writing(&pre, |w| v.to_writer(w, c))),
        ("references", writing(&pre, |w| v.iter().collect::<Vec<&T>>().to_writer(w, c))),
    ];
    for (k, f) in forms {
        if f != one {
            return fail("written", format!("{name} with {c:?}, {k}: {f:?}, one by one {one:?} after {} bits", pre.len()));
        }
    }
    Ok(())
}
fn nonzero<W, T, C>(name: &str, c: C, s: &mut Src, cx: &mut Cx) -> Result<(), Fail>
where
    W: Gen + DekuReader<'static, C> + DekuWriter<C>,
    T: Gen + DekuReader<'static, C> + DekuWriter<C>,
    C: Copy + std::fmt::Debug,
{
    let n = s.below(20);
    let data = match s.below(3) {
        0 => vec![0; n],
        1 => {
            let mut v = vec![0; n];
            if n > 0 {
                let k = s.below(n);
                v[k] = 1 << s.below(8);
            }
            v
        }
        _ => s.bytes(n),
    };
    let off = s.below(12);
    let (Some((a, x)), Some((b, y))) = (reading(&data, off, |r| T::from_reader_with_ctx(r, c)), reading(&data, off, |r| W::from_reader_with_ctx(r, c))) else { return Ok(()) };
    cx.fp(&(name, format!("{c:?}"), off, &data));
    cx.nontrivial(a.is_ok());
    let here = || format!("{name} with {c:?} from bit {off} of {}", hex(&data));
    let a = a.map(|v| v.to_val());
    cx.tag_if(matches!(&a, Ok(Val::N(0))), "zero");
    cx.note(|| format!("{} -> {a:?}", here()));
    let v = match (&a, &b) {
        (Ok(Val::N(0)), Err(DekuError::Parse(_))) if x.bits == y.bits => return Ok(()),
        (Ok(v), Ok(w)) if *v != Val::N(0) && *v == w.to_val() && x == y => v.clone(),
        (Err(e), Err(g)) if class(e) == class(g) => return Ok(()),
        _ => return fail("nonzero", format!("{:?} at {y:?}, the number {a:?} at {x:?}; {}", b.map(|w| w.to_val()), here())),
    };
    let pre = bits(s);
    let one = writing(&pre, |w| T::from_val(&v).to_writer(w, c));
    let all = writing(&pre, |w| W::from_val(&v).to_writer(w, c));
    if one != all {
        return fail("written", format!("{name} with {c:?}: {v:?} after {} bits gives {all:?}, the number {one:?}", pre.len()));
    }
    Ok(())
}

fn endian(s: &mut Src) -> Endian {
    if s.chance(1, 2) { Endian::Big } else { Endian::Little }
}
fn order(s: &mut Src) -> Order {
    if s.chance(1, 2) { Order::Msb0 } else { Order::Lsb0 }
}
type Case = Box<dyn Fn(&mut Src, &mut Cx) -> Result<(), Fail> + Send + Sync>;
fn cases() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    macro_rules! row { ($w:ty, $shape:expr, [$($t:ty),*], |$s:ident| $c:expr) => {
        v.push(Box::new(|$s: &mut Src, cx: &mut Cx| {
            let c = $c;
            run::<$w, _>(stringify!($w), &[$(part::<$t, _>()),*], $shape, c, $s, cx)
        }));
    } }
    macro_rules! wraps { ($($t:ty),*; |$s:ident| $c:expr) => { $(
        row!(Box<$t>, Shape::Same, [$t], |$s| $c);
        row!(Arc<$t>, Shape::Same, [$t], |$s| $c);
        row!(Cow<'static, $t>, Shape::Same, [$t], |$s| $c);
        row!(Option<$t>, Shape::Opt, [$t], |$s| $c);
        row!([$t; 0], Shape::Seq, [], |$s| $c);
        row!([$t; 1], Shape::Seq, [$t], |$s| $c);
        row!([$t; 3], Shape::Seq, [$t, $t, $t], |$s| $c);
        row!([[$t; 2]; 2], Shape::Seq, [[$t; 2], [$t; 2]], |$s| $c);
        row!([Box<$t>; 5], Shape::Seq, [$t, $t, $t, $t, $t], |$s| $c);
        row!([$t; 7], Shape::Seq, [$t, $t, $t, $t, $t, $t, $t], |$s| $c);
        row!(($t,), Shape::Seq, [$t], |$s| $c);
        row!((Box<$t>, (), Arc<$t>), Shape::Seq, [$t, (), $t], |$s| $c);
        row!(Box<Arc<$t>>, Shape::Same, [$t], |$s| $c);
        v.push(Box::new(|$s: &mut Src, cx: &mut Cx| { let c = $c; borrowed::<$t, _>(concat!("forms of ", stringify!($t)), c, $s, cx) }));
    )* } }
    wraps!(u16, i128, f64, bool, (), CString, Ipv6Addr, Odd; |_s| ());
    wraps!(u32, (u8, u16), Growing, NonZeroU32; |s| endian(s));
    wraps!(u16, (u8, i16); |s| (endian(s), BitSize(1 + s.below(9))));
    wraps!(i32; |s| (endian(s), ByteSize(s.below(4))));
    wraps!(u16, i8; |s| (endian(s), BitSize(s.below(18)), order(s)));
    wraps!(u32; |s| (endian(s), ByteSize(s.below(4)), order(s)));
    wraps!(i64; |s| (endian(s), order(s)));
    wraps!(u8; |s| BitSize(s.below(20)));
    wraps!(i16; |s| ByteSize(s.below(6)));
    wraps!(u8; |s| (BitSize(s.below(20)), order(s)));
    wraps!(u16; |s| order(s));
    // every length of tuple, with different parts
    macro_rules! tuples { (|$s:ident| $c:expr) => {
        row!((u8,), Shape::Seq, [u8], |$s| $c);
        row!((u16, u8), Shape::Seq, [u16, u8], |$s| $c);
        row!((u16, bool, i32), Shape::Seq, [u16, bool, i32], |$s| $c);
        row!((u8, i16, u32, i8), Shape::Seq, [u8, i16, u32, i8], |$s| $c);
        row!((i8, u8, u16, u64, u8), Shape::Seq, [i8, u8, u16, u64, u8], |$s| $c);
        row!((u16, i16, u8, i8, u32, i32), Shape::Seq, [u16, i16, u8, i8, u32, i32], |$s| $c);
        row!((i32, u16, i16, u8, i8, u32, u64), Shape::Seq, [i32, u16, i16, u8, i8, u32, u64], |$s| $c);
        row!((u8, i32, u16, i16, u8, i8, u32, u16), Shape::Seq, [u8, i32, u16, i16, u8, i8, u32, u16], |$s| $c);
        row!((u32, u8, i32, u16, i16, u8, i8, u8, i8), Shape::Seq, [u32, u8, i32, u16, i16, u8, i8, u8, i8], |$s| $c);
        row!((i16, u32, u8, i32, u16, i16, u8, i8, u8, i16), Shape::Seq, [i16, u32, u8, i32, u16, i16, u8, i8, u8, i16], |$s| $c);
        row!((u16, i16, u8, i8, u32, i32, u8, u16, u8, i8, u16), Shape::Seq, [u16, i16, u8, i8, u32, i32, u8, u16, u8, i8, u16], |$s| $c);
        row!([(u8, u16); 2], Shape::Seq, [(u8, u16), (u8, u16)], |$s| $c);
        row!(((u8, [i16; 2]), u32), Shape::Seq, [(u8, [i16; 2]), u32], |$s| $c);
        row!([u8; 32], Shape::Seq, [u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8], |$s| $c);
    } }
    tuples!(|_s| ());
    tuples!(|s| endian(s));
    tuples!(|s| (endian(s), BitSize(1 + s.below(8))));
    tuples!(|s| (endian(s), BitSize(1 + s.below(9)), order(s)));
    tuples!(|s| (endian(s), order(s)));
    row!((CString, Ipv4Addr, Option<u8>, NonZeroU8, Odd), Shape::Seq, [CString, Ipv4Addr, Option<u8>, NonZeroU8, Odd], |_s| ());
    row!((Growing, Ipv6Addr, f32), Shape::Seq, [Growing, Ipv6Addr, f32], |s| endian(s));
    v
}
fn nonzeros() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    macro_rules! nz { ($($w:ty = $t:ty),*) => { $( nz!(@ $w, $t; |_s| (), |s| endian(s), |s| (endian(s), BitSize(s.below(<$t>::BITS as usize + 2))),
        |s| (endian(s), ByteSize(s.below(<$t>::BITS as usize / 8 + 2))),
        |s| (endian(s), BitSize(s.below(<$t>::BITS as usize + 2)), order(s)),
        |s| (endian(s), ByteSize(s.below(<$t>::BITS as usize / 8 + 2)), order(s))); )* };
        (@ $w:ty, $t:ty; $(|$s:ident| $c:expr),*) => { $( v.push(Box::new(|$s: &mut Src, cx: &mut Cx| { let c = $c; nonzero::<$w, $t, _>(stringify!($w), c, $s, cx) })); )* };
    }
    nz!(NonZeroU8 = u8, NonZeroU16 = u16, NonZeroU32 = u32, NonZeroU64 = u64, NonZeroU128 = u128, NonZeroUsize = usize);
    nz!(NonZeroI8 = i8, NonZeroI16 = i16, NonZeroI32 = i32, NonZeroI64 = i64, NonZeroI128 = i128, NonZeroIsize = isize);
    v
}

/// The octets of an address, in the given byte order.
fn address(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let six = s.chance(1, 2);
    let n = if six { 16 } else { 4 };
    let k = if s.chance(1, 8) { s.below(n) } else { n + s.below(4) };
    let mut data = s.bytes(k);
    // addresses that mean something: unspecified, loopback, broadcast, multicast, mapped, compatible, link local
    if data.len() >= n && s.chance(1, 2) {
        let mut known = match (six, s.below(6)) {
            (false, 0) => vec![0; 4],
            (false, 1) => vec![127, 0, 0, 1],
            (false, 2) => vec![255; 4],
            (false, 3) => vec![224, 0, 0, data[3]],
            (false, _) => vec![169, 254, data[2], data[3]],
            (true, 0) => vec![0; 16],
            (true, 1) => [vec![0; 15], vec![1]].concat(),
            (true, 2) => [vec![0; 10], vec![255; 2], data[12..16].to_vec()].concat(),
            (true, 3) => [vec![0; 12], data[12..16].to_vec()].concat(),
            (true, 4) => [vec![0xff, 2], vec![0; 13], vec![1]].concat(),
            (true, _) => [vec![0xfe, 0x80], vec![0; 6], data[8..16].to_vec()].concat(),
        };
        if s.chance(1, 2) {
            known.reverse();
        }
        data.splice(..n, known);
    }
    let off = if s.chance(1, 2) { 0 } else { s.below(10) };
    // shifted to where it is read from
    let mut shifted = BitOut::default();
    shifted.put(&vec![false; off], Ord2::Msb);
    shifted.bytes(&data, Ord2::Msb);
    shifted.finalize();
    let shifted = shifted.out.clone();
    let form = s.below(3);
    let e = endian(s);
    let big = match form {
        0 => cfg!(target_endian = "big"),
        _ => e == Endian::Big,
    };
    let read = |r: &mut In| -> Res<IpAddr> {
        Ok(match (six, form) {
            (false, 0) => Ipv4Addr::from_reader_with_ctx(r, ())?.into(),
            (false, 1) => Ipv4Addr::from_reader_with_ctx(r, e)?.into(),
            (false, _) => Ipv4Addr::from_reader_with_ctx(r, (e, BitSize(32)))?.into(),
            (true, 0) => Ipv6Addr::from_reader_with_ctx(r, ())?.into(),
            (true, 1) => Ipv6Addr::from_reader_with_ctx(r, e)?.into(),
            (true, _) => Ipv6Addr::from_reader_with_ctx(r, (e, ByteSize(16)))?.into(),
        })
    };
    let Some((a, end)) = reading(&shifted, off, read) else { return Ok(()) };
    cx.fp(&(six, form, big, &data, off));
    cx.nontrivial(a.is_ok());
    cx.note(|| format!("{} octets, form {form}, {e:?}, {} from bit {off} -> {a:?}", n, hex(&data)));
    let here = || format!("{n} octets, form {form}, {e:?}, {} from bit {off} gives {a:?}", hex(&data));
    let mut want: Vec<u8> = data.iter().copied().take(n).collect();
    if !big {
        want.reverse();
    }
    let got = match &a {
        Ok(IpAddr::V4(x)) => x.octets().to_vec(),
        Ok(IpAddr::V6(x)) => x.octets().to_vec(),
        Err(DekuError::Incomplete(_)) if shifted.len() * 8 < off + n * 8 => return Ok(()),
        Err(_) => return fail("address", here()),
    };
    if got != want || end.bits != off + n * 8 || shifted.len() * 8 < off + n * 8 {
        return fail("address", here());
    }
    let ip = *a.as_ref().unwrap();
    let pre = bits(s);
    let mut model = BitOut::default();
    model.put(&pre, Ord2::Msb);
    model.bytes(&data[..n], Ord2::Msb);
    let total = model.total_bits();
    model.finalize();
    let want = (Ok(()), total, hex(&model.out));
    let plain = writing(&pre, |w| match (ip, form) {
        (IpAddr::V4(x), 0) => x.to_writer(w, ()),
        (IpAddr::V4(x), 1) => x.to_writer(w, e),
        (IpAddr::V4(x), _) => x.to_writer(w, (e, BitSize(32))),
        (IpAddr::V6(x), 0) => x.to_writer(w, ()),
        (IpAddr::V6(x), 1) => x.to_writer(w, e),
        (IpAddr::V6(x), _) => x.to_writer(w, (e, ByteSize(16))),
    });
    let either = writing(&pre, |w| match form {
        0 => ip.to_writer(w, ()),
        1 => ip.to_writer(w, e),
        _ => ip.to_writer(w, (e, ByteSize(n))),
    });
    if plain != want || either != want {
        return fail("address written", format!("{plain:?} and {either:?} instead of {want:?} after {} bits; {}", pre.len(), here()));
    }
    Ok(())
}
/// A string ends with its first zero, or takes the given length.
fn string(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let n = s.below(14);
    let mut data: Vec<u8> = (0..n).map(|_| if s.chance(1, 6) { 0 } else { s.byte() }).collect();
    if s.chance(1, 2) {
        data.push(0);
        let k = s.below(4);
        data.extend(s.bytes(k));
    }
    let off = if s.chance(1, 2) { 0 } else { s.below(10) };
    let mut shifted = BitOut::default();
    shifted.put(&vec![false; off], Ord2::Msb);
    shifted.bytes(&data, Ord2::Msb);
    shifted.finalize();
    let shifted = shifted.out.clone();
    // all the bytes that can be read from there
    let mut all = vec![];
    let mut m = BitCur::new(&shifted);
    m.take(off, Ord2::Msb);
    while let Some(b) = m.take(8, Ord2::Msb) {
        all.push(vh::model::number(&b, Ord2::Msb) as u8);
    }
    let first = all.iter().position(|b| *b == 0);
    let len = match s.below(4) {
        0 | 1 => None,
        2 => Some(first.map_or(0, |k| k + 1) + s.below(2)),
        _ => Some(match s.below(12) {
            0 => *s.pick(&[usize::MAX, usize::MAX / 8, usize::MAX / 8 + 1, 1 << 40]),
            _ => s.below(16),
        }),
    };
    let Some((a, end)) = reading(&shifted, off, |r| match len {
        None => CString::from_reader_with_ctx(r, ()),
        Some(k) => CString::from_reader_with_ctx(r, ByteSize(k)),
    }) else { return Ok(()) };
    cx.fp(&(&data, off, len));
    cx.nontrivial(a.is_ok());
    cx.tag(if len.is_some() { "given length" } else { "terminated" });
    let here = || format!("{len:?} bytes of {} from bit {off} gives {a:?} at {end:?}", hex(&all));
    cx.note(here);
    let take = match len {
        None => first.map(|k| k + 1),
        Some(k) => Some(k),
    };
    let ok = match (take, &a) {
        (None, Err(DekuError::Incomplete(_))) => true,
        (Some(k), Err(DekuError::Incomplete(_))) => k > all.len(),
        // a size in bits that cannot be stated
        (Some(k), Err(_)) if k > usize::MAX / 8 => true,
        (Some(k), r) if k <= all.len() => {
            let valid = k > 0 && first == Some(k - 1);
            match r {
                Ok(c) => valid && c.as_bytes_with_nul() == &all[..k] && end.bits == off + k * 8,
                Err(DekuError::Parse(_)) => !valid,
                _ => false,
            }
        }
        _ => false,
    };
    if !ok {
        return fail("string", here());
    }
    let Ok(c) = a else { return Ok(()) };
    let pre = bits(s);
    let mut model = BitOut::default();
    model.put(&pre, Ord2::Msb);
    model.bytes(c.as_bytes_with_nul(), Ord2::Msb);
    let total = model.total_bits();
    model.finalize();
    let want = (Ok(()), total, hex(&model.out));
    let e = endian(s);
    let got = [writing(&pre, |w| c.to_writer(w, ())), writing(&pre, |w| c.to_writer(w, e)), writing(&pre, |w| c.to_writer(w, (e, Order::Msb0)))];
    if got.iter().any(|g| *g != want) {
        return fail("string written", format!("{got:?} instead of {want:?} for {c:?} after {} bits", pre.len()));
    }
    let Some((Ok(back), _)) = reading(&model.out, pre.len(), |r| CString::from_reader_with_ctx(r, ())) else {
        return fail("string not read back", format!("{c:?} after {} bits", pre.len()));
    };
    if back != c {
        return fail("string read back", format!("{back:?} instead of {c:?}"));
    }
    Ok(())
}
fn choose(cases: &'static [Case], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    cases[s.below(cases.len())](s, cx)
}

fn main() {
    let f = Fam::new("P20", SEED, SCALE);
    let table: &[_] = Box::leak(each!(wr_ops).into_boxed_slice());
    let all: &'static [Case] = Box::leak(cases().into_boxed_slice());
    let nz: &'static [Case] = Box::leak(nonzeros().into_boxed_slice());
    let mut legs = vec![
        Leg::new("contents", 500000, 10000000, move |s, cx| choose(all, s, cx)),
        Leg::new("nonzero", 150000, 3000000, move |s, cx| choose(nz, s, cx)),
        Leg::new("addresses", 60000, 1200000, address),
        Leg::new("strings", 100000, 2000000, string),
    ];
    legs.extend(fam::legs(f, table, &[], [120000, 80000, 80000]));
    vh::engine::main(Check {
        property: "P20",
        rule: "a value was read with at least one bit, or its contents were refused; in the generated legs the reference's rule for a reading or writing that got past its first field",
        assumptions: vec![fam::ASSUME, "numbers decode as P03 states"],
        legs,
    })
}
