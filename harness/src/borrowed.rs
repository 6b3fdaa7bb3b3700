//! Written-out declarations whose contexts are borrowed, tuples or options, and whose identifiers
//! are taken from them, compared with parsing by hand. Included by the checks of P12 and P18.
use deku::ctx::Endian;
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;
use std::io::Cursor;
use vh::model::{bits_of, hex, number, BitCur, BitOut, Ord2};
use vh::{engine::guard, fail, Cx, Fail, Leg, Src};

#[derive(Debug, Clone, Copy, PartialEq, Hash, DekuRead, DekuWrite)]
pub struct Head {
    kind: u8,
    #[deku(bits = 1)]
    little: bool,
    #[deku(bits = 7)]
    n: u8,
}
impl Head {
    fn endian(&self) -> Endian {
        if self.little { Endian::Little } else { Endian::Big }
    }
}
#[derive(Debug, Clone, PartialEq, Hash, DekuRead, DekuWrite)]
#[deku(ctx = "h: &Head, e: Endian", id = "h.kind", endian = "e")]
enum Body {
    #[deku(id = 0)]
    Empty,
    #[deku(id = 1)]
    List(#[deku(count = "h.n")] Vec<u16>),
    #[deku(id = "2")]
    Nest { a: u8, #[deku(ctx = "h, *a")] b: Inner },
    #[deku(id_pat = "3..=9")]
    Rest(#[deku(cond = "h.kind > 5")] Option<u16>),
    #[deku(default)]
    #[deku(id_pat = "_")]
    Else,
}
#[derive(Debug, Clone, PartialEq, Hash, DekuRead, DekuWrite)]
#[deku(ctx = "_e: Endian, h: &Head, m: u8", endian = "h.endian()")]
struct Inner {
    #[deku(assert = "*x as u8 != m")]
    x: u32,
    #[deku(count = "h.n / 2")]
    v: Vec<i16>,
}
#[derive(Debug, Clone, PartialEq, Hash, DekuRead, DekuWrite)]
struct Packet {
    head: Head,
    #[deku(ctx = "head, head.endian()")]
    body: Body,
}
#[derive(Debug, Clone, PartialEq, Hash, DekuRead, DekuWrite)]
#[deku(ctx = "id: &u8", id = "id")]
enum ByRef {
    #[deku(id = "&1")]
    A(u8),
    #[deku(id = "&2")]
    B(#[deku(endian = "big")] u16),
}
#[derive(Debug, Clone, PartialEq, Hash, DekuRead, DekuWrite)]
#[deku(ctx = "tag: &[u8; 2]", id = "tag")]
enum Tagged {
    #[deku(id = "b\"ab\"")]
    A(u8),
    #[deku(id = "b\"cd\"")]
    B(#[deku(endian = "big")] u16),
}
#[derive(Debug, Clone, PartialEq, Hash, DekuRead, DekuWrite)]
#[deku(ctx = "name: &str", id = "name")]
enum Named {
    #[deku(id = "\"ab\"")]
    A(u8),
    #[deku(id = "\"cd\"")]
    B(#[deku(endian = "big")] u16),
}
#[derive(Debug, Clone, PartialEq, Hash, DekuRead, DekuWrite)]
#[deku(ctx = "k: (u8, bool), o: Option<u8>", id = "k")]
enum Pair {
    #[deku(id = "(1, true)")]
    A(u8),
    #[deku(id_pat = "(_, false)")]
    B(#[deku(skip, default = "o.unwrap_or(9)")] u8),
    #[deku(id_pat = "(2..=3, _) if o.is_some()")]
    C,
    #[deku(id_pat = "_")]
    D(#[deku(endian = "big")] u16),
}
#[derive(Debug, Clone, PartialEq, Hash, DekuRead, DekuWrite)]
#[deku(ctx = "id: u8, flag: bool", id = "id, flag")]
enum Two {
    #[deku(id = "(1, true)")]
    A(u8),
    #[deku(id = "(1, false)")]
    B(#[deku(endian = "big")] u16),
}

/// Which kind of failure is expected.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Bad {
    Short,
    Refused,
    Assert,
}
fn bad(e: &DekuError) -> Option<Bad> {
    match e {
        DekuError::Incomplete(_) => Some(Bad::Short),
        DekuError::Parse(_) => Some(Bad::Refused),
        DekuError::Assertion(_) => Some(Bad::Assert),
        _ => None,
    }
}
type R<T> = Result<T, Bad>;
fn int(c: &mut BitCur, bytes: usize, big: bool) -> R<u128> {
    let mut b = vec![];
    for _ in 0..bytes {
        b.push(number(&c.take(8, Ord2::Msb).ok_or(Bad::Short)?, Ord2::Msb));
    }
    if !big {
        b.reverse();
    }
    Ok(b.into_iter().fold(0, |a, x| a << 8 | x))
}
fn put(o: &mut BitOut, v: u128, bytes: usize, big: bool) {
    for i in 0..bytes {
        let k = if big { bytes - 1 - i } else { i };
        o.put(&bits_of(v >> (8 * k) & 255, 8, Ord2::Msb), Ord2::Msb);
    }
}
fn head(c: &mut BitCur) -> R<Head> {
    let kind = int(c, 1, true)? as u8;
    let little = c.take(1, Ord2::Msb).ok_or(Bad::Short)?[0];
    let n = number(&c.take(7, Ord2::Msb).ok_or(Bad::Short)?, Ord2::Msb) as u8;
    Ok(Head { kind, little, n })
}
fn body(c: &mut BitCur, h: &Head, big: bool) -> R<Body> {
    Ok(match h.kind {
        0 => Body::Empty,
        1 => Body::List((0..h.n).map(|_| Ok(int(c, 2, big)? as u16)).collect::<R<_>>()?),
        2 => {
            let a = int(c, 1, true)? as u8;
            let x = int(c, 4, !h.little)? as u32;
            if x as u8 == a {
                return Err(Bad::Assert);
            }
            Body::Nest { a, b: Inner { x, v: (0..h.n / 2).map(|_| Ok(int(c, 2, !h.little)? as i16)).collect::<R<_>>()? } }
        }
        3..=5 => Body::Rest(None),
        6..=9 => Body::Rest(Some(int(c, 2, big)? as u16)),
        _ => Body::Else,
    })
}
fn put_body(o: &mut BitOut, b: &Body, h: &Head, big: bool) -> R<()> {
    match b {
        Body::Empty | Body::Else | Body::Rest(None) => {}
        Body::List(v) => v.iter().for_each(|x| put(o, *x as u128, 2, big)),
        Body::Nest { a, b } => {
            put(o, *a as u128, 1, big);
            if b.x as u8 == *a {
                return Err(Bad::Assert);
            }
            put(o, b.x as u128, 4, !h.little);
            b.v.iter().for_each(|x| put(o, *x as u16 as u128, 2, !h.little));
        }
        Body::Rest(Some(x)) => put(o, *x as u128, 2, big),
    }
    Ok(())
}
fn any_head(s: &mut Src) -> Head {
    Head { kind: if s.chance(7, 8) { s.below(11) as u8 } else { s.byte() }, little: s.chance(1, 2), n: if s.chance(7, 8) { s.below(6) as u8 } else { s.byte() & 127 } }
}
fn any_body(s: &mut Src) -> Body {
    match s.below(7) {
        0 => Body::Empty,
        1 => Body::List((0..s.below(5)).map(|_| s.u64() as u16).collect()),
        2 | 3 => Body::Nest { a: s.byte(), b: Inner { x: s.u64() as u32, v: (0..s.below(4)).map(|_| s.u64() as i16).collect() } },
        4 => Body::Rest(Some(s.u64() as u16)),
        5 => Body::Rest(None),
        _ => Body::Else,
    }
}
fn same_read<T: PartialEq + std::fmt::Debug>(what: &str, input: &[u8], want: R<T>, used: usize, got: Result<(Result<T, DekuError>, usize), String>, cx: &mut Cx) -> Result<(), Fail> {
    cx.note(|| format!("{what} of {} -> {got:?}", hex(input)));
    let (got, at) = match got {
        Ok(x) => x,
        Err(p) => return fail("panic", format!("{what} of {}: {p}", hex(input))),
    };
    match (want, got) {
        (Ok(a), Ok(b)) if a != b => fail("borrowed: value", format!("{what} of {} gives {b:?} instead of {a:?}", hex(input))),
        (Ok(_), Ok(_)) if used != at => fail("borrowed: consumed", format!("{what} of {} takes {at} bits instead of {used}", hex(input))),
        (Ok(_), Ok(_)) => {
            cx.tag("read");
            Ok(())
        }
        (Err(a), Err(b)) if bad(&b) == Some(a) => {
            cx.tag(format!("refused: {a:?}"));
            Ok(())
        }
        (a, b) => fail("borrowed: outcome", format!("{what} of {} gives {b:?} instead of {a:?}", hex(input))),
    }
}
fn same_written(what: &str, want: R<Vec<u8>>, got: Result<Result<Vec<u8>, DekuError>, String>, cx: &mut Cx) -> Result<(), Fail> {
    cx.note(|| format!("{what} -> {got:?}"));
    let got = match got {
        Ok(x) => x,
        Err(p) => return fail("panic", format!("{what}: {p}")),
    };
    match (want, got) {
        (Ok(a), Ok(b)) if a != b => fail("borrowed: output", format!("{what} gives {} instead of {}", hex(&b), hex(&a))),
        (Ok(_), Ok(_)) => {
            cx.tag("written");
            Ok(())
        }
        (Err(a), Err(b)) if bad(&b) == Some(a) => {
            cx.tag(format!("refused: {a:?}"));
            Ok(())
        }
        (a, b) => fail("borrowed: output", format!("{what} gives {b:?} instead of {a:?}")),
    }
}
fn with<'a, T: DekuReader<'a, C>, C>(input: &'a [u8], ctx: C) -> (Result<T, DekuError>, usize) {
    let mut c = Cursor::new(input);
    let mut r = Reader::new(&mut c);
    let x = T::from_reader_with_ctx(&mut r, ctx);
    (x, r.bits_read)
}
fn out<T: DekuWriter<C>, C>(v: &T, ctx: C) -> Result<Vec<u8>, DekuError> {
    let mut c = Cursor::new(vec![]);
    let mut w = Writer::new(&mut c);
    v.to_writer(&mut w, ctx)?;
    w.finalize()?;
    Ok(c.into_inner())
}
/// Headers that govern their body.
fn packets(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let h = any_head(s);
    let own = s.chance(1, 2);
    // the byte order of a body read on its own is not tied to the header
    let big = if own { s.chance(1, 2) } else { !h.little };
    let mut rest: Vec<u8> = (0..s.below(24)).map(|_| s.byte()).collect();
    if h.kind == 2 && rest.len() > 4 && s.chance(1, 6) {
        rest[if h.little { 1 } else { 4 }] = rest[0];
    }
    let e = if big { Endian::Big } else { Endian::Little };
    cx.fp(&(h, own, big, &rest));
    if s.chance(1, 2) {
        let mut data = vec![];
        if !own {
            data.extend([h.kind, (h.little as u8) << 7 | h.n]);
        }
        data.extend(&rest);
        if s.chance(1, 8) {
            data.truncate(s.below(data.len() + 1));
        }
        let mut c = BitCur::new(&data);
        if own {
            let want = body(&mut c, &h, big);
            cx.nontrivial(want.is_ok() && h.kind < 10);
            return same_read(&format!("Body of {h:?} {e:?}"), &data, want, c.pos_bits(), guard(|| with::<Body, _>(&data, (&h, e))), cx);
        }
        let want = head(&mut c).and_then(|h| Ok(Packet { head: h, body: body(&mut c, &h, !h.little)? }));
        cx.nontrivial(want.is_ok() && h.kind < 10);
        let used = c.pos_bits();
        return same_read("Packet", &data, want, used, guard(|| with::<Packet, _>(&data, ())), cx);
    }
    let mut b = any_body(s);
    if let (Body::Nest { a, b }, true) = (&mut b, s.chance(1, 8)) {
        *a = b.x as u8;
    }
    cx.fp(&b);
    cx.nontrivial(!matches!(b, Body::Empty | Body::Else));
    let mut o = BitOut::default();
    if own {
        let want = put_body(&mut o, &b, &h, big).map(|_| o.out);
        return same_written(&format!("{b:?} of {h:?} {e:?}"), want, guard(|| out(&b, (&h, e))), cx);
    }
    put(&mut o, h.kind as u128, 1, true);
    o.put(&[h.little], Ord2::Msb);
    o.put(&bits_of(h.n as u128, 7, Ord2::Msb), Ord2::Msb);
    let want = put_body(&mut o, &b, &h, !h.little).map(|_| o.out);
    let p = Packet { head: h, body: b };
    same_written(&format!("{p:?}"), want, guard(|| if own { out(&p, ()) } else { p.to_bytes() }), cx)
}
fn one(c: &mut BitCur) -> R<u8> {
    Ok(int(c, 1, true)? as u8)
}
fn two(c: &mut BitCur) -> R<u16> {
    Ok(int(c, 2, true)? as u16)
}
/// Enums whose identifier is borrowed, a tuple or several context values.
fn identifiers(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let data: Vec<u8> = (0..s.below(4)).map(|_| s.byte()).collect();
    let which = s.below(5);
    let n = s.below(5) as u8;
    let flag = s.chance(1, 2);
    let o = if s.chance(1, 2) { Some(s.byte()) } else { None };
    let (x, y) = (s.byte(), s.u64() as u16);
    let first = s.chance(1, 2);
    cx.fp(&(&data, which, n, flag, o, (x, y, first)));
    cx.nontrivial(true);
    let mut c = BitCur::new(&data);
    // an enum of two variants: the identifiers, a read, a write
    macro_rules! two_of {
        ($t:ident, $ctx:expr, $a:expr, $b:expr, $name:expr) => {{
            cx.tag(stringify!($t));
            let (is_a, is_b): (bool, bool) = ($a, $b);
            let want = if is_a { one(&mut c).map($t::A) } else if is_b { two(&mut c).map($t::B) } else { Err(Bad::Refused) };
            let used = c.pos_bits();
            same_read(&format!("{} {:?}", stringify!($t), $name), &data, want, used, guard(|| with::<$t, _>(&data, $ctx)), cx)?;
            let v = if first { $t::A(x) } else { $t::B(y) };
            let want = if first { vec![x] } else { y.to_be_bytes().to_vec() };
            same_written(&format!("{v:?} {:?}", $name), Ok(want), guard(|| out(&v, $ctx)), cx)?;
            v
        }};
    }
    fn reports(what: String, ok: bool, got: String) -> Result<(), Fail> {
        if ok { Ok(()) } else { fail("borrowed: identifier", format!("{what} reports {got}")) }
    }
    match which {
        0 => {
            let v = two_of!(ByRef, &n, n == 1, n == 2, n);
            let id = v.deku_id();
            reports(format!("{v:?}"), matches!(&id, Ok(i) if **i == if first { 1 } else { 2 }), format!("{id:?}"))
        }
        1 => {
            let tags: [&[u8; 2]; 5] = [b"ab", b"cd", b"ac", b"cb", b"\0\0"];
            let t = tags[n as usize];
            let v = two_of!(Tagged, t, t == b"ab", t == b"cd", hex(t));
            let id = v.deku_id();
            reports(format!("{v:?}"), matches!(&id, Ok(i) if *i == if first { b"ab" } else { b"cd" }), format!("{id:?}"))
        }
        2 => {
            let t = ["ab", "cd", "ac", "", "abc"][n as usize];
            let v = two_of!(Named, t, t == "ab", t == "cd", t);
            let id = v.deku_id();
            reports(format!("{v:?}"), matches!(&id, Ok(i) if *i == if first { "ab" } else { "cd" }), format!("{id:?}"))
        }
        3 => {
            let v = two_of!(Two, (n, flag), n == 1 && flag, n == 1 && !flag, (n, flag));
            let id = v.deku_id();
            reports(format!("{v:?}"), matches!(&id, Ok(i) if *i == (1, first)), format!("{id:?}"))
        }
        _ => {
            cx.tag("Pair");
            let want = match (n, flag) {
                (1, true) => one(&mut c).map(Pair::A),
                (_, false) => Ok(Pair::B(o.unwrap_or(9))),
                (2..=3, _) if o.is_some() => Ok(Pair::C),
                _ => two(&mut c).map(Pair::D),
            };
            let used = c.pos_bits();
            same_read(&format!("Pair {:?}", (n, flag, o)), &data, want, used, guard(|| with::<Pair, _>(&data, ((n, flag), o))), cx)?;
            let (v, want) = match s.below(4) {
                0 => (Pair::A(x), vec![x]),
                1 => (Pair::B(x), vec![]),
                2 => (Pair::C, vec![]),
                _ => (Pair::D(y), y.to_be_bytes().to_vec()),
            };
            same_written(&format!("{v:?}"), Ok(want), guard(|| out(&v, ((n, flag), o))), cx)?;
            let id = v.deku_id();
            reports(format!("{v:?}"), if matches!(v, Pair::A(_)) { matches!(id, Ok((1, true))) } else { matches!(id, Err(DekuError::IdVariantNotFound)) }, format!("{id:?}"))
        }
    }
}
pub fn legs() -> Vec<Leg> {
    vec![Leg::new("borrowed-packets", 100_000, 2_000_000, packets), Leg::new("borrowed-identifiers", 100_000, 2_000_000, identifiers)]
}
