//! P21: forward-only inputs and outputs against seekable ones with the same bytes.
include!(concat!(env!("OUT_DIR"), "/p21.rs"));
use deku::no_std_io::{ErrorKind, Read, Seek, SeekFrom, Write};
use deku::noseek::NoSeek;
use deku::prelude::*;
use vh::fam::{self, short, Fam};
use vh::interp::{self, class, E};
use vh::io::{OnlyRead, OnlyWrite, RStream, WStream};
use vh::model::hex;
use vh::ops::{self, ReadObs};
use vh::val::Val;
use vh::{fail, Check, Cx, Fail, Leg, Src};

#[derive(Clone, Copy)]
struct Ops {
    read: fn(&mut RStream) -> ReadObs,
    forward: fn(&mut OnlyRead) -> ReadObs,
    from_reader: fn(&mut RStream, usize) -> Result<(usize, Val), DekuError>,
    from_forward: fn(&mut OnlyRead, usize) -> Result<(usize, Val), DekuError>,
    write: fn(&Val, &mut WStream) -> Result<(), DekuError>,
    write_forward: fn(&Val, &mut OnlyWrite) -> Result<(), DekuError>,
    settle: fn(&Val) -> Val,
}
macro_rules! p21 {
    ($t:ty, $d:expr, $k:ident, $i:ty) => {
        (
            $d,
            Ops {
                read: ops::read_stream::<$t>,
                forward: ops::read_noseek::<$t>,
                from_reader: ops::from_reader::<$t>,
                from_forward: ops::from_reader_noseek::<$t>,
                write: ops::write_stream::<$t>,
                write_forward: ops::write_noseek::<$t>,
                settle: ops::settle::<$t>,
            },
        )
    };
}
type Table = &'static [(usize, Ops)];

fn chunks(s: &mut Src) -> Vec<usize> {
    if s.chance(1, 2) {
        return vec![];
    }
    let mut v: Vec<usize> = (0..1 + s.below(5)).map(|_| *s.pick(&[1, 2, 0, 3, 5, 1])).collect();
    v.push(1 + s.below(3));
    v
}
fn same_err(a: &DekuError, b: &DekuError) -> bool {
    match (a, b) {
        (DekuError::Io(x), DekuError::Io(y)) => x == y,
        _ => class(a) == class(b),
    }
}
fn same_read(a: &ReadObs, b: &ReadObs) -> bool {
    match (&a.res, &b.res) {
        (Ok(x), Ok(y)) => x.same(y) && a.bits == b.bits && a.rest == b.rest && a.pos == b.pos,
        (Err(x), Err(y)) => same_err(x, y),
        _ => false,
    }
}
fn is_seek_error<T>(r: &Result<T, DekuError>) -> bool {
    matches!(r, Err(DekuError::Io(ErrorKind::Other)))
}
/// The same value, output and errors as from a stream that grants only the seeks `NoSeek` promises, which
/// are those of a seekable stream as long as no seek moves.
fn read(f: Fam, table: Table, s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let data = interp::input(f.0, d, s);
    let mut free = RStream::new(&data);
    let mut limited = RStream::new(&data);
    limited.forward = true;
    let mut only = OnlyRead(RStream::new(&data));
    let c = chunks(s);
    only.0.chunks = c.clone();
    let a = (o.read)(&mut free);
    let b = (o.read)(&mut limited);
    let n = (o.forward)(&mut only);
    cx.fp(&(d, &data, &c));
    cx.nontrivial(a.res.is_ok() && a.bits >= 16);
    cx.tag(if free.sought() { "needs a seek" } else if free.probed { "looks at the end" } else { "needs no seek" });
    cx.note(|| format!("declaration {} input {} in pieces {c:?} -> {}", f.0.defs[d].name, hex(&data), short(&n.res)));
    let here = || format!("input {} in pieces {c:?}: seekable {} ({} bits), limited {} ({} bits), forward only {} ({} bits); declaration:\n{}", hex(&data), short(&a.res), a.bits, short(&b.res), b.bits, short(&n.res), n.bits, f.decl(d));
    if only.0.calls > 0 && only.0.pos > data.len() as u64 {
        return fail("beyond the input", here());
    }
    if !same_read(&b, &n) {
        return fail("forward-only result", here());
    }
    if !free.sought() && !same_read(&a, &n) && !(free.probed && is_seek_error(&n.res)) {
        return fail("no seek needed", here());
    }
    if free.sought() && !is_seek_error(&n.res) {
        return fail("a seek that moves was granted", here());
    }
    // at an offset of bits, through the container entry point
    let off = s.below(17);
    let mut free = RStream::new(&data);
    let mut only = OnlyRead(RStream::new(&data));
    only.0.chunks = c.clone();
    let a = (o.from_reader)(&mut free, off);
    let n = (o.from_forward)(&mut only, off);
    let same = match (&a, &n) {
        (Ok((x, v)), Ok((y, w))) => x == y && v.same(w) && free.pos == only.0.pos,
        (Err(x), Err(y)) => same_err(x, y),
        _ => false,
    };
    if free.sought() && !is_seek_error(&n) || !free.sought() && !same && !(free.probed && is_seek_error(&n)) {
        return fail("from_reader", format!("at bit {off}, seekable {a:?}, forward only {n:?}; input {} in pieces {c:?}; declaration:\n{}", hex(&data), f.decl(d)));
    }
    Ok(())
}
fn write(f: Fam, table: Table, s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let v = (o.settle)(&interp::value(f.0, d, s));
    if interp::write(f.0, d, &v).res == Err(E::Undef("huge padding")) {
        cx.discard();
        return Ok(());
    }
    let mut free = WStream::new();
    let mut limited = WStream::new();
    limited.forward = true;
    let mut only = OnlyWrite(WStream::new());
    let c = chunks(s);
    only.0.chunks = c.clone();
    let a = (o.write)(&v, &mut free);
    let b = (o.write)(&v, &mut limited);
    let n = (o.write_forward)(&v, &mut only);
    cx.fp(&(d, &v, &c));
    cx.nontrivial(a.is_ok() && free.data.len() >= 2);
    cx.tag(if free.moved { "needs a seek" } else { "needs no seek" });
    cx.note(|| format!("declaration {} value {v:?} in pieces {c:?} -> {n:?} {}", f.0.defs[d].name, hex(&only.0.data)));
    let here = || format!("value {v:?} in pieces {c:?}: seekable {a:?} {}, limited {b:?} {}, forward only {n:?} {}; declaration:\n{}", hex(&free.data), hex(&limited.data), hex(&only.0.data), f.decl(d));
    let same = |x: &Result<(), DekuError>, y: &Result<(), DekuError>| match (x, y) {
        (Ok(()), Ok(())) => true,
        (Err(x), Err(y)) => same_err(x, y),
        _ => false,
    };
    if !same(&b, &n) || limited.data != only.0.data {
        return fail("forward-only output", here());
    }
    if !free.moved && (!same(&a, &n) || free.data != only.0.data) {
        return fail("no seek needed: output", here());
    }
    if free.moved && !is_seek_error(&n) {
        return fail("a seek that moves was granted on writing", here());
    }
    Ok(())
}

/// Histories of operations on the wrapper itself.
fn raw_read(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let n = s.below(40);
    let mut data = s.bytes(n);
    if s.chance(1, 2) {
        // text
        data.iter_mut().for_each(|b| *b &= 0x7f);
    }
    let skip = s.below(n + 1);
    let mut st = OnlyRead(RStream::new(&data));
    st.0.chunks = chunks(s);
    // positions count from where the wrapper starts
    st.0.pos = skip as u64;
    let mut w = NoSeek::new(st);
    let mut pos = 0u64;
    let mut log = vec![];
    let steps = 1 + s.below(12);
    for _ in 0..steps {
        let at = skip + pos as usize;
        let left = n - at;
        let bad = |log: &Vec<String>, m: String| fail("NoSeek reading", format!("{m}; input of {n}, wrapped at {skip}: {log:?}"));
        match s.below(9) {
            7 => {
                let mut buf = String::from("é");
                log.push("read_to_string".into());
                match (w.read_to_string(&mut buf), std::str::from_utf8(&data[at..])) {
                    (Ok(m), Ok(text)) if m == left && buf.strip_prefix('é') == Some(text) => pos += m as u64,
                    (Err(e), Err(_)) if e.kind() == ErrorKind::InvalidData && buf == "é" => break,
                    x => return bad(&log, format!("{x:?}")),
                }
            }
            8 => {
                // adaptors of the standard library on top of the wrapper
                let k = s.below(6);
                log.push(format!("take {k}"));
                let mut buf = vec![];
                match w.by_ref().take(k as u64).read_to_end(&mut buf) {
                    Ok(m) if m == k.min(left) && buf == data[at..at + m] => pos += m as u64,
                    x => return bad(&log, format!("{x:?}")),
                }
            }
            0 => {
                let k = s.below(10);
                let mut buf = vec![0; k];
                log.push(format!("read {k}"));
                match w.read(&mut buf) {
                    Ok(m) if m <= k && m <= left && buf[..m] == data[at..at + m] && (m > 0 || k == 0 || left == 0) => pos += m as u64,
                    Err(e) if e.kind() == ErrorKind::Interrupted => {}
                    x => return bad(&log, format!("{x:?}")),
                }
            }
            1 => {
                let k = s.below(10);
                let mut buf = vec![0; k];
                log.push(format!("read_exact {k}"));
                match w.read_exact(&mut buf) {
                    Ok(()) if k <= left && buf == data[at..at + k] => pos += k as u64,
                    Err(e) if k > left && e.kind() == ErrorKind::UnexpectedEof => break,
                    x => return bad(&log, format!("{x:?}")),
                }
            }
            2 => {
                let mut buf = vec![7];
                log.push("read_to_end".into());
                match w.read_to_end(&mut buf) {
                    Ok(m) if m == left && buf[1..] == data[at..] => pos += m as u64,
                    x => return bad(&log, format!("{x:?}")),
                }
            }
            3 => {
                let (mut a, mut b) = (vec![0; s.below(4)], vec![0; s.below(4)]);
                let k = a.len() + b.len();
                log.push(format!("read_vectored {} {}", a.len(), b.len()));
                let r = w.read_vectored(&mut [std::io::IoSliceMut::new(&mut a), std::io::IoSliceMut::new(&mut b)]);
                match r {
                    Ok(m) if m <= k && m <= left && [a, b].concat()[..m] == data[at..at + m] => pos += m as u64,
                    Err(e) if e.kind() == ErrorKind::Interrupted => {}
                    x => return bad(&log, format!("{x:?}")),
                }
            }
            _ => {
                let (to, ok) = match s.below(6) {
                    0 => (SeekFrom::Start(pos), true),
                    1 => (SeekFrom::Current(0), true),
                    2 => {
                        let k = s.int(8) as u64;
                        (SeekFrom::Start(k), k == pos)
                    }
                    3 => {
                        let k = s.int(8) as i64 - 128;
                        (SeekFrom::Current(k), k == 0)
                    }
                    4 => (SeekFrom::Start(*s.pick(&[u64::MAX, 0, pos + 1, pos.wrapping_sub(1), pos | 1 << 32])), false),
                    _ => (SeekFrom::End(s.below(4) as i64 - 2), false),
                };
                let ok = ok || matches!(to, SeekFrom::Start(p) if p == pos);
                log.push(format!("{to:?}"));
                match w.seek(to) {
                    Ok(p) if ok && p == pos => {}
                    Err(e) if !ok && e.kind() == ErrorKind::Other => {}
                    x => return bad(&log, format!("{x:?} at {pos}")),
                }
            }
        }
        if w.stream_position().ok() != Some(pos) {
            return fail("NoSeek position", format!("{:?} instead of {pos}: {log:?}", w.stream_position()));
        }
        if w.get_ref().0.pos != skip as u64 + pos || w.get_mut().0.pos != skip as u64 + pos {
            return fail("NoSeek took more than it gave", format!("{log:?}"));
        }
    }
    cx.fp(&(&log, &data));
    cx.nontrivial(pos > 0 && log.len() >= 2);
    cx.note(|| format!("{log:?} on {}", hex(&data)));
    let _ = w.into_inner();
    Ok(())
}
fn raw_write(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut st = OnlyWrite(WStream::new());
    st.0.chunks = chunks(s);
    let mut w = NoSeek::new(st);
    let mut out: Vec<u8> = vec![];
    let mut log = vec![];
    for _ in 0..1 + s.below(12) {
        let k = s.below(8);
        let b = s.bytes(k);
        let bad = |log: &Vec<String>, m: String| fail("NoSeek writing", format!("{m}: {log:?}"));
        match s.below(6) {
            5 => {
                log.push(format!("write! {}", hex(&b)));
                match write!(w, "{b:?}{k}") {
                    Ok(()) => out.extend(format!("{b:?}{k}").bytes()),
                    x => return bad(&log, format!("{x:?}")),
                }
            }
            0 => {
                log.push(format!("write {}", hex(&b)));
                match w.write(&b) {
                    Ok(m) if m <= k => out.extend(&b[..m]),
                    Err(e) if e.kind() == ErrorKind::Interrupted => {}
                    x => return bad(&log, format!("{x:?}")),
                }
            }
            1 => {
                log.push(format!("write_all {}", hex(&b)));
                match w.write_all(&b) {
                    Ok(()) => out.extend(&b),
                    x => return bad(&log, format!("{x:?}")),
                }
            }
            2 => {
                log.push(format!("write_vectored {}", hex(&b)));
                let (x, y) = b.split_at(k / 2);
                match w.write_vectored(&[std::io::IoSlice::new(x), std::io::IoSlice::new(y)]) {
                    Ok(m) if m <= k => out.extend(&b[..m]),
                    Err(e) if e.kind() == ErrorKind::Interrupted => {}
                    x => return bad(&log, format!("{x:?}")),
                }
            }
            3 => {
                log.push("flush".into());
                if w.flush().is_err() {
                    return bad(&log, "flush".into());
                }
            }
            _ => {
                let p = out.len() as u64;
                let (to, ok) = match s.below(4) {
                    0 => (SeekFrom::Start(p), true),
                    1 => (SeekFrom::Current(0), true),
                    2 => (SeekFrom::Start(p + 1 + s.below(3) as u64), false),
                    _ => (SeekFrom::End(0), false),
                };
                log.push(format!("{to:?}"));
                match w.seek(to) {
                    Ok(x) if ok && x == p => {}
                    Err(e) if !ok && e.kind() == ErrorKind::Other => {}
                    x => return bad(&log, format!("{x:?} at {p}")),
                }
            }
        }
        if w.stream_position().ok() != Some(out.len() as u64) || w.get_ref().0.data != out {
            return fail("NoSeek output", format!("position {:?}, output {}, written {}: {log:?}", w.stream_position(), hex(&w.get_ref().0.data), hex(&out)));
        }
    }
    cx.fp(&(&log, &out));
    cx.nontrivial(!out.is_empty() && log.len() >= 2);
    cx.note(|| format!("{log:?}"));
    Ok(())
}

/// Declarations whose encoding is as long as the input makes it.
trait Long: for<'a> DekuContainerRead<'a> + DekuContainerWrite + PartialEq + std::fmt::Debug {
    /// bits in front of the whole bytes
    const LEAD: usize;
    fn of(v: &[u8], h: u8) -> Self;
    fn bytes(v: &[u8], h: u8) -> Vec<u8>;
    /// the end of the input is the end of the value
    const OPEN: bool = false;
}
fn counted(v: &[u8], n: usize, t: &[u8]) -> Vec<u8> {
    [&(n as u32).to_le_bytes()[..], v, t].concat()
}
#[derive(DekuRead, DekuWrite, PartialEq, Debug)]
#[deku(endian = "little")]
struct LongBytes {
    n: u32,
    #[deku(count = "n")]
    v: Vec<u8>,
    t: u8,
}
impl Long for LongBytes {
    const LEAD: usize = 0;
    fn of(v: &[u8], h: u8) -> Self {
        LongBytes { n: v.len() as u32, v: v.to_vec(), t: h }
    }
    fn bytes(v: &[u8], h: u8) -> Vec<u8> {
        counted(v, v.len(), &[h])
    }
}
#[derive(DekuRead, DekuWrite, PartialEq, Debug)]
#[deku(endian = "little")]
struct LongShifted {
    #[deku(bits = 3)]
    h: u8,
    n: u32,
    #[deku(count = "n")]
    v: Vec<u8>,
    t: u8,
    #[deku(bits = 5)]
    e: u8,
}
impl Long for LongShifted {
    const LEAD: usize = 3;
    fn of(v: &[u8], h: u8) -> Self {
        LongShifted { h: h >> 5, n: v.len() as u32, v: v.to_vec(), t: h, e: 0 }
    }
    fn bytes(v: &[u8], h: u8) -> Vec<u8> {
        counted(v, v.len(), &[h])
    }
}
#[derive(DekuRead, DekuWrite, PartialEq, Debug)]
#[deku(endian = "little")]
struct LongWords {
    n: u32,
    #[deku(bytes_read = "n * 2")]
    v: Vec<u16>,
}
impl Long for LongWords {
    const LEAD: usize = 0;
    fn of(v: &[u8], _: u8) -> Self {
        let v: Vec<u16> = v.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
        LongWords { n: v.len() as u32, v }
    }
    fn bytes(v: &[u8], _: u8) -> Vec<u8> {
        counted(&v[..v.len() / 2 * 2], v.len() / 2, &[])
    }
}
#[derive(DekuRead, DekuWrite, PartialEq, Debug)]
struct LongText {
    v: std::ffi::CString,
    t: u8,
}
impl Long for LongText {
    const LEAD: usize = 0;
    fn of(v: &[u8], h: u8) -> Self {
        let v: Vec<u8> = v.iter().map(|x| x | 1).collect();
        LongText { v: std::ffi::CString::new(v).unwrap(), t: h }
    }
    fn bytes(v: &[u8], h: u8) -> Vec<u8> {
        v.iter().map(|x| x | 1).chain([0, h]).collect()
    }
}
#[derive(DekuRead, DekuWrite, PartialEq, Debug)]
struct LongRest {
    t: u8,
    #[deku(read_all)]
    v: Vec<u8>,
}
impl Long for LongRest {
    const LEAD: usize = 0;
    const OPEN: bool = true;
    fn of(v: &[u8], h: u8) -> Self {
        LongRest { t: h, v: v.to_vec() }
    }
    fn bytes(v: &[u8], h: u8) -> Vec<u8> {
        [&[h], v].concat()
    }
}
#[derive(DekuRead, DekuWrite, PartialEq, Debug)]
#[deku(endian = "little")]
struct LongGap {
    n: u32,
    #[deku(pad_bytes_after = "*n", pad_bits_after = "8")]
    h: u8,
    t: u8,
}
impl Long for LongGap {
    const LEAD: usize = 0;
    fn of(v: &[u8], h: u8) -> Self {
        LongGap { n: v.len() as u32, h, t: !h }
    }
    fn bytes(v: &[u8], h: u8) -> Vec<u8> {
        counted(&[], v.len(), &[&[h][..], &vec![0; v.len() + 1], &[!h]].concat())
    }
}
/// Much data in few elements: the same through every kind of stream, and incomplete when cut.
fn long<T: Long>(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let k = match s.below(4) {
        0 => s.below(40),
        1 => s.below(20_000),
        _ => (*s.pick(&[128usize, 1024, 4096, 8192, 12288, 16384]) + s.below(7)).saturating_sub(3),
    };
    let (a, m, h) = (s.byte(), s.byte() | 1, s.byte());
    let v: Vec<u8> = (0..k).map(|i| (i as u8).wrapping_mul(m).wrapping_add((i >> 8) as u8) ^ a).collect();
    let whole = T::bytes(&v, h);
    let mut out = vh::model::BitOut::default();
    if T::LEAD > 0 {
        out.put(&(0..T::LEAD).map(|i| h >> (7 - i) & 1 == 1).collect::<Vec<_>>(), vh::model::Ord2::Msb);
    }
    out.bytes(&whole, vh::model::Ord2::Msb);
    out.finalize();
    let whole = out.out;
    let want = T::of(&v, h);
    let name = std::any::type_name::<T>().rsplit("::").next().unwrap();
    cx.fp(&(name, k, a, m, h));
    cx.tag(name);
    cx.tag_if(k > 4096, "more than a page");
    cx.nontrivial(k > 100);
    cx.note(|| format!("{name} of {k} bytes"));
    let mut c: Vec<usize> = if s.chance(1, 3) { vec![] } else { (0..1 + s.below(4)).map(|_| *s.pick(&[1, 7, 511, 512, 4096, 5000])).collect() };
    if s.chance(1, 3) && !c.is_empty() {
        c.push(0);
    }
    let cut = if !T::OPEN && s.chance(1, 2) { s.below(whole.len()) } else { whole.len() };
    let extra = if T::OPEN || cut < whole.len() { 0 } else { s.below(3) };
    let mut data = whole[..cut].to_vec();
    data.extend(vec![0xa5; extra]);
    for kind in 0..3 {
        let mut st = RStream::new(&data);
        st.chunks = c.clone();
        st.forward = kind == 1;
        let (got, pos) = match kind {
            0 | 1 => (T::from_reader((&mut st, 0)), st.pos),
            _ => {
                let mut only = OnlyRead(st);
                let r = T::from_reader((&mut NoSeek::new(&mut only), 0));
                (r, only.0.pos)
            }
        };
        let here = || format!("{name} of {k} bytes, {} of {} bytes in pieces {c:?}, {}", cut, whole.len(), ["seekable", "limited", "forward only"][kind]);
        match &got {
            Ok((n, x)) if cut == whole.len() && *x == want => {
                if *n != whole.len() * 8 || pos != whole.len() as u64 {
                    return fail("long: consumed", format!("{n} bits, position {pos}; {}", here()));
                }
            }
            Err(DekuError::Incomplete(_)) if cut < whole.len() => {}
            Ok((n, _)) => return fail("long: value", format!("another value from {n} bits; {}", here())),
            Err(e) => return fail("long: outcome", format!("{e:?}; {}", here())),
        }
        let mut st = WStream::new();
        st.chunks = c.clone();
        st.forward = kind == 1;
        let (r, data) = match kind {
            0 | 1 => (deku::DekuWriter::to_writer(&want, &mut deku::writer::Writer::new(&mut st), ()), st.data),
            _ => {
                let mut only = OnlyWrite(st);
                let r = deku::DekuWriter::to_writer(&want, &mut deku::writer::Writer::new(&mut NoSeek::new(&mut only)), ());
                (r, only.0.data)
            }
        };
        if r.is_err() || data != whole {
            return fail("long: output", format!("{r:?}, {} bytes; {}", data.len(), here()));
        }
    }
    Ok(())
}

fn main() {
    let f = Fam::new("P21", SEED, SCALE);
    let table: Table = Box::leak(each!(p21).into_boxed_slice());
    vh::engine::main(Check {
        property: "P21",
        rule: "at least 16 bits were decoded, at least two bytes encoded, or at least two operations moved bytes through the wrapper",
        assumptions: vec![fam::ASSUME, "types that seek are expected to fail exactly when one of their seeks moves or looks at the end of the stream"],
        legs: vec![
            Leg::new("read", 250000, 5000000, move |s, cx| read(f, table, s, cx)),
            Leg::new("write", 200000, 4000000, move |s, cx| write(f, table, s, cx)),
            Leg::new("wrapper-read", 100000, 2000000, raw_read),
            Leg::new("wrapper-write", 80000, 1600000, raw_write),
            Leg::new("long", 8000, 160000, |s, cx| match s.below(6) {
                0 => long::<LongBytes>(s, cx),
                1 => long::<LongShifted>(s, cx),
                2 => long::<LongWords>(s, cx),
                3 => long::<LongText>(s, cx),
                4 => long::<LongRest>(s, cx),
                _ => long::<LongGap>(s, cx),
            }),
        ],
    })
}
