//! P10: failing, short and interrupted transfers.
include!(concat!(env!("OUT_DIR"), "/p10.rs"));
use deku::bitvec::{BitSlice, Msb0};
use deku::ctx::Order;
use deku::no_std_io::{ErrorKind, SeekFrom, Seek};
use deku::reader::Reader;
use deku::writer::Writer;
use deku::error::NeedSize;
use deku::DekuError;
use vh::fam::{self, Fam};
use vh::interp::{self, class, E};
use vh::io::{Fault, RStream, WStream};
use vh::model::hex;
use vh::ops::{self, ReadObs};
use vh::val::Val;
use vh::{fail, Check, Cx, Fail, Leg, Src};

#[derive(Clone, Copy)]
struct Ops {
    read: fn(&mut RStream) -> ReadObs,
    from_reader: fn(&mut RStream, usize) -> Result<(usize, Val), DekuError>,
    write: fn(&Val, &mut WStream) -> Result<(), DekuError>,
    settle: fn(&Val) -> Val,
}
macro_rules! p10 { ($t:ty, $d:expr, $k:ident, $i:ty) => { ($d, Ops { read: ops::read_stream::<$t>, from_reader: ops::from_reader::<$t>, write: ops::write_stream::<$t>, settle: ops::settle::<$t> }) } }

/// `Interrupted` is retried and `UnexpectedEof` means the end, so these are neither.
const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
];
fn chunks(s: &mut Src) -> Vec<usize> {
    let mut v: Vec<usize> = (0..1 + s.below(5)).map(|_| *s.pick(&[1, 2, 0, 3, 5, 1])).collect();
    // some progress
    v.push(1 + s.below(3));
    v
}
fn kind(s: &mut Src) -> ErrorKind {
    *s.pick(&KINDS)
}
fn same_err(a: &DekuError, b: &DekuError) -> bool {
    class(a) == class(b)
}
fn same_read(a: &ReadObs, b: &ReadObs) -> bool {
    match (&a.res, &b.res) {
        (Ok(x), Ok(y)) => x.same(y) && a.bits == b.bits && a.rest == b.rest && a.pos == b.pos,
        (Err(x), Err(y)) => same_err(x, y),
        _ => false,
    }
}

fn chunks_read(f: Fam, table: &[(usize, Ops)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let data = interp::input(f.0, d, s);
    let mut plain = RStream::new(&data);
    let mut bad = RStream::new(&data);
    bad.chunks = chunks(s);
    let off = s.below(9);
    let a = (o.read)(&mut plain);
    let b = (o.read)(&mut bad);
    cx.fp(&(d, &data, &bad.chunks));
    cx.nontrivial(a.bits >= 16 && a.res.is_ok());
    cx.note(|| format!("declaration {} input {} in pieces of {:?} -> {}", f.0.defs[d].name, hex(&data), bad.chunks, fam::short(&b.res)));
    let here = || format!("pieces of {:?} (0: interrupted), input {}; declaration:\n{}", bad.chunks, hex(&data), f.decl(d));
    if !same_read(&a, &b) {
        return fail("pieces", format!("{} at once ({} bits, position {}), {} in pieces ({} bits, position {}); {}", fam::short(&a.res), a.bits, a.pos, fam::short(&b.res), b.bits, b.pos, here()));
    }
    let mut plain = RStream::new(&data);
    let mut bad = RStream::new(&data);
    bad.chunks = chunks(s);
    let x = (o.from_reader)(&mut plain, off);
    let y = (o.from_reader)(&mut bad, off);
    let same = match (&x, &y) {
        (Ok((n, v)), Ok((m, w))) => n == m && v.same(w) && plain.pos == bad.pos,
        (Err(x), Err(y)) => same_err(x, y),
        _ => false,
    };
    if !same {
        return fail("pieces", format!("from_reader at bit {off}: {x:?} at once, {y:?} in pieces of {:?}; input {}; declaration:\n{}", bad.chunks, hex(&data), f.decl(d)));
    }
    Ok(())
}

fn fault_read(f: Fam, table: &[(usize, Ops)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (d, o) = table[s.below(table.len())];
    let data = interp::input(f.0, d, s);
    let mut clean = RStream::new(&data);
    clean.chunks = if s.chance(1, 2) { chunks(s) } else { vec![] };
    let script = clean.chunks.clone();
    let a = (o.read)(&mut clean);
    let calls = clean.calls;
    let k = s.below(calls as usize + 1) as u64;
    let kd = kind(s);
    let sticky = s.chance(4, 5);
    let mut bad = RStream::new(&data);
    bad.chunks = script.clone();
    bad.fault = if sticky { Fault::From(k, kd) } else { Fault::At(k, kd) };
    let b = (o.read)(&mut bad);
    cx.fp(&(d, &data, k, sticky));
    cx.nontrivial(bad.faulted && k > 0);
    cx.tag_if(bad.faulted, "failed");
    cx.tag_if(bad.faulted && !bad.failed_transfer, "only seeks failed");
    cx.note(|| format!("declaration {} input {}, call {k} of {calls} fails with {kd:?} -> {}", f.0.defs[d].name, hex(&data), fam::short(&b.res)));
    let here = || format!("call {k} {} with {kd:?}, pieces {script:?}, without it {}; input {}; declaration:\n{}", if sticky { "and later ones fail" } else { "fails" }, fam::short(&a.res), hex(&data), f.decl(d));
    if !bad.faulted {
        return if same_read(&a, &b) { Ok(()) } else { fail("no fault", format!("{}: {}", fam::short(&b.res), here())) };
    }
    match (&b.res, &a.res) {
        (Err(DekuError::Io(x)), _) if *x == kd => Ok(()),
        // an input that only refuses to seek is a forward-only one
        (x, _) if !bad.failed_transfer && same_read(&a, &b) => {
            let _ = x;
            Ok(())
        }
        (Ok(v), Ok(w)) if v.same(w) && !sticky => Ok(()),
        (Ok(v), _) => fail("value from a failed stream", format!("{v:?}: {}", here())),
        (Err(_), _) if !sticky => Ok(()),
        (Err(e), _) => fail(format!("stream failure reported as {}", class(e)), format!("{e:?}: {}", here())),
    }
}

fn some_value(f: Fam, table: &[(usize, Ops)], s: &mut Src) -> Option<(usize, Ops, Val)> {
    let (d, o) = table[s.below(table.len())];
    let v = (o.settle)(&interp::value(f.0, d, s));
    // more than the outputs here hold
    let huge = interp::write(f.0, d, &v).res == Err(E::Undef("huge padding"));
    (!huge).then_some((d, o, v))
}
fn chunks_write(f: Fam, table: &[(usize, Ops)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let Some((d, o, v)) = some_value(f, table, s) else {
        cx.discard();
        return Ok(());
    };
    let mut plain = WStream::new();
    let mut bad = WStream::new();
    bad.chunks = chunks(s);
    let a = (o.write)(&v, &mut plain);
    let b = (o.write)(&v, &mut bad);
    cx.fp(&(d, &v, &bad.chunks));
    cx.nontrivial(a.is_ok() && plain.data.len() >= 2);
    cx.note(|| format!("declaration {} value {v:?} in pieces of {:?} -> {}", f.0.defs[d].name, bad.chunks, hex(&bad.data)));
    let same = match (&a, &b) {
        (Ok(()), Ok(())) => true,
        (Err(x), Err(y)) => same_err(x, y),
        _ => false,
    };
    if !same || plain.data != bad.data || plain.pos != bad.pos {
        return fail("pieces", format!("{a:?} {} at once, {b:?} {} in pieces of {:?}; value {v:?}; declaration:\n{}", hex(&plain.data), hex(&bad.data), bad.chunks, f.decl(d)));
    }
    Ok(())
}
fn fault_write(f: Fam, table: &[(usize, Ops)], s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let Some((d, o, v)) = some_value(f, table, s) else {
        cx.discard();
        return Ok(());
    };
    let m = interp::write(f.0, d, &v);
    let mut clean = WStream::new();
    clean.chunks = if s.chance(1, 2) { chunks(s) } else { vec![] };
    let script = clean.chunks.clone();
    let a = (o.write)(&v, &mut clean);
    let mut bad = WStream::new();
    bad.chunks = script.clone();
    let full = s.chance(1, 3);
    let (want, what);
    if full {
        let cap = s.below(clean.data.len() + 1);
        bad.cap = Some(cap);
        want = ErrorKind::WriteZero;
        what = format!("room for {cap} bytes");
    } else {
        let k = s.below(clean.calls as usize + 1) as u64;
        want = kind(s);
        bad.fault = if s.chance(4, 5) { Fault::From(k, want) } else { Fault::At(k, want) };
        what = format!("{:?}", bad.fault);
    }
    let b = (o.write)(&v, &mut bad);
    cx.fp(&(d, &v, &what));
    let hit = if full { a.is_ok() && bad.data.len() < clean.data.len() } else { bad.faulted };
    cx.nontrivial(hit && !bad.data.is_empty());
    cx.tag_if(hit, "failed");
    cx.note(|| format!("declaration {} value {v:?}, {what} -> {b:?}, handed over {}", f.0.defs[d].name, hex(&bad.data)));
    let here = || format!("{what}, pieces {script:?}, without it {a:?} {}; handed over {}; value {v:?}; declaration:\n{}", hex(&clean.data), hex(&bad.data), f.decl(d));
    if !hit {
        let same = a.is_ok() == b.is_ok() || full && (m.seeks || matches!(m.res, Err(E::Undef(_))) && f.decl(d).contains("seek_"));
        return if same { Ok(()) } else { fail("no fault", format!("{b:?}: {}", here())) };
    }
    match &b {
        Ok(()) => return fail("success on a failed stream", here()),
        Err(DekuError::Io(x)) if *x == want => {}
        Err(e) => return fail(format!("stream failure reported as {}", class(e)), format!("{e:?}: {}", here())),
    }
    // where the reference gives up, what it has not reached may seek
    let seeks = || m.seeks || matches!(m.res, Err(E::Undef(_))) && f.decl(d).contains("seek_");
    if !clean.data.starts_with(&bad.data) && !seeks() {
        return fail("not a prefix", here());
    }
    Ok(())
}

// ------------------------------------------------- the reader and writer themselves

#[derive(Clone, Debug)]
enum Op {
    Bits(usize, Order),
    Bytes(usize, Order),
    Four(Order),
    Skip(usize, Order),
    End,
    Seek(i64),
}
fn run(r: &mut Reader<&mut RStream>, op: &Op) -> Result<Vec<u8>, DekuError> {
    Ok(match op {
        Op::Bits(n, o) => r.read_bits(*n, *o)?.map(|b| b.iter().map(|b| *b as u8).collect()).unwrap_or_default(),
        Op::Bytes(n, o) => {
            let mut b = vec![0; *n];
            match r.read_bytes(*n, &mut b, *o)? {
                deku::reader::ReaderRet::Bytes => b,
                deku::reader::ReaderRet::Bits(x) => x.map(|b| b.iter().map(|b| *b as u8).collect()).unwrap_or_default(),
            }
        }
        Op::Four(o) => {
            let mut b = [0; 4];
            match r.read_bytes_const::<4>(&mut b, *o)? {
                deku::reader::ReaderRet::Bytes => b.to_vec(),
                deku::reader::ReaderRet::Bits(x) => x.map(|b| b.iter().map(|b| *b as u8).collect()).unwrap_or_default(),
            }
        }
        Op::Skip(n, o) => {
            r.skip_bits(*n, *o)?;
            vec![]
        }
        Op::End => vec![r.end() as u8],
        Op::Seek(n) => {
            r.seek(SeekFrom::Current(*n)).map_err(|e| DekuError::Io(e.kind()))?;
            vec![]
        }
    })
}
fn raw_read(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let n = 4 + s.below(30);
    let data = s.bytes(n);
    let base = if s.chance(1, 2) { Order::Msb0 } else { Order::Lsb0 };
    let n = 1 + s.below(8);
    let script: Vec<Op> = (0..n)
        .map(|_| match s.below(9) {
            0..=2 => Op::Bits(s.below(30), base),
            3 | 4 => Op::Bytes(s.below(9), base),
            5 => Op::Four(base),
            6 => Op::Skip(s.below(40), base),
            7 => Op::End,
            _ => Op::Seek(s.below(5) as i64 - 2),
        })
        .collect();
    let mut plain = RStream::new(&data);
    let mut count = RStream::new(&data);
    count.chunks = chunks(s);
    // how many calls there are to fail
    {
        let mut r = Reader::new(&mut count);
        let _ = script.iter().try_for_each(|op| run(&mut r, op).map(|_| ()));
    }
    let mut bad = RStream::new(&data);
    bad.chunks = count.chunks.clone();
    let kd = kind(s);
    let failing = s.chance(3, 4);
    if failing {
        bad.fault = Fault::From(s.below(count.calls as usize + 1) as u64, kd);
    }
    cx.fp(&(format!("{script:?}"), &data));
    let fault = bad.fault.clone();
    let here = |i: usize| format!("operation {i} of {script:?}, fault {fault:?}, pieces {:?}, input {}", count.chunks, hex(&data));
    let mut log = vec![];
    {
        let mut a = Reader::new(&mut plain);
        let mut b = Reader::new(&mut bad);
        for op in &script {
            let x = run(&mut a, op);
            let y = run(&mut b, op);
            let stop = x.is_err() || y.is_err();
            let bits = (a.bits_read, b.bits_read);
            log.push((x, y, bits, op, b.as_mut().faulted));
            if stop {
                break;
            }
        }
    }
    let last = log.len() - 1;
    cx.nontrivial(bad.faulted && last > 0 || !failing && last > 1);
    cx.tag_if(bad.faulted, "failed");
    cx.note(|| format!("{} -> {:?}", here(last), log.last().map(|l| &l.1)));
    for (i, (x, y, bits, op, faulted)) in log.iter().enumerate() {
        let ok = match (x, y) {
            (_, Err(DekuError::Io(e))) if failing && bad.faulted && *e == kd && i == last => true,
            // a stream that fails has not ended: the next read reports the failure
            (Ok(_), Ok(y)) if matches!(op, Op::End) && *faulted => y[..] == [0],
            (Ok(x), Ok(y)) => x == y && bits.0 == bits.1,
            (Err(x), Err(y)) => same_err(x, y),
            _ => false,
        };
        if !ok {
            return fail("raw read", format!("{x:?} normally ({} bits), {y:?} here ({} bits); {}", bits.0, bits.1, here(i)));
        }
    }
    Ok(())
}
#[derive(Clone, Debug)]
enum WOp {
    Bits(Vec<u8>, usize, Order),
    Bytes(Vec<u8>),
    Seek(u64),
}
fn wrun(w: &mut Writer<&mut WStream>, op: &WOp) -> Result<(), DekuError> {
    match op {
        WOp::Bits(b, n, o) => w.write_bits_order(&BitSlice::<u8, Msb0>::from_slice(b)[..*n], *o),
        WOp::Bytes(b) => w.write_bytes(b),
        WOp::Seek(n) => w.seek(SeekFrom::Start(*n)).map(|_| ()).map_err(|e| DekuError::Io(e.kind())),
    }
}
fn raw_write(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let base = if s.chance(1, 2) { Order::Msb0 } else { Order::Lsb0 };
    let n = 1 + s.below(8);
    let seeks = s.chance(1, 4);
    let script: Vec<WOp> = (0..n)
        .map(|_| match s.below(if seeks { 6 } else { 5 }) {
            0..=2 => {
                let n = s.below(40);
                WOp::Bits(s.bytes(n.div_ceil(8)), n, base)
            }
            3 | 4 => {
                let n = s.below(9);
                WOp::Bytes(s.bytes(n))
            }
            _ => WOp::Seek(s.below(9) as u64),
        })
        .collect();
    let go = |st: &mut WStream| -> (Result<(), DekuError>, usize) {
        let mut w = Writer::new(st);
        for op in &script {
            if let Err(e) = wrun(&mut w, op) {
                return (Err(e), w.bits_written);
            }
        }
        let r = w.finalize();
        (r, w.bits_written)
    };
    let mut plain = WStream::new();
    let (a, na) = go(&mut plain);
    let mut short = WStream::new();
    short.chunks = chunks(s);
    let (b, nb) = go(&mut short);
    let here = || format!("pieces {:?}, operations {script:?}", short.chunks);
    cx.fp(&format!("{script:?}"));
    cx.note(|| format!("{} -> {}", here(), hex(&short.data)));
    if a.is_ok() != b.is_ok() || na != nb || plain.data != short.data {
        return fail("raw pieces", format!("{a:?} {} at once, {b:?} {} in pieces; {}", hex(&plain.data), hex(&short.data), here()));
    }
    let mut bad = WStream::new();
    bad.chunks = short.chunks.clone();
    let mut want = kind(s);
    if s.chance(1, 3) {
        bad.cap = Some(s.below(plain.data.len() + 1));
        want = ErrorKind::WriteZero;
    } else {
        bad.fault = Fault::From(s.below(short.calls as usize + 1) as u64, want);
    }
    let what = format!("{:?} {:?}", bad.fault, bad.cap);
    let (c, _) = go(&mut bad);
    let hit = bad.faulted || bad.cap.is_some() && bad.data != plain.data;
    cx.nontrivial(hit && !bad.data.is_empty());
    cx.tag_if(hit, "failed");
    if !hit {
        return if c.is_ok() { Ok(()) } else { fail("raw no fault", format!("{c:?}: {what}; {}", here())) };
    }
    match c {
        Err(DekuError::Io(e)) if e == want => {}
        c => return fail("raw write", format!("{c:?}: {what}, handed over {} of {}; {}", hex(&bad.data), hex(&plain.data), here())),
    }
    if !seeks && !plain.data.starts_with(&bad.data) {
        return fail("raw not a prefix", format!("{what}, handed over {} of {}; {}", hex(&bad.data), hex(&plain.data), here()));
    }
    Ok(())
}

/// An error keeps its kind, its text and itself on the way into a standard error, and a standard error its kind on the
/// way back.
fn kinds(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let text: String = (0..s.below(12)).map(|_| (b' ' + s.below(95) as u8) as char).collect();
    let bits = match s.below(3) {
        0 => s.below(40),
        1 => s.below(1 << 20),
        _ => usize::MAX >> s.below(64),
    };
    let k = kind(s);
    let (e, want) = match s.below(6) {
        0 => (DekuError::Incomplete(NeedSize::new(bits)), ErrorKind::UnexpectedEof),
        1 => (DekuError::Parse(text.clone().into()), ErrorKind::InvalidData),
        2 => (DekuError::InvalidParam(text.clone().into()), ErrorKind::InvalidInput),
        3 => (DekuError::Assertion(text.clone().into()), ErrorKind::InvalidData),
        4 => (DekuError::IdVariantNotFound, ErrorKind::NotFound),
        _ => (DekuError::Io(k), k),
    };
    let io = std::io::Error::from(e.clone());
    let back = io.get_ref().and_then(|x| x.downcast_ref::<DekuError>()).cloned();
    cx.fp(&(&text, bits, format!("{e:?}")));
    cx.tag(format!("{e:?}").chars().take_while(|c| c.is_alphabetic()).collect::<String>());
    cx.nontrivial(true);
    cx.note(|| format!("{e:?} -> {io:?}"));
    if io.kind() != want || back.as_ref() != Some(&e) {
        return fail("error converted", format!("{e:?} becomes {io:?} of kind {:?}, declared {want:?}", io.kind()));
    }
    let shown = e.to_string();
    let tells = match &e {
        DekuError::Incomplete(n) => {
            let bytes = bits / 8 + usize::from(bits % 8 > 0);
            if n.bit_size() != bits || n.byte_size() != bytes {
                return fail("amount needed", format!("{bits} bits are {} bits and {} bytes", n.bit_size(), n.byte_size()));
            }
            shown.contains(&bits.to_string()) && shown.contains(&bytes.to_string())
        }
        DekuError::Parse(_) | DekuError::InvalidParam(_) | DekuError::Assertion(_) => shown.contains(&text),
        _ => !shown.is_empty(),
    };
    if !tells || io.to_string() != shown {
        return fail("error shown", format!("{e:?} is shown as {shown:?} and {:?}", io.to_string()));
    }
    let given = if s.chance(1, 2) { std::io::Error::from(k) } else { std::io::Error::new(k, text) };
    let got = DekuError::from(given);
    if got != DekuError::Io(k) {
        return fail("error taken over", format!("{k:?} becomes {got:?}"));
    }
    Ok(())
}

/// Declarations that move the stream, one for every attribute that does, on the type and on a field.
mod seeking {
    use deku::prelude::*;
    macro_rules! seeking {
        ($($t:ident $f:ident [$($a:tt)*])*) => { $(
            #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
            #[deku($($a)*)]
            pub struct $t { pub a: u8, pub b: u8 }
            #[derive(Debug, Clone, PartialEq, DekuRead, DekuWrite)]
            pub struct $f { pub a: u8, #[deku($($a)*)] pub b: u8 }
        )* }
    }
    seeking! {
        TRewind FRewind [seek_rewind]
        TStart FStart [seek_from_start = "5"]
        TCurrent FCurrent [seek_from_current = "2"]
        TBack FBack [seek_from_current = "-1"]
        TEnd FEnd [seek_from_end = "-3"]
    }
}
/// A stream that fails while a declaration moves it.
fn failing_seek(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    use deku::{DekuReader, DekuWriter};
    use seeking::*;
    let data: Vec<u8> = (0..12).map(|i| i * 16 + s.below(16) as u8).collect();
    let (which, kd, k, writing) = (s.below(10), kind(s), s.below(9) as u64, s.chance(1, 2));
    cx.fp(&(&data, which, k, writing));
    cx.note(|| format!("declaration {which}, call {k} and later ones fail with {kd:?}, writing: {writing}"));
    macro_rules! one {
        ($t:ty) => {{
            if writing {
                let mut from = RStream::new(&data);
                from.pos = 4;
                let v = { let mut r = Reader::new(&mut from); <$t>::from_reader_with_ctx(&mut r, ()) }.expect("twelve bytes are enough");
                let go = |f: Fault| {
                    let mut w = WStream::new();
                    w.data = data.clone();
                    w.pos = 4;
                    w.fault = f;
                    let r = { let mut w = Writer::new(&mut w); v.to_writer(&mut w, ()).and_then(|_| w.finalize()) };
                    (r.map(|_| w.data.clone()), w.faulted)
                };
                let (a, _) = go(Fault::None);
                let (b, met) = go(Fault::From(k, kd));
                (stringify!($t), format!("{a:?}"), a.is_ok(), format!("{b:?}"), b.as_ref().err().cloned(), met)
            } else {
                let go = |f: Fault| {
                    let mut w = RStream::new(&data);
                    w.pos = 4;
                    w.fault = f;
                    let r = { let mut r = Reader::new(&mut w); <$t>::from_reader_with_ctx(&mut r, ()) };
                    (r, w.faulted)
                };
                let (a, _) = go(Fault::None);
                let (b, met) = go(Fault::From(k, kd));
                (stringify!($t), format!("{a:?}"), a.is_ok(), format!("{b:?}"), b.as_ref().err().cloned(), met)
            }
        }};
    }
    let (name, clean, fine, got, err, met) = match which {
        0 => one!(TRewind),
        1 => one!(FRewind),
        2 => one!(TStart),
        3 => one!(FStart),
        4 => one!(TCurrent),
        5 => one!(FCurrent),
        6 => one!(TBack),
        7 => one!(FBack),
        8 => one!(TEnd),
        _ => one!(FEnd),
    };
    cx.tag(name);
    cx.nontrivial(met);
    if !fine {
        return fail("seeking", format!("{name} fails on an intact stream: {clean}"));
    }
    let ok = if met { err == Some(DekuError::Io(kd)) } else { got == clean };
    if ok { Ok(()) } else { fail("failing seek", format!("{name}, call {k} and later ones fail with {kd:?} (met: {met}), writing {writing}: {got}, intact {clean}")) }
}

fn main() {
    let f = Fam::new("P10", SEED, SCALE);
    let table: &'static [(usize, Ops)] = Box::leak(each!(p10).into_boxed_slice());
    vh::engine::main(Check {
        property: "P10",
        rule: "pieces: at least two bytes are transferred; failures: the failure was met, after something was transferred",
        assumptions: vec![
            fam::ASSUME,
            "interrupted transfers are retried and an unexpected end is the end of the input, so those two kinds are not injected as failures",
            "after a failure that happens once the operation may carry on if it gives the undisturbed value; a stream that only refuses to seek counts as forward-only",
        ],
        legs: vec![
            Leg::new("pieces-read", 200000, 4000000, move |s, cx| chunks_read(f, table, s, cx)),
            Leg::new("failing-read", 300000, 6000000, move |s, cx| fault_read(f, table, s, cx)),
            Leg::new("pieces-write", 150000, 3000000, move |s, cx| chunks_write(f, table, s, cx)),
            Leg::new("failing-write", 200000, 4000000, move |s, cx| fault_write(f, table, s, cx)),
            Leg::new("raw-read", 300000, 6000000, raw_read),
            Leg::new("raw-write", 200000, 4000000, raw_write),
            Leg::new("failing-seek", 60000, 1200000, failing_seek),
            Leg::new("kinds", 20000, 400000, kinds),
        ],
    })
}
