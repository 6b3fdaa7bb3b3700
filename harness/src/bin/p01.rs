//! P01: the reader against the bit-string model, over histories of operations.
use deku::bitvec::{BitArray, BitSlice, Msb0};
use deku::ctx::Order;
use deku::error::DekuError;
use deku::no_std_io::{Cursor, Seek, SeekFrom};
use deku::reader::{Reader, ReaderRet};
use vh::model::{bits_of, hex, number, show_bits, BitCur, Ord2};
use vh::{fail, Check, Cx, Fail, Leg, Src};

fn o2(o: Order) -> Ord2 {
    match o {
        Order::Msb0 => Ord2::Msb,
        Order::Lsb0 => Ord2::Lsb,
    }
}

#[derive(Clone, Debug)]
enum Op {
    Bits(usize, Order),
    BitsInto(usize, usize, Order),
    Bytes(usize, usize, Order),
    Const(usize, Order),
    ConstInto(usize, Order),
    U8(Order),
    Prim(usize, usize),
    Skip(usize, Order),
    End,
    Rest,
    SeekStart(usize),
    SeekCur(i64),
    SeekEnd(i64),
}

struct Profile {
    seeks: bool,
    mixed: bool,
    over: bool,
}

fn gen_op(s: &mut Src, p: &Profile, len: usize, base: Order) -> Op {
    let o = if p.mixed && s.chance(1, 2) { if base == Order::Msb0 { Order::Lsb0 } else { Order::Msb0 } } else { base };
    let small = |s: &mut Src, over: bool| match s.below(10) {
        0..=5 => s.range(1, 9),
        6 => 0,
        7 => s.range(8, 40),
        8 => *s.pick(&[8, 16, 24, 32, 64, 128]),
        _ => if over { s.range(0, len * 8 + 9) } else { s.range(1, 20) },
    };
    let w = if p.seeks { [6, 3, 4, 2, 2, 2, 4, 4, 4, 2, 2, 2, 1] } else { [6, 3, 4, 2, 2, 2, 4, 4, 4, 2, 0, 0, 0] };
    match s.weighted(&w) {
        0 => Op::Bits(small(s, p.over), o),
        1 => Op::BitsInto(small(s, false).min(150), s.below(8), o),
        2 => {
            let n = match s.below(4) { 0 => s.below(2), 1 => s.below(5), 2 => s.below(12), _ => if p.over { s.below(len + 3) } else { s.below(3) } };
            Op::Bytes(n, s.below(3), o)
        }
        3 => Op::Const(*s.pick(&[1, 2, 3, 4, 8, 0]), o),
        4 => Op::ConstInto(*s.pick(&[1, 2, 3, 4, 8, 0]), o),
        5 => Op::U8(o),
        6 => { let w = *s.pick(&[8usize, 16, 32, 64]); Op::Prim(w, s.range(1, w)) }
        7 => Op::Skip(small(s, p.over), o),
        8 => Op::End,
        9 => Op::Rest,
        10 => Op::SeekStart(s.below(len + 3)),
        11 => Op::SeekCur(s.below(9) as i64 - 4),
        _ => Op::SeekEnd(-(s.below(len + 2) as i64) + s.below(2) as i64),
    }
}

fn msb_view(stream: &[bool], o: Order) -> Vec<bool> {
    let mut v = stream.to_vec();
    if o == Order::Lsb0 {
        v.reverse();
    }
    v
}

fn const_read<const N: usize>(r: &mut Reader<&mut Cursor<Vec<u8>>>, o: Order, into: bool) -> Result<Vec<u8>, DekuError> {
    let mut b = [0xA5u8; N];
    if into {
        r.read_bytes_const_into::<N>(&mut b, o)?;
    } else {
        match r.read_bytes_const::<N>(&mut b, o)? {
            ReaderRet::Bytes => {}
            ReaderRet::Bits(_) => return Err(DekuError::Parse("bits".into())),
        }
    }
    Ok(b.to_vec())
}

enum Got {
    Bits(Vec<bool>),
    Bytes(Vec<u8>),
    Num(u128),
    Unit,
}

fn history(s: &mut Src, cx: &mut Cx, p: &Profile) -> Result<(), Fail> {
    let len = match s.below(6) { 0 => s.below(3), 1..=3 => s.range(1, 8), _ => s.range(4, 40) };
    let data = s.bytes(len);
    let base = if s.chance(1, 2) { Order::Lsb0 } else { Order::Msb0 };
    let nops = s.range(1, 14);
    // without seeks the stream may start anywhere: counts are relative to the start
    let lead = if p.seeks { 0 } else { s.below(3) };
    let mut stream = vec![0x5Au8; lead];
    stream.extend_from_slice(&data);
    let mut cur = Cursor::new(stream);
    cur.set_position(lead as u64);
    let mut r = Reader::new(&mut cur);
    let mut m = BitCur::new(&data);
    let mut seeked = false;
    // bits consumed as the reader counts them: a seek sets it to the target position
    let mut kinds = 0u32;
    let mut crossed = 0;
    let mut hist = String::new();
    for _ in 0..nops {
        let op = gen_op(s, p, len, base);
        hist.push_str(&format!("{op:?} "));
        let before = m.clone();
        let pre_window = m.window();
        let here = || format!("input {} after [{}]", hex(&data), hist.trim_end());
        // ---- what the model says
        let want: Option<(Vec<bool>, Order)> = match &op {
            Op::Bits(n, o) | Op::Skip(n, o) => m.take(*n, o2(*o)).map(|b| (b, *o)),
            Op::BitsInto(n, _, o) => m.take(*n, o2(*o)).map(|b| (b, *o)),
            Op::Bytes(n, _, o) | Op::Const(n, o) | Op::ConstInto(n, o) => {
                // whole bytes: an aligned reader hands over bytes as they are
                m.take(*n * 8, if before.aligned() { Ord2::Msb } else { o2(*o) }).map(|b| (b, *o))
            }
            Op::U8(o) => m.take(8, if before.aligned() { Ord2::Msb } else { o2(*o) }).map(|b| (b, *o)),
            Op::Prim(_, n) => m.take(*n, Ord2::Msb).map(|b| (b, Order::Msb0)),
            _ => Some((vec![], Order::Msb0)),
        };
        let bytes_order = |o: Order| if before.aligned() { Ord2::Msb } else { o2(o) };
        // ---- what the reader does
        let got: Result<Got, DekuError> = match &op {
            Op::Bits(n, o) => r.read_bits(*n, *o).map(|b| Got::Bits(b.map(|b| b.iter().by_vals().collect()).unwrap_or_default())),
            Op::BitsInto(n, off, o) => {
                let mut arr: BitArray<[u8; 24], Msb0> = BitArray::ZERO;
                let dst: &mut BitSlice<u8, Msb0> = &mut arr[*off..*off + *n];
                let res = r.read_bits_into(dst, *o);
                let inside: Vec<bool> = arr[*off..*off + *n].iter().by_vals().collect();
                if arr[..*off].any() || arr[*off + *n..].any() {
                    return fail("wrote-outside", format!("{}: bits outside the destination changed", here()));
                }
                res.map(|_| Got::Bits(inside))
            }
            Op::Bytes(n, extra, o) => {
                let mut b = vec![0xA5u8; *n + *extra];
                let res = r.read_bytes(*n, &mut b, *o);
                if b[*n..].iter().any(|x| *x != 0xA5) {
                    return fail("wrote-outside", format!("{}: bytes beyond the requested amount changed", here()));
                }
                b.truncate(*n);
                match res {
                    Ok(ReaderRet::Bytes) => Ok(Got::Bytes(b)),
                    Ok(ReaderRet::Bits(v)) => Ok(Got::Bits(v.map(|b| b.iter().by_vals().collect()).unwrap_or_default())),
                    Err(e) => Err(e),
                }
            }
            Op::Const(n, o) | Op::ConstInto(n, o) => {
                let into = matches!(op, Op::ConstInto(..));
                match n {
                    0 => const_read::<0>(&mut r, *o, into),
                    1 => const_read::<1>(&mut r, *o, into),
                    2 => const_read::<2>(&mut r, *o, into),
                    3 => const_read::<3>(&mut r, *o, into),
                    4 => const_read::<4>(&mut r, *o, into),
                    _ => const_read::<8>(&mut r, *o, into),
                }
                .map(Got::Bytes)
            }
            Op::U8(o) => {
                use deku::ctx::{ByteSize, Endian};
                use deku::DekuReader;
                u8::from_reader_with_ctx(&mut r, (Endian::Big, ByteSize(1), *o)).map(|b| Got::Bytes(vec![b]))
            }
            Op::Prim(w, n) => {
                use deku::ctx::{BitSize, Endian};
                use deku::DekuReader;
                let c = (Endian::Big, BitSize(*n));
                match w {
                    8 => u8::from_reader_with_ctx(&mut r, c).map(|v| Got::Num(v as u128)),
                    16 => u16::from_reader_with_ctx(&mut r, c).map(|v| Got::Num(v as u128)),
                    32 => u32::from_reader_with_ctx(&mut r, c).map(|v| Got::Num(v as u128)),
                    _ => u64::from_reader_with_ctx(&mut r, c).map(|v| Got::Num(v as u128)),
                }
            }
            Op::Skip(n, o) => r.skip_bits(*n, *o).map(|_| Got::Unit),
            Op::End => {
                let e = r.end();
                if e != (m.remaining() == 0) {
                    return fail("end", format!("{}: end() = {e}, {} bits remain", here(), m.remaining()));
                }
                Ok(Got::Unit)
            }
            Op::Rest => {
                let rest = r.rest();
                // after an end test the peeked byte may be shown as remaining bits
                let peeked: Vec<bool> = if m.aligned() && m.next < data.len() { bits_of(data[m.next] as u128, 8, Ord2::Msb) } else { vec![] };
                if rest != m.rest() && !(m.aligned() && rest == peeked) {
                    return fail("rest", format!("{}: rest() = {}, model {}", here(), show_bits(&rest), show_bits(&m.rest())));
                }
                Ok(Got::Unit)
            }
            Op::SeekStart(_) | Op::SeekCur(_) | Op::SeekEnd(_) => {
                // relative to the byte position reached: a partly read byte counts as read
                let base = m.next as i64;
                let (f, t) = match &op {
                    Op::SeekStart(n) => (SeekFrom::Start(*n as u64), *n as i64),
                    Op::SeekCur(d) => (SeekFrom::Current(*d), base + d),
                    Op::SeekEnd(d) => (SeekFrom::End(*d), data.len() as i64 + d),
                    _ => unreachable!(),
                };
                seeked = true;
                match r.seek(f) {
                    Ok(n) if t >= 0 && n == t as u64 => m.seek(t as usize),
                    Ok(n) => return fail("seek-position", format!("{}: seek landed at {n}, expected {t}", here())),
                    Err(_) if t < 0 => return Ok(()),
                    Err(e) => return fail("seek-refused", format!("{}: seek to {t} refused: {e}", here())),
                }
                Ok(Got::Unit)
            }
        };
        cx.sub += 1;
        kinds |= 1 << match op { Op::Bits(..) => 0, Op::BitsInto(..) => 1, Op::Bytes(..) => 2, Op::Const(..) | Op::ConstInto(..) | Op::U8(..) => 3, Op::Prim(..) => 4, Op::Skip(..) => 5, Op::End => 6, Op::Rest => 7, _ => 8 };
        if pre_window > 0 && m.next > before.next {
            crossed += 1;
        }
        match (want, got) {
            (Some((w, o)), Ok(g)) => {
                let ok = match (&g, &op) {
                    (Got::Unit, _) => true,
                    (Got::Bits(b), Op::Bits(..) | Op::BitsInto(..)) => *b == msb_view(&w, o),
                    (Got::Bytes(b), _) => {
                        let bo = bytes_order(o);
                        let exp: Vec<u8> = w.chunks(8).map(|c| number(c, bo) as u8).collect();
                        *b == exp
                    }
                    (Got::Num(v), _) => *v == number(&w, Ord2::Msb),
                    _ => false,
                };
                if !ok {
                    let g = match g { Got::Bits(b) => show_bits(&b), Got::Bytes(b) => hex(&b), Got::Num(v) => v.to_string(), Got::Unit => String::new() };
                    return fail("wrong-bits", format!("{}: got {g}, the stream holds {} (in order read)", here(), show_bits(&w)));
                }
                let exp = m.pos_bits();
                if r.bits_read != exp {
                    return fail("bits-read", format!("{}: counted {} bits, {} consumed", here(), r.bits_read, exp));
                }
            }
            (None, Err(DekuError::Incomplete(n))) => {
                if n.bit_size() == 0 {
                    return fail("incomplete-zero", format!("{}: incomplete by zero bits", here()));
                }
                cx.tag("ends-incomplete");
                break;
            }
            (None, Ok(_)) => {
                return fail("past-end", format!("{}: succeeded beyond the end of the input", here()));
            }
            (None, Err(e)) => return fail("wrong-error", format!("{}: expected incomplete, got {e}", here())),
            (Some(_), Err(e)) => return fail("refused", format!("{}: failed with {e} though the input is there", here())),
        }
        if m.next > data.len() {
            // beyond the end: only the end test is left to ask
            if !r.end() {
                return fail("end", format!("{}: not at the end beyond the input", here()));
            }
            break;
        }
    }
    cx.tag(format!("kinds-{}", kinds.count_ones().min(6)));
    cx.tag_if(crossed > 0, "crossed-partial-byte");
    cx.tag_if(seeked, "seek");
    cx.nontrivial(kinds.count_ones() >= 2 && crossed > 0);
    cx.fp(&(&data, &hist));
    cx.note(|| format!("input {} ops {}", hex(&data), hist.trim_end()));
    Ok(())
}

fn main() {
    vh::engine::main(Check {
        property: "P01",
        rule: "random operation histories over random inputs, replayed on a window-per-byte bit model; non-trivial: at least two kinds of operation and at least one operation that crosses from a partly read byte into the next",
        assumptions: vec!["the inner stream is a faithful in-memory cursor starting at position 0 (stream faults are P10)"],
        legs: vec![
            Leg::new("one-order", 3_000_000, 60_000_000, |s, cx| history(s, cx, &Profile { seeks: false, mixed: false, over: true })),
            Leg::new("mixed-order", 3_000_000, 60_000_000, |s, cx| history(s, cx, &Profile { seeks: false, mixed: true, over: true })),
            Leg::new("seeking", 3_000_000, 60_000_000, |s, cx| history(s, cx, &Profile { seeks: true, mixed: true, over: false })),
        ],
    });
}
