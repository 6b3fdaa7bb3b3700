//! P02: the writer against the bit-string model, over histories of operations.
use deku::bitvec::{BitArray, Msb0};
use deku::ctx::{BitSize, ByteSize, Endian, Order};
use deku::error::DekuError;
use deku::no_std_io::Cursor;
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuReader, DekuWriter};
use vh::model::{bits_of, hex, show_bits, BitOut, Ord2};
use vh::{fail, Check, Cx, Fail, Leg, Src};

fn o2(o: Order) -> Ord2 {
    match o {
        Order::Msb0 => Ord2::Msb,
        Order::Lsb0 => Ord2::Lsb,
    }
}

#[derive(Clone, Debug)]
enum Op {
    /// bits in stream order, offset of the source slice, order
    Bits(Vec<bool>, usize, Order),
    /// most-significant-first entry point without an order
    BitsDefault(Vec<bool>, usize),
    Bytes(Vec<u8>),
    /// unsigned number of `width` bits of type, in `n` bits
    Prim(usize, usize, u64, Order, bool),
    /// no bits, in either order, at any place
    Nothing(Option<Order>),
    Rest,
}

fn bits_src(s: &mut Src, n: usize) -> Vec<bool> {
    match s.below(4) {
        0 => vec![true; n],
        _ => { let b = s.bytes(n.div_ceil(8)); (0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect() }
    }
}
fn len_src(s: &mut Src) -> usize {
    match s.below(10) {
        0..=5 => s.range(1, 9),
        6 => 0,
        7 => s.range(8, 40),
        8 => *s.pick(&[8, 16, 24, 32, 64, 128]),
        _ => s.range(0, 150),
    }
}

fn history(s: &mut Src, cx: &mut Cx, base: Option<Order>) -> Result<(), Fail> {
    let nops = s.range(1, 14);
    let mut sink = Cursor::new(Vec::<u8>::new());
    let mut m = BitOut::default();
    let mut hist: Vec<(Op, Order)> = vec![];
    let mut kinds = 0u32;
    let mut crossed = 0;
    let mut order = base.unwrap_or(if s.chance(1, 2) { Order::Lsb0 } else { Order::Msb0 });
    {
        let mut w = Writer::new(&mut sink);
        for _ in 0..nops {
            // the bit order changes only between bytes
            if base.is_none() && m.n == 0 && s.chance(1, 3) {
                order = if order == Order::Msb0 { Order::Lsb0 } else { Order::Msb0 };
            }
            let op = match s.weighted(&[6, 2, 4, 5, 2, 1]) {
                5 => Op::Nothing(*s.pick(&[None, Some(Order::Msb0), Some(Order::Lsb0)])),
                1 if order == Order::Msb0 => { let n = len_src(s); Op::BitsDefault(bits_src(s, n), s.below(8)) }
                0 | 1 => { let n = len_src(s); Op::Bits(bits_src(s, n), s.below(8), order) }
                2 => { let n = s.below(6); Op::Bytes(s.bytes(n)) }
                3 => {
                    let w = *s.pick(&[8usize, 16, 32, 64]);
                    let n = s.range(1, w);
                    let v = s.int(n) as u64;
                    let with_order = order == Order::Lsb0 || s.chance(1, 2);
                    Op::Prim(w, n, v, order, with_order)
                }
                _ => Op::Rest,
            };
            hist.push((op.clone(), order));
            let before = (m.n, m.flushed);
            let here = || format!("history {hist:?}");
            let res: Result<(), DekuError> = match &op {
                Op::Bits(b, off, o) => {
                    // the writer takes the bits as a number, most significant first
                    let mut v = b.clone();
                    if *o == Order::Lsb0 { v.reverse(); }
                    let mut arr: BitArray<[u8; 24], Msb0> = BitArray::ZERO;
                    for (i, x) in v.iter().enumerate() { arr.set(off + i, *x); }
                    m.put(b, o2(*o));
                    w.write_bits_order(&arr[*off..*off + b.len()], *o)
                }
                Op::BitsDefault(b, off) => {
                    let mut arr: BitArray<[u8; 24], Msb0> = BitArray::ZERO;
                    for (i, x) in b.iter().enumerate() { arr.set(off + i, *x); }
                    m.put(b, Ord2::Msb);
                    w.write_bits(&arr[*off..*off + b.len()])
                }
                Op::Bytes(b) => {
                    // bytes continue in the order of the pending bits
                    let o = if m.n == 0 { Ord2::Msb } else { o2(order) };
                    m.bytes(b, o);
                    w.write_bytes(b)
                }
                Op::Prim(width, n, v, o, with_order) => {
                    // byte groups in stream order; big-endian most-significant-first is the plain
                    // number, little-endian least-significant-first likewise
                    m.put(&bits_of(*v as u128, *n, o2(*o)), o2(*o));
                    let e = if *o == Order::Msb0 { Endian::Big } else { Endian::Little };
                    if *with_order {
                        let c = (e, BitSize(*n), *o);
                        match width { 8 => (*v as u8).to_writer(&mut w, c), 16 => (*v as u16).to_writer(&mut w, c), 32 => (*v as u32).to_writer(&mut w, c), _ => v.to_writer(&mut w, c) }
                    } else {
                        let c = (e, BitSize(*n));
                        match width { 8 => (*v as u8).to_writer(&mut w, c), 16 => (*v as u16).to_writer(&mut w, c), 32 => (*v as u32).to_writer(&mut w, c), _ => v.to_writer(&mut w, c) }
                    }
                }
                Op::Nothing(None) => w.write_bits(Default::default()),
                Op::Nothing(Some(o)) => w.write_bits_order(Default::default(), *o),
                Op::Rest => Ok(()),
            };
            if let Err(e) = res {
                return fail("refused", format!("{}: failed with {e}", here()));
            }
            cx.sub += 1;
            kinds |= 1 << match op { Op::Bits(..) => 0, Op::BitsDefault(..) => 1, Op::Bytes(..) => 2, Op::Prim(..) => 3, Op::Rest => 4, Op::Nothing(_) => 5 };
            if before.0 > 0 && m.flushed > before.1 { crossed += 1; }
            let rest = w.rest();
            if rest != m.pending() {
                return fail("pending", format!("{}: pending bits {}, model {}", here(), show_bits(&rest), show_bits(&m.pending())));
            }
            if w.bits_written != m.flushed {
                return fail("count", format!("{}: counted {} bits, {} flushed", here(), w.bits_written, m.flushed));
            }
        }
        if let Err(e) = w.finalize() {
            return fail("finalize", format!("finalize failed: {e}"));
        }
        m.finalize();
        if w.bits_written != m.flushed || !w.rest().is_empty() {
            return fail("finalize", format!("history {hist:?}: after finalize {} bits counted, model {}; pending bits may remain", w.bits_written, m.flushed));
        }
        // finalising again adds nothing
        let _ = w.finalize();
    }
    let out = sink.into_inner();
    if out != m.out {
        return fail("output", format!("history {hist:?}: wrote {}, model {}", hex(&out), hex(&m.out)));
    }
    // reading back with the same operations
    let mut c = Cursor::new(out.clone());
    let mut r = Reader::new(&mut c);
    for (op, o) in &hist {
        let ok = match op {
            Op::Bits(b, _, o) => r.read_bits(b.len(), *o).ok().flatten().map(|v| { let mut v: Vec<bool> = v.iter().by_vals().collect(); if *o == Order::Lsb0 { v.reverse(); } v == *b }).unwrap_or(b.is_empty()),
            Op::BitsDefault(b, _) => r.read_bits(b.len(), Order::Msb0).ok().flatten().map(|v| v.iter().by_vals().collect::<Vec<_>>() == *b).unwrap_or(b.is_empty()),
            Op::Bytes(b) => b.iter().all(|x| u8::from_reader_with_ctx(&mut r, (Endian::Big, ByteSize(1), *o)).ok() == Some(*x)),
            Op::Prim(_, n, v, o, _) => {
                let e = if *o == Order::Msb0 { Endian::Big } else { Endian::Little };
                u64::from_reader_with_ctx(&mut r, (e, BitSize(*n), *o)).ok() == Some(*v)
            }
            Op::Rest | Op::Nothing(_) => true,
        };
        if !ok {
            return fail("read-back", format!("history {hist:?}: {op:?} does not read back from {}", hex(&out)));
        }
    }
    cx.tag(format!("kinds-{}", kinds.count_ones()));
    cx.tag_if(crossed > 0, "crossed-partial-byte");
    cx.tag(format!("order-{order:?}"));
    cx.nontrivial(kinds.count_ones() >= 2 && crossed > 0);
    cx.fp(&format!("{hist:?}"));
    cx.note(|| format!("{hist:?} -> {}", hex(&out)));
    Ok(())
}

/// Orders changing inside a byte: where each bit lands is not specified, but none is lost or
/// invented and the counts stay exact.
fn conserve(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let nops = s.range(2, 10);
    let mut sink = Cursor::new(Vec::<u8>::new());
    let (mut total, mut ones, mut inside) = (0usize, 0usize, 0);
    let mut hist: Vec<(Vec<bool>, Order, bool)> = vec![];
    {
        let mut w = Writer::new(&mut sink);
        let mut last = Order::Msb0;
        for _ in 0..nops {
            let o = if s.chance(1, 2) { Order::Lsb0 } else { Order::Msb0 };
            let bytes = s.chance(1, 6);
            let n = if bytes { 8 * s.below(5) } else { len_src(s) };
            let b = bits_src(s, n);
            if total % 8 != 0 && o != last && !bytes && n > 0 { inside += 1; }
            if n > 0 && !bytes { last = o; }
            total += n;
            ones += b.iter().filter(|x| **x).count();
            hist.push((b.clone(), o, bytes));
            let mut arr: BitArray<[u8; 24], Msb0> = BitArray::ZERO;
            for (i, x) in b.iter().enumerate() { arr.set(i, *x); }
            let res = if bytes { w.write_bytes(&arr.into_inner()[..n / 8]) } else { w.write_bits_order(&arr[..n], o) };
            if let Err(e) = res { return fail("refused", format!("history {hist:?}: failed with {e}")); }
            cx.sub += 1;
            let rest = w.rest();
            if rest.len() >= 8 || w.bits_written + rest.len() != total || w.bits_written % 8 != 0 {
                return fail("mixed count", format!("history {hist:?}: {total} bits written, counted {} with {} pending", w.bits_written, rest.len()));
            }
        }
        if let Err(e) = w.finalize() { return fail("finalize", format!("history {hist:?}: finalize failed: {e}")); }
        if w.bits_written != total.div_ceil(8) * 8 || !w.rest().is_empty() {
            return fail("finalize", format!("history {hist:?}: {total} bits written, {} counted after finalize", w.bits_written));
        }
    }
    let out = sink.into_inner();
    let got: usize = out.iter().map(|x| x.count_ones() as usize).sum();
    if out.len() != total.div_ceil(8) || got != ones {
        return fail("mixed bits", format!("history {hist:?}: {total} bits with {ones} ones written, output {}", hex(&out)));
    }
    cx.tag_if(inside > 0, "changed-inside-byte");
    cx.nontrivial(inside > 0);
    cx.fp(&format!("{hist:?}"));
    cx.note(|| format!("{hist:?} -> {}", hex(&out)));
    Ok(())
}

fn main() {
    vh::engine::main(Check {
        property: "P02",
        rule: "random histories of bit, byte and number writes, compared after every operation with a byte-filling bit model and read back at the end; non-trivial: at least two kinds of operation and at least one that completes a byte begun by an earlier one",
        assumptions: vec!["the inner stream is a faithful in-memory cursor (stream faults are P10)", "where bits land is specified for bit orders that change between bytes; inside a byte only that no bit is lost, invented or miscounted"],
        legs: vec![
            Leg::new("msb", 1_000_000, 30_000_000, |s, cx| history(s, cx, Some(Order::Msb0))),
            Leg::new("lsb", 1_000_000, 30_000_000, |s, cx| history(s, cx, Some(Order::Lsb0))),
            Leg::new("switching", 1_000_000, 30_000_000, |s, cx| history(s, cx, None)),
            Leg::new("conserve", 500_000, 15_000_000, conserve),
        ],
    });
}
