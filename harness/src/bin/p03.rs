//! P03: decoding of primitives against the reference meaning.
use deku::ctx::{BitSize, Endian, Order};
use deku::error::DekuError;
use deku::no_std_io::Cursor;
use deku::reader::Reader;
use vh::engine::guard;
use vh::model::{hex, number, show_bits, BitCur, Ord2};
use vh::prim::{self, Ctx, End, Kind, Ty, CTXS, TYPES};
use vh::{fail, Check, Cx, Fail, Leg, Src};

#[derive(Clone, Debug, Hash)]
struct Item {
    t: Ty,
    c: Ctx,
    n: usize,
    e: End,
    o: Ord2,
}

fn item(s: &mut Src, over: bool) -> Item {
    let t = *s.pick(&TYPES);
    let c = *s.pick(&CTXS);
    let e = if !c.has_endian() { prim::native() } else if s.chance(1, 2) { End::Big } else { End::Little };
    let o = if c.has_order() && s.chance(1, 2) { Ord2::Lsb } else { Ord2::Msb };
    let mut n = t.w;
    if c.in_bits() {
        n = match s.below(8) {
            0 => t.w,
            1 => t.w - s.below(t.w.min(9)),
            2 => 8 * s.range(0, t.w / 8),
            3 => s.range(0, t.w.min(9)),
            _ => s.range(0, t.w),
        };
        if over && s.chance(1, 4) {
            n = t.w + s.range(1, 70);
        }
    } else if c.in_bytes() {
        n = 8 * s.range(0, t.w / 8);
        if over && s.chance(1, 4) {
            n = t.w + 8 * s.range(1, 9);
        }
    }
    Item { t, c, n, e, o }
}

fn class(i: &Item) -> String {
    format!("{:?} {:?} {}{:?}", i.t.kind, i.c, if i.n % 8 == 0 { "bytes " } else { "bits " }, i.e)
}

fn case(s: &mut Src, cx: &mut Cx, over: bool) -> Result<(), Fail> {
    let len = s.range(0, 40);
    let mut data = s.bytes(len);
    let first = item(s, over);
    if first.t.kind == Kind::Bool && s.chance(2, 3) {
        data.iter_mut().for_each(|b| *b &= 0x81);
    }
    let mut c = Cursor::new(data.clone());
    let mut r = Reader::new(&mut c);
    let mut m = BitCur::new(&data);
    let mut hist: Vec<String> = vec![];
    // bring the reader to an arbitrary position
    let pre = if s.chance(3, 4) { s.range(0, 17) } else { 0 };
    let po = if s.chance(1, 2) { Ord2::Lsb } else { Ord2::Msb };
    if pre > 0 {
        if m.remaining() < pre {
            cx.discard();
            return Ok(());
        }
        hist.push(format!("read_bits {pre} {po:?}"));
        let want = m.take(pre, po).unwrap();
        let got = r.read_bits(pre, prim::dord(po));
        let mut got: Vec<bool> = match got { Ok(Some(b)) => b.iter().by_vals().collect(), _ => return fail("prefix", format!("{hist:?} on {}: {got:?}", hex(&data))) };
        if po == Ord2::Lsb { got.reverse(); }
        if got != want {
            return fail("prefix", format!("{hist:?} on {}: {} instead of {}", hex(&data), show_bits(&got), show_bits(&want)));
        }
    }
    let mut next = Some(first);
    let mut values = 0;
    for _ in 0..s.range(1, 4) {
        let it = next.take().unwrap_or_else(|| item(s, over));
        // the end-of-input test may buffer a byte
        if s.chance(1, 5) {
            hist.push("end".into());
            let e = r.end();
            if e != (m.remaining() == 0) {
                return fail("end", format!("{hist:?} on {}: end() = {e}", hex(&data)));
            }
        }
        hist.push(format!("{} {:?} n={} {:?} {:?}", it.t.name, it.c, it.n, it.e, it.o));
        let here = || format!("{hist:?} on {}", hex(&data));
        let before = r.bits_read;
        let got = match guard(|| prim::read(it.t, &mut r, it.c, it.n, it.e, it.o)) {
            Ok(v) => v,
            Err(p) => return fail(format!("panic {}", class(&it)), format!("{}: panicked: {p}", here())),
        };
        cx.sub += 1;
        if it.n > it.t.w {
            cx.tag("over");
            if !matches!(got, Err(DekuError::Parse(_))) {
                return fail(format!("oversize {}", class(&it)), format!("{}: size larger than the type gives {got:?}", here()));
            }
            if r.bits_read != before || r.rest() != m.rest() && r.rest().len() != 8 && !r.rest().is_empty() {
                return fail(format!("oversize consumed {}", class(&it)), format!("{}: a refused size consumed {} bits", here(), r.bits_read - before));
            }
            cx.nontrivial(true);
            continue;
        }
        let mis = !m.aligned();
        let Some(bits) = m.take(it.n, it.o) else {
            cx.tag("short");
            match got {
                Err(DekuError::Incomplete(k)) if k.bit_size() > 0 => {}
                _ => return fail(format!("short {}", class(&it)), format!("{}: too little input gives {got:?}", here())),
            }
            return Ok(());
        };
        let Some(want) = prim::decode(it.t, &bits, it.e, it.o) else {
            cx.tag("no-meaning");
            return Ok(());
        };
        if it.t.kind == Kind::Bool && want > 1 {
            cx.tag("bool-refused");
            if !matches!(got, Err(DekuError::Parse(_))) {
                return fail("bool", format!("{}: {want} gives {got:?}", here()));
            }
            cx.nontrivial(true);
            return Ok(());
        }
        match got {
            Ok(v) if v == want => {}
            _ => {
                return fail(
                    format!("value {}", class(&it)),
                    format!("{}: bits {} (as number {:x}) give {:x?}, reference {want:x}", here(), show_bits(&bits), number(&bits, it.o), got),
                )
            }
        }
        if r.bits_read != before + it.n {
            return fail(format!("consumed {}", class(&it)), format!("{}: consumed {} bits", here(), r.bits_read - before));
        }
        // a byte buffered by end() stays whole in front of a read of nothing
        if r.rest() != m.rest() && !(it.n == 0 && m.rest().is_empty() && r.rest().len() == 8) {
            return fail(format!("rest {}", class(&it)), format!("{}: remaining bits {} instead of {}", here(), show_bits(&r.rest()), show_bits(&m.rest())));
        }
        values += 1;
        cx.nontrivial(it.n > 0 && (mis || it.n % 8 != 0 || it.n < it.t.w || it.e == End::Big));
        cx.tag(format!("type-{}", it.t.name));
        cx.tag(format!("ctx-{:?}", it.c));
        cx.tag_if(mis, "unaligned");
        cx.tag_if(it.n == 0, "zero-size");
        cx.tag_if(it.t.kind == Kind::Signed && want >> (it.t.w - 1) & 1 == 1, "negative");
    }
    let _ = values;
    cx.fp(&(&hist, &data));
    cx.note(|| format!("{hist:?} on {}", hex(&data)));
    Ok(())
}

/// The names of the byte orders, and what stands for no choice.
fn orders(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut name = (*s.pick(&["little", "big"])).to_string();
    match s.below(8) {
        0 => name = name.to_uppercase(),
        1 => name.insert(s.below(name.len() + 1), ' '),
        2 => {
            name.remove(s.below(name.len()));
        }
        3 => name = ["", "lsb", "msb", "native", "network", "le", "be"][s.below(7)].into(),
        4 => name.push(s.range(97, 122) as u8 as char),
        _ => {}
    }
    let want = match name.as_str() {
        "little" => Some(Endian::Little),
        "big" => Some(Endian::Big),
        _ => None,
    };
    let got = name.parse::<Endian>().ok();
    cx.fp(&name);
    cx.nontrivial(want.is_some());
    cx.note(|| format!("{name:?} -> {got:?}"));
    if got != want {
        return fail("byte order named", format!("{name:?} gives {got:?}"));
    }
    let here = if cfg!(target_endian = "big") { Endian::Big } else { Endian::Little };
    let e = got.unwrap_or_default();
    if e != want.unwrap_or(here) || Endian::new() != here || e.is_le() != (e == Endian::Little) || e.is_be() != (e == Endian::Big) {
        return fail("byte order", format!("{name:?} gives {e:?}, little {}, big {}", e.is_le(), e.is_be()));
    }
    let v = s.u64();
    let k = s.below(9);
    let sizes = (BitSize::of::<u8>(), BitSize::of::<u64>(), BitSize::of::<[u16; 5]>(), BitSize::of_val(&v.to_le_bytes()[..k]), Order::default());
    if sizes != (BitSize(8), BitSize(64), BitSize(80), BitSize(8 * k), Order::Msb0) {
        return fail("size of a type", format!("{sizes:?} for {k} bytes"));
    }
    Ok(())
}

fn main() {
    vh::engine::main(Check {
        property: "P03",
        rule: "primitives of all 15 types decoded through all 11 ways of stating size and orders, one to four in a row, at arbitrary bit positions of random input, against a reference that groups bits into bytes; non-trivial: a read that is unaligned, shorter than the type, not whole bytes or big-endian, a refused size, or a refused boolean",
        assumptions: vec!["signed big-endian least-significant-first numbers of more than one byte that are not whole bytes have no documented meaning and are not compared"],
        legs: vec![
            Leg::new("orders", 5000, 50000, orders),
            Leg::new("fitting", 2_000_000, 60_000_000, |s, cx| case(s, cx, false)),
            Leg::new("oversize", 500_000, 10_000_000, |s, cx| case(s, cx, true)),
        ],
    });
}
