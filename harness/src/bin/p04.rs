//! P04: encoding of primitives against the reference meaning, and back.
use deku::error::DekuError;
use deku::no_std_io::Cursor;
use deku::reader::Reader;
use deku::writer::Writer;
use vh::engine::guard;
use vh::model::{hex, show_bits, BitOut, Ord2};
use vh::prim::{self, Ctx, End, Kind, Ty, CTXS, TYPES};
use vh::{fail, Check, Cx, Fail, Leg, Src};

#[derive(Clone, Debug, Hash)]
struct Item {
    t: Ty,
    c: Ctx,
    n: usize,
    e: End,
    o: Ord2,
    v: u128,
}

fn size(s: &mut Src, t: Ty) -> usize {
    match s.below(8) {
        0 => t.w,
        1 => t.w - s.below(t.w.min(9)),
        2 => 8 * s.range(0, t.w / 8),
        3 => s.range(0, t.w.min(9)),
        _ => s.range(0, t.w),
    }
}

fn value(s: &mut Src, t: Ty, n: usize, e: End, o: Ord2) -> u128 {
    if t.kind == Kind::Bool {
        return s.below(2) as u128;
    }
    let n = n.min(t.w);
    match s.below(5) {
        // something decoding could produce
        0..=2 => {
            let b = s.bytes(n.div_ceil(8));
            let bits: Vec<bool> = (0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect();
            prim::decode(t, &bits, e, o).unwrap_or(0)
        }
        // around the limits
        3 => {
            let base: i128 = match s.below(4) {
                0 => 0,
                1 if n < 127 => 1i128 << n,
                2 if n > 0 && n <= 127 => 1i128 << (n - 1),
                _ if n > 0 && n <= 127 => -(1i128 << (n - 1)),
                _ => i128::MIN,
            };
            prim::mask(base.wrapping_add(s.below(5) as i128 - 2) as u128, t.w)
        }
        _ => s.int(t.w),
    }
}

fn class(i: &Item) -> String {
    format!("{:?} {:?} {}{:?} {:?}", i.t.kind, i.c, if i.n % 8 == 0 { "bytes " } else { "bits " }, i.e, i.o)
}

/// `one`: the order of everything in the history that is not a whole number of bytes
fn case(s: &mut Src, cx: &mut Cx, one: Ord2) -> Result<(), Fail> {
    let mut sink = Cursor::new(Vec::<u8>::new());
    let mut m = BitOut::default();
    let mut hist: Vec<String> = vec![];
    let mut wrote: Vec<(Item, usize)> = vec![];
    let mut panicked = None;
    {
        let mut w = Writer::new(&mut sink);
        let pre = if s.chance(2, 3) { s.range(0, 15) } else { 0 };
        if pre > 0 {
            let v = s.int(pre);
            let e = if one == Ord2::Msb { End::Big } else { End::Little };
            hist.push(format!("{pre} bits {v:x}"));
            let r = prim::write(TYPES[1], &mut w, v, Ctx::EBitsO, pre, e, one);
            if r.is_err() {
                return fail("prefix", format!("{hist:?}: {r:?}"));
            }
            m.put(&prim::encode(TYPES[1], v, pre, e, one).unwrap().unwrap(), one);
        }
        for _ in 0..s.range(1, 4) {
            let t = *s.pick(&TYPES);
            let c = *s.pick(&CTXS);
            let e = if !c.has_endian() { prim::native() } else if s.chance(1, 2) { End::Big } else { End::Little };
            // ways without an order are most-significant-first, sizes in bytes continue what is pending
            if c.in_bits() && !c.has_order() && one == Ord2::Lsb {
                continue;
            }
            let o = if c.in_bits() { one } else if m.n > 0 { one } else if c.has_order() && s.chance(1, 2) { Ord2::Lsb } else { Ord2::Msb };
            let mut n = if c.in_bits() { size(s, t) } else if c.in_bytes() { 8 * s.range(0, t.w / 8) } else { t.w };
            if (c.in_bits() || c.in_bytes()) && s.chance(1, 12) {
                n = t.w + 8 * s.range(1, 9);
                if c.in_bytes() && t.w == 8 {
                    continue; // bytes accept any size: a string hands its size on to each of its bytes
                }
            }
            let v = value(s, t, n, e, o);
            let it = Item { t, c, n, e, o, v };
            let want = prim::encode(t, v, n, e, o);
            if !c.in_bits() && n <= t.w && want.is_err() {
                continue; // a size in bytes keeps the low bytes; only sizes in bits are claimed
            }
            if want == Ok(None) {
                cx.tag("no-meaning");
                continue;
            }
            hist.push(format!("{} {v:x} {c:?} n={n} {e:?} {o:?}", t.name));
            let before = (w.bits_written, w.rest());
            let r = match guard(|| prim::write(t, &mut w, v, c, n, e, o)) {
                Ok(r) => r,
                Err(p) => { panicked = Some((it, p)); break; }
            };
            cx.sub += 1;
            cx.tag(format!("type-{}", t.name));
            cx.tag(format!("ctx-{c:?}"));
            match (want, r) {
                (Ok(Some(bits)), Ok(())) => {
                    cx.nontrivial(n > 0 && (before.1.len() % 8 != 0 || n < t.w || e == End::Big));
                    cx.tag_if(!before.1.is_empty(), "unaligned");
                    let at = m.total_bits();
                    m.put(&bits, o);
                    wrote.push((it.clone(), at));
                }
                (Ok(None), _) => unreachable!(),
                (Ok(_), Err(x)) => return fail(format!("refused {}", class(&it)), format!("{hist:?}: representable, but refused: {x}")),
                (Err(()), Ok(())) => return fail(format!("accepted {}", class(&it)), format!("{hist:?}: not representable, but accepted; pending now {}", show_bits(&w.rest()))),
                (Err(()), Err(x)) => {
                    cx.tag("refused");
                    cx.nontrivial(true);
                    if !matches!(x, DekuError::InvalidParam(_)) {
                        return fail(format!("error {}", class(&it)), format!("{hist:?}: refused with {x:?}"));
                    }
                }
            }
            let rest = w.rest();
            if rest != m.pending() || w.bits_written != m.flushed {
                return fail(format!("bits {}", class(&it)), format!("{hist:?}: {} bits flushed and {} pending, reference {} and {}", w.bits_written, show_bits(&rest), m.flushed, show_bits(&m.pending())));
            }
        }
        if panicked.is_none() {
            if let Err(e) = w.finalize() {
                return fail("finalize", format!("{hist:?}: {e}"));
            }
        } else {
            std::mem::forget(w);
        }
    }
    if let Some((it, p)) = panicked {
        return fail(format!("panic {}", class(&it)), format!("{hist:?}: panicked: {p}"));
    }
    m.finalize();
    let out = sink.into_inner();
    if out != m.out {
        return fail("output", format!("{hist:?}: wrote {}, reference {}", hex(&out), hex(&m.out)));
    }
    // every value decodes to itself with the same parameters
    for (it, at) in &wrote {
        let c = match it.c { Ctx::EBytes | Ctx::Bytes | Ctx::E | Ctx::Unit => Ctx::EBytesO, c => c };
        let mut cur = Cursor::new(out.clone());
        let mut r = Reader::new(&mut cur);
        if *at > 0 && r.read_bits(*at, prim::dord(one)).is_err() {
            return fail("read-back", format!("{hist:?}: cannot skip {at} bits of {}", hex(&out)));
        }
        let got = guard(|| prim::read(it.t, &mut r, c, it.n, it.e, it.o));
        if !matches!(got, Ok(Ok(v)) if v == it.v) {
            return fail(format!("read-back {}", class(it)), format!("{hist:?}: {it:?} at bit {at} of {} reads back as {got:x?}", hex(&out)));
        }
    }
    cx.fp(&hist);
    cx.note(|| format!("{hist:?} -> {}", hex(&out)));
    Ok(())
}

fn main() {
    vh::engine::main(Check {
        property: "P04",
        rule: "one to four primitives of all 15 types, values favouring limits and decodable patterns, encoded through all 11 ways of stating size and orders behind 0 to 15 earlier bits, output and pending bits compared with the reference after each, then every value decoded again; non-trivial: a write that is unaligned, narrower than the type or big-endian, or a refused value",
        assumptions: vec!["bit order changes only between bytes", "signed big-endian least-significant-first numbers of more than one byte that are not whole bytes have no documented meaning and are not compared", "a size given in bytes keeps the low bytes of the value, as an existing test fixes; only sizes in bits refuse"],
        legs: vec![
            Leg::new("msb", 1_200_000, 40_000_000, |s, cx| case(s, cx, Ord2::Msb)),
            Leg::new("lsb", 1_200_000, 40_000_000, |s, cx| case(s, cx, Ord2::Lsb)),
        ],
    });
}
