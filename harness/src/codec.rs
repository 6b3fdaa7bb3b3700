//! Reference meaning of the primitive types: bits in stream order are grouped into bytes of eight
//! (the last group may be short), each group is a number in the bit order, and the groups are
//! combined by the byte order.
use crate::model::{bits_of, number, Ord2};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum End {
    Little,
    Big,
}
pub fn native() -> End {
    if cfg!(target_endian = "little") { End::Little } else { End::Big }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Unsigned,
    Signed,
    Float,
    Bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Ty {
    pub name: &'static str,
    pub kind: Kind,
    /// width in bits
    pub w: usize,
}
pub const fn ty(name: &'static str, kind: Kind, w: usize) -> Ty {
    Ty { name, kind, w }
}
pub const TYPES: [Ty; 15] = [
    ty("u8", Kind::Unsigned, 8),
    ty("u16", Kind::Unsigned, 16),
    ty("u32", Kind::Unsigned, 32),
    ty("u64", Kind::Unsigned, 64),
    ty("u128", Kind::Unsigned, 128),
    ty("usize", Kind::Unsigned, usize::BITS as usize),
    ty("i8", Kind::Signed, 8),
    ty("i16", Kind::Signed, 16),
    ty("i32", Kind::Signed, 32),
    ty("i64", Kind::Signed, 64),
    ty("i128", Kind::Signed, 128),
    ty("isize", Kind::Signed, usize::BITS as usize),
    ty("f32", Kind::Float, 32),
    ty("f64", Kind::Float, 64),
    ty("bool", Kind::Bool, 8),
];

pub fn mask(v: u128, w: usize) -> u128 {
    if w >= 128 { v } else { v & ((1u128 << w) - 1) }
}

/// The value (its raw bits, `t.w` wide) that `bits` denote. `None` where no meaning is documented:
/// a signed big-endian least-significant-first number that is not a whole number of bytes.
pub fn decode(t: Ty, bits: &[bool], e: End, o: Ord2) -> Option<u128> {
    let n = bits.len();
    assert!(n <= t.w);
    let mut v = 0u128;
    match (e, o) {
        (End::Big, Ord2::Msb) => v = number(bits, Ord2::Msb),
        (End::Big, Ord2::Lsb) => {
            if t.kind == Kind::Signed && n % 8 != 0 && n > 8 {
                return None;
            }
            for c in bits.chunks(8) {
                v = v << 8 | number(c, o);
            }
        }
        (End::Little, _) => {
            for (i, c) in bits.chunks(8).enumerate() {
                v |= number(c, o) << (8 * i);
            }
        }
    }
    if t.kind == Kind::Signed && n > 0 && n < 128 && v >> (n - 1) & 1 == 1 {
        v |= u128::MAX << n;
    }
    Some(mask(v, t.w))
}

/// The bits that denote `v` in `n` bits, or `Err` when it is not representable there;
/// `Ok(None)` where no meaning is documented.
#[allow(clippy::result_unit_err)]
pub fn encode(t: Ty, v: u128, n: usize, e: End, o: Ord2) -> Result<Option<Vec<bool>>, ()> {
    if n > t.w {
        return Err(());
    }
    if t.kind == Kind::Signed {
        if (e, o) == (End::Big, Ord2::Lsb) && n % 8 != 0 && n > 8 {
            return Ok(None);
        }
        // two's complement in n bits
        let sv = if t.w < 128 && v >> (t.w - 1) & 1 == 1 { v | u128::MAX << t.w } else { v } as i128;
        let fits = n > 0 && n < 128 && (sv >> (n - 1) == 0 || sv >> (n - 1) == -1) || n == 128 || n == 0 && sv == 0;
        if !fits {
            return Err(());
        }
    } else if (e, o) == (End::Big, Ord2::Lsb) {
        let m = n.div_ceil(8);
        if mask(v, m * 8) != v || m > 0 && v & 0xff & !((1u128 << (n - 8 * (m - 1))) - 1) != 0 {
            return Err(());
        }
    } else if mask(v, n) != v {
        return Err(());
    }
    let m = n.div_ceil(8);
    Ok(Some(match (e, o) {
        (End::Big, Ord2::Msb) => bits_of(v, n, o),
        _ => {
            let mut out = vec![];
            for i in 0..m {
                let len = if i + 1 == m { n - 8 * i } else { 8 };
                let c = match e {
                    End::Little => v >> (8 * i),
                    End::Big => v >> (8 * (m - 1 - i)),
                } & 0xff;
                out.extend(bits_of(mask(c, len), len, o));
            }
            out
        }
    }))
}

