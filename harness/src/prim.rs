//! Reading and writing primitive types through the library, stating size and orders in each of the
//! ways it offers.
pub use crate::codec::*;
use crate::model::Ord2;

/// How a size and orders are stated.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ctx {
    EBits,
    EBitsO,
    EBytes,
    EBytesO,
    EO,
    E,
    Bytes,
    Bits,
    BitsO,
    O,
    Unit,
}
pub const CTXS: [Ctx; 11] = [Ctx::EBits, Ctx::EBitsO, Ctx::EBytes, Ctx::EBytesO, Ctx::EO, Ctx::E, Ctx::Bytes, Ctx::Bits, Ctx::BitsO, Ctx::O, Ctx::Unit];
impl Ctx {
    pub fn has_order(self) -> bool {
        matches!(self, Ctx::EBitsO | Ctx::EBytesO | Ctx::EO | Ctx::BitsO | Ctx::O)
    }
    pub fn has_endian(self) -> bool {
        matches!(self, Ctx::EBits | Ctx::EBitsO | Ctx::EBytes | Ctx::EBytesO | Ctx::EO | Ctx::E)
    }
    pub fn in_bits(self) -> bool {
        matches!(self, Ctx::EBits | Ctx::EBitsO | Ctx::Bits | Ctx::BitsO)
    }
    pub fn in_bytes(self) -> bool {
        matches!(self, Ctx::EBytes | Ctx::EBytesO | Ctx::Bytes)
    }
}

use deku::ctx::{BitSize, ByteSize, Endian, Order};
use deku::no_std_io::{Read, Seek, Write};
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuError, DekuReader, DekuWriter};

pub fn dord(o: Ord2) -> Order {
    match o {
        Ord2::Msb => Order::Msb0,
        Ord2::Lsb => Order::Lsb0,
    }
}
pub fn dend(e: End) -> Endian {
    match e {
        End::Little => Endian::Little,
        End::Big => Endian::Big,
    }
}

pub use crate::raw::Raw;

fn read_t<T, R: Read + Seek>(r: &mut Reader<R>, c: Ctx, n: usize, e: Endian, o: Order) -> Result<u128, DekuError>
where
    T: Raw + for<'a> DekuReader<'a, (Endian, BitSize)> + for<'a> DekuReader<'a, (Endian, BitSize, Order)> + for<'a> DekuReader<'a, (Endian, ByteSize)>
        + for<'a> DekuReader<'a, (Endian, ByteSize, Order)> + for<'a> DekuReader<'a, (Endian, Order)> + for<'a> DekuReader<'a, Endian>
        + for<'a> DekuReader<'a, ByteSize> + for<'a> DekuReader<'a, BitSize> + for<'a> DekuReader<'a, (BitSize, Order)> + for<'a> DekuReader<'a, Order> + for<'a> DekuReader<'a, ()>,
{
    Ok(match c {
        Ctx::EBits => T::from_reader_with_ctx(r, (e, BitSize(n))),
        Ctx::EBitsO => T::from_reader_with_ctx(r, (e, BitSize(n), o)),
        Ctx::EBytes => T::from_reader_with_ctx(r, (e, ByteSize(n / 8))),
        Ctx::EBytesO => T::from_reader_with_ctx(r, (e, ByteSize(n / 8), o)),
        Ctx::EO => T::from_reader_with_ctx(r, (e, o)),
        Ctx::E => T::from_reader_with_ctx(r, e),
        Ctx::Bytes => T::from_reader_with_ctx(r, ByteSize(n / 8)),
        Ctx::Bits => T::from_reader_with_ctx(r, BitSize(n)),
        Ctx::BitsO => T::from_reader_with_ctx(r, (BitSize(n), o)),
        Ctx::O => T::from_reader_with_ctx(r, o),
        Ctx::Unit => T::from_reader_with_ctx(r, ()),
    }?
    .raw())
}
fn write_t<T, W: Write + Seek>(w: &mut Writer<W>, v: u128, c: Ctx, n: usize, e: Endian, o: Order) -> Result<(), DekuError>
where
    T: Raw + DekuWriter<(Endian, BitSize)> + DekuWriter<(Endian, BitSize, Order)> + DekuWriter<(Endian, ByteSize)> + DekuWriter<(Endian, ByteSize, Order)>
        + DekuWriter<(Endian, Order)> + DekuWriter<Endian> + DekuWriter<ByteSize> + DekuWriter<BitSize> + DekuWriter<(BitSize, Order)> + DekuWriter<Order> + DekuWriter<()>,
{
    let x = T::of(v);
    match c {
        Ctx::EBits => x.to_writer(w, (e, BitSize(n))),
        Ctx::EBitsO => x.to_writer(w, (e, BitSize(n), o)),
        Ctx::EBytes => x.to_writer(w, (e, ByteSize(n / 8))),
        Ctx::EBytesO => x.to_writer(w, (e, ByteSize(n / 8), o)),
        Ctx::EO => x.to_writer(w, (e, o)),
        Ctx::E => x.to_writer(w, e),
        Ctx::Bytes => x.to_writer(w, ByteSize(n / 8)),
        Ctx::Bits => x.to_writer(w, BitSize(n)),
        Ctx::BitsO => x.to_writer(w, (BitSize(n), o)),
        Ctx::O => x.to_writer(w, o),
        Ctx::Unit => x.to_writer(w, ()),
    }
}
macro_rules! by_type {
    ($name:expr, $f:ident, $io:ident ($($a:expr),*)) => {
        match $name {
            "u8" => $f::<u8, $io>($($a),*), "u16" => $f::<u16, $io>($($a),*), "u32" => $f::<u32, $io>($($a),*), "u64" => $f::<u64, $io>($($a),*),
            "u128" => $f::<u128, $io>($($a),*), "usize" => $f::<usize, $io>($($a),*), "i8" => $f::<i8, $io>($($a),*), "i16" => $f::<i16, $io>($($a),*),
            "i32" => $f::<i32, $io>($($a),*), "i64" => $f::<i64, $io>($($a),*), "i128" => $f::<i128, $io>($($a),*), "isize" => $f::<isize, $io>($($a),*),
            "f32" => $f::<f32, $io>($($a),*), "f64" => $f::<f64, $io>($($a),*), "bool" => $f::<bool, $io>($($a),*),
            x => panic!("no type {x}"),
        }
    };
}
/// Decode through the library, stating size and orders as `c` does.
pub fn read<R: Read + Seek>(t: Ty, r: &mut Reader<R>, c: Ctx, n: usize, e: End, o: Ord2) -> Result<u128, DekuError> {
    by_type!(t.name, read_t, R(r, c, n, dend(e), dord(o)))
}
pub fn write<W: Write + Seek>(t: Ty, w: &mut Writer<W>, v: u128, c: Ctx, n: usize, e: End, o: Ord2) -> Result<(), DekuError> {
    by_type!(t.name, write_t, W(w, v, c, n, dend(e), dord(o)))
}
