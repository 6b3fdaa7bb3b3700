//! What generated declarations use as custom conversions, and its reference meaning.
use deku::ctx::{BitSize, Endian, Order};
use deku::no_std_io::{ErrorKind, Read, Seek, Write};
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuError, DekuReader, DekuWriter};

/// a refusal nothing else reports
pub const REFUSED: ErrorKind = ErrorKind::AddrInUse;
pub fn refused() -> DekuError {
    DekuError::Io(REFUSED)
}
pub fn rd_a<R: Read + Seek>(r: &mut Reader<R>, k: i64, off: usize) -> Result<u32, DekuError> {
    let b = u8::from_reader_with_ctx(r, ())?;
    Ok(dec_a(b, k, off))
}
pub fn rd_b<R: Read + Seek>(r: &mut Reader<R>, k: i64, off: usize) -> Result<u32, DekuError> {
    let b = u8::from_reader_with_ctx(r, (Endian::Big, BitSize(3), Order::Msb0))?;
    Ok(dec_b(b, k, off))
}
pub fn wr_a<W: Write + Seek>(w: &mut Writer<W>, v: &u32, k: i64, off: usize) -> Result<(), DekuError> {
    enc_a(*v, k, off).to_writer(w, ())
}
pub fn wr_b<W: Write + Seek>(w: &mut Writer<W>, v: &u32, k: i64, off: usize) -> Result<(), DekuError> {
    enc_b(*v, k, off).to_writer(w, (Endian::Big, BitSize(3), Order::Msb0))
}
/// byte, constant and bit offset; a bijection of the byte for the same constant and offset
pub fn dec_a(b: u8, k: i64, off: usize) -> u32 {
    (b ^ k as u8).wrapping_add(off as u8) as u32 | (off as u32 & 0xff) << 8
}
pub fn enc_a(v: u32, k: i64, off: usize) -> u8 {
    (v as u8).wrapping_sub(off as u8) ^ k as u8
}
pub fn dec_b(b: u8, k: i64, off: usize) -> u32 {
    (b as u32).wrapping_add(k as u32).wrapping_add(off as u32 * 8)
}
pub fn enc_b(v: u32, k: i64, off: usize) -> u8 {
    (v.wrapping_sub(k as u32).wrapping_sub(off as u32 * 8) & 7) as u8
}
