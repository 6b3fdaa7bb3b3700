//! What the checks do with a generated type, as plain functions over `Val`s.
use crate::io::{RStream, WStream};
use crate::val::{Gen, Val};
use deku::no_std_io::{Cursor, Read, Seek};
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuContainerRead, DekuContainerWrite, DekuEnumExt, DekuError, DekuReader, DekuSize, DekuUpdate, DekuWriter};

#[derive(Debug)]
pub struct ReadObs {
    pub res: Result<Val, DekuError>,
    pub bits: usize,
    /// unread bits of the partly read byte
    pub rest: Vec<bool>,
    pub pos: u64,
}
fn observe<T: Gen, R: Read + Seek>(r: &mut Reader<R>, res: Result<T, DekuError>) -> ReadObs {
    ReadObs { res: res.map(|v| v.to_val()), bits: r.bits_read, rest: r.rest().iter().copied().collect(), pos: 0 }
}
pub fn read<T: Gen + for<'a> DekuReader<'a, ()>>(data: &[u8]) -> ReadObs {
    let mut c = Cursor::new(data);
    let mut r = Reader::new(&mut c);
    let res = T::from_reader_with_ctx(&mut r, ());
    let mut o = observe(&mut r, res);
    o.pos = c.position();
    o
}
/// several values one after the other, through one reader
pub fn read_many<T: Gen + for<'a> DekuReader<'a, ()>>(data: &[u8], off: usize, n: usize) -> Vec<ReadObs> {
    let mut st = RStream::new(data);
    let mut v = vec![];
    let mut r = Reader::new(&mut st);
    if off > 0 {
        if let Err(e) = r.skip_bits(off, deku::ctx::Order::Msb0) {
            v.push(observe::<T, _>(&mut r, Err(e)));
            return v;
        }
    }
    for _ in 0..n {
        let res = T::from_reader_with_ctx(&mut r, ());
        let o = observe(&mut r, res);
        let bad = o.res.is_err();
        v.push(o);
        if bad {
            break;
        }
    }
    drop(r);
    if let Some(l) = v.last_mut() {
        l.pos = st.pos;
    }
    v
}
pub fn read_stream<T: Gen + for<'a> DekuReader<'a, ()>>(s: &mut RStream) -> ReadObs {
    let mut r = Reader::new(&mut *s);
    let res = T::from_reader_with_ctx(&mut r, ());
    let mut o = observe(&mut r, res);
    o.pos = s.pos;
    o
}
/// through `NoSeek`: forward-only input
pub fn read_noseek<T: Gen + for<'a> DekuReader<'a, ()>>(s: &mut crate::io::OnlyRead) -> ReadObs {
    let mut n = deku::noseek::NoSeek::new(&mut *s);
    let mut r = Reader::new(&mut n);
    let res = T::from_reader_with_ctx(&mut r, ());
    let mut o = observe(&mut r, res);
    o.pos = s.0.pos;
    o
}
pub fn from_reader_noseek<T: Gen + for<'a> DekuContainerRead<'a>>(s: &mut crate::io::OnlyRead, off: usize) -> Result<(usize, Val), DekuError> {
    let mut n = deku::noseek::NoSeek::new(&mut *s);
    let (n, v) = T::from_reader((&mut n, off))?;
    Ok((n, v.to_val()))
}
/// (where the remainder starts, bit offset within it, value)
pub type Rest = Result<(usize, usize, Val), DekuError>;
pub fn from_bytes<T: Gen + for<'a> DekuContainerRead<'a>>(data: &[u8], off: usize) -> Rest {
    let ((rest, bit), v) = T::from_bytes((data, off))?;
    Ok((data.len() - rest.len(), bit, v.to_val()))
}
/// what `from_bytes` reports as remainder, for comparing its bytes
pub fn from_bytes_rest<T: Gen + for<'a> DekuContainerRead<'a>>(data: &[u8], off: usize) -> Result<(Vec<u8>, usize, Val), DekuError> {
    let ((rest, bit), v) = T::from_bytes((data, off))?;
    Ok((rest.to_vec(), bit, v.to_val()))
}
pub fn from_reader<T: Gen + for<'a> DekuContainerRead<'a>>(s: &mut RStream, off: usize) -> Result<(usize, Val), DekuError> {
    let (n, v) = T::from_reader((s, off))?;
    Ok((n, v.to_val()))
}
pub fn try_from<T: Gen + for<'a> TryFrom<&'a [u8], Error = DekuError>>(data: &[u8]) -> Result<Val, DekuError> {
    T::try_from(data).map(|v| v.to_val())
}

#[derive(Debug)]
pub struct WriteObs {
    /// the value that was written; sets in iteration order
    pub val: Val,
    pub res: Result<Vec<u8>, DekuError>,
    /// bits written by the type itself
    pub bits: usize,
    /// bits of an incomplete last byte, before finalising
    pub rest: Vec<bool>,
}
/// The value a type makes of a `Val`; sets in iteration order.
pub fn settle<T: Gen>(v: &Val) -> Val {
    T::from_val(v).to_val()
}
pub fn write<T: Gen + DekuWriter<()>>(v: &Val) -> WriteObs {
    let x = T::from_val(v);
    let mut out = Vec::new();
    let mut cursor = Cursor::new(&mut out);
    let mut w = Writer::new(&mut cursor);
    let r = x.to_writer(&mut w, ());
    let bits = w.bits_written + w.rest().len();
    let rest = w.rest().to_vec();
    let r = r.and_then(|()| w.finalize());
    WriteObs { val: x.to_val(), res: r.map(|()| out), bits, rest }
}
pub fn write_stream<T: Gen + DekuWriter<()>>(v: &Val, s: &mut WStream) -> Result<(), DekuError> {
    let x = T::from_val(v);
    let mut w = Writer::new(&mut *s);
    x.to_writer(&mut w, ())?;
    w.finalize()
}
pub fn write_noseek<T: Gen + DekuWriter<()>>(v: &Val, s: &mut crate::io::OnlyWrite) -> Result<(), DekuError> {
    let x = T::from_val(v);
    let mut n = deku::noseek::NoSeek::new(&mut *s);
    let mut w = Writer::new(&mut n);
    x.to_writer(&mut w, ())?;
    w.finalize()
}
/// several values one after the other, through one writer
pub fn write_many<T: Gen + DekuWriter<()>>(v: &[Val]) -> (Vec<Val>, Result<Vec<u8>, DekuError>) {
    let mut out = Vec::new();
    let mut cursor = Cursor::new(&mut out);
    let mut w = Writer::new(&mut cursor);
    let x: Vec<T> = v.iter().map(T::from_val).collect();
    let r = x.iter().try_for_each(|x| x.to_writer(&mut w, ())).and_then(|()| w.finalize());
    (x.iter().map(|x| x.to_val()).collect(), r.map(|()| out))
}
pub fn to_bytes<T: Gen + DekuContainerWrite>(v: &Val) -> Result<Vec<u8>, DekuError> {
    T::from_val(v).to_bytes()
}
pub fn to_bits<T: Gen + DekuContainerWrite>(v: &Val) -> Result<Vec<bool>, DekuError> {
    Ok(T::from_val(v).to_bits()?.iter().map(|b| *b).collect())
}
pub fn to_slice<T: Gen + DekuContainerWrite>(v: &Val, buf: &mut [u8]) -> Result<usize, DekuError> {
    T::from_val(v).to_slice(buf)
}
pub fn into_vec<T: Gen>(v: &Val) -> Result<Vec<u8>, DekuError>
where
    Vec<u8>: TryFrom<T, Error = DekuError>,
{
    Vec::<u8>::try_from(T::from_val(v))
}
pub fn into_bits<T: Gen>(v: &Val) -> Result<Vec<bool>, DekuError>
where
    deku::bitvec::BitVec<u8, deku::bitvec::Msb0>: TryFrom<T, Error = DekuError>,
{
    Ok(deku::bitvec::BitVec::<u8, deku::bitvec::Msb0>::try_from(T::from_val(v))?.iter().map(|b| *b).collect())
}
/// result and the value afterwards
pub fn update<T: Gen + DekuUpdate>(v: &Val) -> (Result<(), DekuError>, Val) {
    let mut x = T::from_val(v);
    let r = x.update();
    (r, x.to_val())
}
pub fn deku_id<T: Gen + for<'a> DekuEnumExt<'a, I>, I: Gen>(v: &Val) -> Result<Val, DekuError> {
    T::from_val(v).deku_id().map(|i| i.to_val())
}
pub fn size<T: DekuSize>() -> (usize, Option<usize>) {
    (T::SIZE_BITS, T::SIZE_BYTES)
}
/// Value, whether it succeeded, and what the decode alone allocated.
pub fn read_measured<T: Gen + for<'a> DekuReader<'a, ()>>(data: &[u8]) -> (ReadObs, crate::alloc::Usage) {
    let mut c = Cursor::new(data);
    let mut r = Reader::new(&mut c);
    let (res, u) = crate::alloc::measure(|| T::from_reader_with_ctx(&mut r, ()));
    let mut o = observe(&mut r, res);
    o.pos = c.position();
    (o, u)
}
