//! What the library does under the features this was built with, one answer per line of input.
#![allow(dead_code)]
extern crate self as vh;
#[path = "../../src/io.rs"]
pub mod io;
#[path = "../../src/model.rs"]
pub mod model;
#[path = "../../src/raw.rs"]
pub mod raw;
#[path = "../../src/val.rs"]
pub mod val;
#[path = "../../src/wire.rs"]
pub mod wire;

use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuContainerRead, DekuContainerWrite, DekuEnumExt, DekuError, DekuReader, DekuSize, DekuUpdate, DekuWriter};
use io::{OnlyRead, OnlyWrite, RStream, WStream};
use std::fmt::Write as _;
use val::Gen;
use wire::{get, hex, put, unhex};

fn err(e: DekuError) -> String {
    let c = match &e {
        // the amount is a hint
        DekuError::Incomplete(_) => "Incomplete".into(),
        DekuError::Parse(_) => "Parse".into(),
        DekuError::InvalidParam(_) => "InvalidParam".into(),
        DekuError::Assertion(_) => "Assertion".into(),
        DekuError::IdVariantNotFound => "IdVariantNotFound".into(),
        DekuError::Io(k) => format!("Io {k:?}"),
        x => format!("{x:?}"),
    };
    let _ = format!("{e} {e:?}");
    let io: deku::no_std_io::Error = e.into();
    let k = format!("{:?}", io.kind());
    let back: DekuError = io.into();
    format!("E {c} as {k} {}", matches!(back, DekuError::Io(x) if format!("{x:?}") == k))
}
fn seen<T: Gen>(r: Result<T, DekuError>) -> String {
    match r {
        Ok(v) => format!("V {}", put(&v.to_val())),
        Err(e) => err(e),
    }
}
#[cfg(feature = "alloc")]
fn rest<R: deku::no_std_io::Read + deku::no_std_io::Seek>(r: &mut Reader<R>) -> String {
    let b: Vec<bool> = r.rest().iter().copied().collect();
    b.iter().map(|b| if *b { '1' } else { '0' }).collect()
}
#[cfg(not(feature = "alloc"))]
fn rest<R: deku::no_std_io::Read + deku::no_std_io::Seek>(_: &mut Reader<R>) -> String {
    "?".into()
}
#[cfg(feature = "alloc")]
fn to_bytes<T: DekuContainerWrite>(x: &T) -> String {
    match x.to_bytes() {
        Ok(b) => format!("V {}", hex(&b)),
        Err(e) => err(e),
    }
}
#[cfg(not(feature = "alloc"))]
fn to_bytes<T: DekuContainerWrite>(_: &T) -> String {
    "?".into()
}
/// the operation, then the chunks of a stream (or nothing), then what it works on
fn common<T>(op: &str, chunks: &[usize], off: usize, arg: &str) -> String
where
    T: Gen + DekuWriter<()> + DekuContainerWrite + DekuUpdate + for<'a> DekuReader<'a, ()> + for<'a> DekuContainerRead<'a> + for<'a> TryFrom<&'a [u8], Error = DekuError>,
{
    let stream = |d: &[u8]| RStream { chunks: chunks.to_vec(), ..RStream::new(d) };
    match op {
        "read" => {
            let mut s = stream(&unhex(arg));
            let mut r = Reader::new(&mut s);
            let v = T::from_reader_with_ctx(&mut r, ());
            let (bits, rest) = (r.bits_read, if v.is_ok() { rest(&mut r) } else { String::new() });
            // after an error the position is nobody's business
            let pos = if v.is_ok() { s.pos } else { 0 };
            format!("{} bits {bits} rest {rest} at {pos}", seen(v))
        }
        "noseek" => {
            let mut s = OnlyRead(stream(&unhex(arg)));
            let mut n = deku::noseek::NoSeek::new(&mut s);
            let mut r = Reader::new(&mut n);
            let v = T::from_reader_with_ctx(&mut r, ());
            let bits = r.bits_read;
            format!("{} bits {bits}", seen(v))
        }
        "bytes" => {
            let d = unhex(arg);
            match T::from_bytes((&d, off)) {
                Ok(((rest, bit), v)) => format!("V {} rest {} {bit}", put(&v.to_val()), hex(rest)),
                Err(e) => err(e),
            }
        }
        "from" => {
            let mut s = stream(&unhex(arg));
            let r = T::from_reader((&mut s, off));
            match r {
                Ok((n, v)) => format!("V {} {n}", put(&v.to_val())),
                Err(e) => err(e),
            }
        }
        "try" => seen(T::try_from(&unhex(arg)[..])),
        "write" => {
            let x = T::from_val(&get(arg));
            let mut s = WStream { chunks: chunks.to_vec(), ..WStream::new() };
            let mut w = Writer::new(&mut s);
            let mut r = x.to_writer(&mut w, ());
            if r.is_ok() {
                r = w.finalize();
            }
            let n = w.bits_written;
            match r {
                Ok(()) => format!("V {} bits {n}", hex(&s.data)),
                Err(e) => err(e),
            }
        }
        "wnoseek" => {
            let x = T::from_val(&get(arg));
            let mut s = OnlyWrite(WStream { chunks: chunks.to_vec(), ..WStream::new() });
            let mut n = deku::noseek::NoSeek::new(&mut s);
            let mut w = Writer::new(&mut n);
            let mut r = x.to_writer(&mut w, ());
            if r.is_ok() {
                r = w.finalize();
            }
            drop(w);
            match r {
                Ok(()) => format!("V {}", hex(&s.0.data)),
                Err(e) => err(e),
            }
        }
        "slice" => {
            let x = T::from_val(&get(arg));
            let mut b = vec![0xa5u8; off];
            match x.to_slice(&mut b) {
                Ok(n) => format!("V {n} {}", hex(&b)),
                Err(e) => err(e),
            }
        }
        "tobytes" => to_bytes(&T::from_val(&get(arg))),
        "update" => {
            let mut x = T::from_val(&get(arg));
            let r = x.update();
            match r {
                Ok(()) => seen(Ok(x)),
                Err(e) => err(e),
            }
        }
        "bits" => crate::bits::<T>(arg),
        x => panic!("no operation {x}"),
    }
}
#[cfg(all(feature = "bits", feature = "alloc"))]
fn bits<T: Gen + DekuContainerWrite>(arg: &str) -> String {
    match T::from_val(&get(arg)).to_bits() {
        Ok(b) => format!("V {}", b.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>()),
        Err(e) => err(e),
    }
}
#[cfg(not(all(feature = "bits", feature = "alloc")))]
fn bits<T>(_: &str) -> String {
    "?".into()
}
fn deku_id<T: Gen + for<'a> DekuEnumExt<'a, I>, I: Gen>(arg: &str) -> String {
    let x = T::from_val(&get(arg));
    seen(x.deku_id())
}
macro_rules! one {
    ($t:ty, $d:expr, struct, $i:ty) => {
        ($d, common::<$t> as Common, None::<fn(&str) -> String>)
    };
    ($t:ty, $d:expr, enum, $i:ty) => {
        ($d, common::<$t> as Common, Some(deku_id::<$t, $i> as fn(&str) -> String))
    };
}
type Common = fn(&str, &[usize], usize, &str) -> String;
type Row = (usize, Common, Option<fn(&str) -> String>);
macro_rules! family {
    ($m:ident, $f:literal) => {
        mod $m {
            use super::*;
            include!(concat!(env!("OUT_DIR"), $f));
            pub fn rows() -> Vec<Row> {
                each!(one).to_vec()
            }
        }
    };
}
#[cfg(feature = "alloc")]
family!(p23, "/p23.rs");
family!(p23n, "/p23n.rs");
#[cfg(all(feature = "bits", feature = "alloc"))]
family!(p23b, "/p23b.rs");
#[cfg(feature = "bits")]
family!(p23m, "/p23m.rs");

#[cfg(feature = "logging")]
struct Log;
#[cfg(feature = "logging")]
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // what is said does not matter, saying it must not change anything
        let mut s = String::new();
        let _ = write!(s, "{}", r.args());
    }
    fn flush(&self) {}
}

fn main() {
    #[cfg(feature = "logging")]
    {
        static L: Log = Log;
        log::set_logger(&L).unwrap();
        log::set_max_level(log::LevelFilter::Trace);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut rows: std::collections::HashMap<(&str, usize), Row> = Default::default();
    #[cfg(feature = "alloc")]
    rows.extend(p23::rows().into_iter().map(|r| (("P23", r.0), r)));
    rows.extend(p23n::rows().into_iter().map(|r| (("P23N", r.0), r)));
    #[cfg(all(feature = "bits", feature = "alloc"))]
    rows.extend(p23b::rows().into_iter().map(|r| (("P23B", r.0), r)));
    #[cfg(feature = "bits")]
    rows.extend(p23m::rows().into_iter().map(|r| (("P23M", r.0), r)));
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split(' ').collect();
        let [fam, d, op, chunks, off, arg] = w[..] else { panic!("bad line {l}") };
        let chunks: Vec<usize> = chunks.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let answer = match rows.get(&(fam, d.parse().unwrap())) {
            None => "?".into(),
            Some(r) => std::panic::catch_unwind(|| if op == "id" { r.2.map_or("?".into(), |f| f(arg)) } else { r.1(op, &chunks, off.parse().unwrap(), arg) })
                .unwrap_or_else(|p| format!("panic {}", p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or_default())),
        };
        println!("{}", answer.replace('\n', " "));
    }
}
