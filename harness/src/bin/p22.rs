//! P22: what becomes of the elements of a container whose decoding fails part way: drop accounting.
use deku::ctx::{BitSize, ByteSize, Endian, Limit, Order};
use deku::no_std_io::{Read, Seek};
use deku::reader::Reader;
use deku::{DekuContainerRead, DekuError, DekuRead, DekuReader};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::sync::Arc;
use vh::engine::guard;
use vh::interp::class;
use vh::io::RStream;
use vh::model::hex;
use vh::val::Det;
use vh::{fail, Check, Cx, Fail, Leg, Src};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Event {
    Nothing,
    /// the decoder of the k-th element fails
    Error(usize),
    /// it panics
    Panic(usize),
    /// the predicate panics on being shown the k-th element
    Predicate(usize),
    /// the conversion (map, assertion) after the contents fails
    After,
}
#[derive(Clone, Debug)]
struct Elt {
    val: u8,
    dropped: u32,
}
#[derive(Default)]
struct Book {
    made: Vec<Elt>,
    /// dropped or looked at without having been made
    unknown: u32,
    event: Option<Event>,
    fired: bool,
    shown: usize,
}
thread_local! {
    static BOOK: RefCell<Book> = RefCell::default();
}
fn book<T>(f: impl FnOnce(&mut Book) -> T) -> T {
    BOOK.with(|b| f(&mut b.borrow_mut()))
}
fn fire() {
    book(|b| b.fired = true)
}
fn enter(val: u8) -> usize {
    book(|b| {
        b.made.push(Elt { val, dropped: 0 });
        b.made.len() - 1
    })
}
fn leave(id: usize) {
    book(|b| match b.made.get_mut(id) {
        Some(e) => e.dropped += 1,
        None => b.unknown += 1,
    })
}
fn val(id: usize) -> u8 {
    book(|b| match b.made.get(id) {
        Some(e) => e.val,
        None => {
            b.unknown += 1;
            0
        }
    })
}
trait Elem: Sized + Eq + Hash + Clone + 'static {
    const SIZED: bool = true;
    fn new(id: usize) -> Self;
    fn id(&self) -> usize;
}
fn decode<E: Elem, R: Read + Seek>(r: &mut Reader<R>, bits: usize) -> Result<E, DekuError> {
    let v = u8::from_reader_with_ctx(r, BitSize(bits))?;
    let (k, event) = book(|b| (b.made.len(), b.event));
    match event {
        Some(Event::Error(j)) if j == k => {
            fire();
            Err(DekuError::InvalidParam("scripted".into()))
        }
        Some(Event::Panic(j)) if j == k => {
            fire();
            panic!("scripted")
        }
        _ => Ok(E::new(enter(v))),
    }
}
/// one byte
struct Small(u8);
/// as wide as a cache line, and checked
#[repr(align(32))]
struct Wide {
    magic: u64,
    id: u64,
    pad: [u64; 6],
}
/// owns memory
struct Owned(Box<usize>);
/// takes no space; which one is which is not known
struct Empty;
impl Elem for Small {
    fn new(id: usize) -> Self {
        Small(id as u8)
    }
    fn id(&self) -> usize {
        self.0 as usize
    }
}
impl Elem for Wide {
    fn new(id: usize) -> Self {
        Wide { magic: 0x600d ^ id as u64, id: id as u64, pad: [id as u64; 6] }
    }
    fn id(&self) -> usize {
        if self.magic == 0x600d ^ self.id && self.pad == [self.id; 6] { self.id as usize } else { usize::MAX }
    }
}
impl Elem for Owned {
    fn new(id: usize) -> Self {
        Owned(Box::new(id))
    }
    fn id(&self) -> usize {
        *self.0
    }
}
impl Elem for Empty {
    const SIZED: bool = false;
    fn new(_: usize) -> Self {
        Empty
    }
    /// the first that is still there
    fn id(&self) -> usize {
        book(|b| b.made.iter().position(|e| e.dropped == 0).unwrap_or(usize::MAX))
    }
}
macro_rules! elem { ($($t:ty),*) => { $(
    impl Drop for $t {
        fn drop(&mut self) {
            leave(self.id())
        }
    }
    impl Clone for $t {
        fn clone(&self) -> Self {
            <$t>::new(enter(val(self.id())))
        }
    }
    impl PartialEq for $t {
        fn eq(&self, o: &Self) -> bool {
            val(self.id()) == val(o.id())
        }
    }
    impl Eq for $t {}
    impl Hash for $t {
        fn hash<H: Hasher>(&self, h: &mut H) {
            val(self.id()).hash(h)
        }
    }
    impl DekuReader<'_, ()> for $t {
        fn from_reader_with_ctx<R: Read + Seek>(r: &mut Reader<R>, _: ()) -> Result<Self, DekuError> {
            decode(r, 8)
        }
    }
    impl DekuReader<'_, BitSize> for $t {
        fn from_reader_with_ctx<R: Read + Seek>(r: &mut Reader<R>, n: BitSize) -> Result<Self, DekuError> {
            decode(r, n.0)
        }
    }
    impl DekuReader<'_, Endian> for $t {
        fn from_reader_with_ctx<R: Read + Seek>(r: &mut Reader<R>, _: Endian) -> Result<Self, DekuError> {
            decode(r, 8)
        }
    }
    impl Flat for $t {
        fn flat(&self, out: &mut Vec<usize>) {
            out.push(self.id())
        }
    }
)* } }
elem!(Small, Wide, Owned, Empty);
/// The elements in order.
trait Flat {
    /// some of what was decoded may be gone, and the order is not kept
    const SET: bool = false;
    fn flat(&self, out: &mut Vec<usize>);
}
macro_rules! deref { ($(<$($g:ident),*> $t:ty, $e:ty);*) => { $( impl<$($g: Flat),*> Flat for $t {
    const SET: bool = <$e as Flat>::SET;
    fn flat(&self, out: &mut Vec<usize>) {
        self.iter().for_each(|x| x.flat(out))
    }
} )* } }
deref!(<T> Vec<T>, T; <T> Box<[T]>, T; <T> Arc<[T]>, T; <T> Option<T>, T);
impl<T: Flat, const N: usize> Flat for [T; N] {
    const SET: bool = T::SET;
    fn flat(&self, out: &mut Vec<usize>) {
        self.iter().for_each(|x| x.flat(out))
    }
}
impl<T: Flat> Flat for Box<T> {
    const SET: bool = T::SET;
    fn flat(&self, out: &mut Vec<usize>) {
        (**self).flat(out)
    }
}
impl<T: Flat> Flat for Arc<T> {
    const SET: bool = T::SET;
    fn flat(&self, out: &mut Vec<usize>) {
        (**self).flat(out)
    }
}
impl<T: Flat + Clone> Flat for Cow<'_, T> {
    fn flat(&self, out: &mut Vec<usize>) {
        (**self).flat(out)
    }
}
impl<T: Flat> Flat for HashSet<T, Det> {
    const SET: bool = true;
    fn flat(&self, out: &mut Vec<usize>) {
        self.iter().for_each(|x| x.flat(out))
    }
}
impl<K: Flat, V: Flat> Flat for HashMap<K, V, Det> {
    const SET: bool = true;
    fn flat(&self, out: &mut Vec<usize>) {
        self.iter().for_each(|(k, v)| {
            k.flat(out);
            v.flat(out)
        })
    }
}
impl Flat for u8 {
    fn flat(&self, _: &mut Vec<usize>) {}
}
macro_rules! tuple { ($($t:ident $i:tt),*) => { impl<$($t: Flat),*> Flat for ($($t,)*) {
    const SET: bool = false $(|| $t::SET)*;
    fn flat(&self, out: &mut Vec<usize>) {
        $(self.$i.flat(out);)*
    }
} } }
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);

fn after() -> bool {
    let ok = book(|b| b.event != Some(Event::After));
    if !ok {
        fire();
    }
    ok
}
fn convert<E>(v: E) -> Result<E, DekuError> {
    if after() { Ok(v) } else { Err(DekuError::Parse("scripted".into())) }
}
fn seen<E: Elem>(v: &E, stop: impl Fn(u8) -> bool) -> bool {
    let (k, event) = book(|b| {
        b.shown += 1;
        (b.shown - 1, b.event)
    });
    if event == Some(Event::Predicate(k)) {
        fire();
        panic!("scripted")
    }
    stop(val(v.id()))
}
/// Declared types around the elements.
#[derive(DekuRead)]
pub struct Plain<E>
where
    E: Elem + for<'x> DekuReader<'x> + for<'x> DekuReader<'x, BitSize>,
{
    n: u8,
    a: [E; 3],
    #[deku(bits = 4)]
    b: [[E; 2]; 2],
    #[deku(count = "*n % 5")]
    v: Vec<E>,
    #[deku(assert = "after()")]
    t: (E, E),
    #[deku(map = "convert")]
    m: [E; 2],
}
#[derive(DekuRead)]
#[deku(id_type = "u8")]
pub enum Choice<E>
where
    E: Elem + for<'x> DekuReader<'x> + for<'x> DekuReader<'x, BitSize>,
{
    #[deku(id = 0)]
    A([E; 4], #[deku(assert = "after()")] E),
    #[deku(id_pat = "1..=127")]
    B {
        n: u8,
        #[deku(pad_bits_before = "3")]
        x: Box<[E; 2]>,
        #[deku(until = "|v: &E| seen(v, |k| k < 40)")]
        v: Vec<E>,
        #[deku(cond = "v.len() > 1")]
        y: Option<[E; 2]>,
    },
    #[deku(id_pat = "_")]
    C(u8, [E; 1], #[deku(bits = 3)] [E; 5], #[deku(magic = b"\x00", assert = "after()")] Option<E>),
}

/// A temporary array, and one that is thrown away by a conversion.
#[deku::deku_derive(DekuRead)]
pub struct Fleeting<E>
where
    E: Elem + for<'x> DekuReader<'x> + for<'x> DekuReader<'x, BitSize>,
{
    #[deku(temp)]
    _a: [E; 3],
    #[deku(temp, count = "2")]
    _v: Vec<E>,
    #[deku(map = "|x: [E; 3]| { drop(x); convert(()) }")]
    _m: (),
    #[deku(assert = "after()")]
    c: E,
}
macro_rules! flat_def { ($($t:ident $set:expr, |$s:ident, $o:ident| $f:expr);*) => { $(
    impl<E: Elem + Flat + for<'x> DekuReader<'x> + for<'x> DekuReader<'x, BitSize>> Flat for $t<E> {
        const SET: bool = $set;
        fn flat(&self, $o: &mut Vec<usize>) {
            let $s = self;
            $f
        }
    }
)* } }
flat_def!(Plain false, |s, o| {
    s.a.flat(o);
    s.b.flat(o);
    s.v.flat(o);
    s.t.flat(o);
    s.m.flat(o);
}; Choice false, |s, o| match s {
    Choice::A(a, b) => {
        a.flat(o);
        b.flat(o);
    }
    Choice::B { x, v, y, .. } => {
        x.flat(o);
        v.flat(o);
        y.flat(o);
    }
    Choice::C(_, a, b, c) => {
        a.flat(o);
        b.flat(o);
        c.flat(o);
    }
}; Fleeting true, |s, o| s.c.flat(o));

/// `read` decodes a container from the input; what is left of its elements must add up.
fn account<C: Flat>(name: &str, sized: bool, predicate: bool, read: &dyn Fn(&[u8], usize) -> Option<Result<C, DekuError>>, s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let n = s.below(28);
    let data = s.bytes(n);
    let off = if s.chance(1, 2) { 0 } else { s.below(9) };
    let event = match s.below(if predicate { 7 } else { 6 }) {
        0 => Event::Nothing,
        1 | 2 => Event::Error(s.below(12)),
        3 | 4 => Event::Panic(s.below(12)),
        5 => Event::After,
        _ => Event::Predicate(s.below(6)),
    };
    book(|b| *b = Book { event: Some(event), ..Book::default() });
    let r = guard(|| read(&data, off));
    let (made, fired) = book(|b| (b.made.clone(), b.fired));
    cx.fp(&(name, &data, off, format!("{event:?}")));
    cx.tag(match &r {
        Ok(Some(Ok(_))) => "decoded",
        Ok(Some(Err(_))) if fired => "made to fail",
        Ok(_) => "failed",
        Err(_) => "panicked",
    });
    cx.nontrivial(!made.is_empty() && (fired || made.len() > 1));
    let here = |m: &str| format!("{name}: {m}; {event:?}, from bit {off} of {}; elements made with how often they were dropped {:?}", hex(&data), book(|b| b.made.iter().map(|e| (e.val, e.dropped)).collect::<Vec<_>>()));
    cx.note(|| here(""));
    let strange = || book(|b| b.unknown);
    match r {
        Ok(None) => return Ok(()),
        Err(m) => {
            // what had been decoded may be leaked, but not dropped again
            if !m.contains("scripted") || !matches!(event, Event::Panic(_) | Event::Predicate(_)) {
                return fail("panic", here(&m));
            }
            if book(|b| b.made.iter().any(|e| e.dropped > 1)) {
                return fail("dropped twice after a panic", here(&m));
            }
        }
        Ok(Some(Err(e))) => {
            let want = match event {
                Event::Error(_) if fired => "InvalidParam",
                Event::After if fired => "Parse or Assertion",
                _ => "",
            };
            if !want.is_empty() && !want.contains(&class(&e)) {
                return fail("another error", here(&format!("{e:?}")));
            }
            if made.iter().any(|e| e.dropped != 1) {
                return fail("not dropped exactly once after an error", here(&format!("{e:?}")));
            }
        }
        Ok(Some(Ok(c))) => {
            if fired {
                return fail("an error was lost", here("a value"));
            }
            let mut ids = vec![];
            c.flat(&mut ids);
            if strange() > 0 || ids.iter().any(|i| *i >= made.len()) {
                return fail("elements that were not decoded", here(&format!("elements {ids:?}")));
            }
            if C::SET {
                let mut seen = HashSet::new();
                if sized && !ids.iter().all(|i| seen.insert(*i)) {
                    return fail("an element twice", here(&format!("elements {ids:?}")));
                }
                if sized && made.iter().enumerate().any(|(k, e)| e.dropped != (!seen.contains(&k)) as u32) {
                    return fail("dropped while decoding", here(&format!("elements {ids:?}")));
                }
            } else {
                if ids.len() != made.len() || sized && ids.iter().enumerate().any(|(k, i)| k != *i) {
                    return fail("elements", here(&format!("elements {ids:?}")));
                }
                if made.iter().any(|e| e.dropped > 0) {
                    return fail("dropped while decoding", here(&format!("elements {ids:?}")));
                }
            }
            drop(c);
            if book(|b| b.made.iter().any(|e| e.dropped != 1)) {
                return fail("not dropped exactly once with the container", here(&format!("elements {ids:?}")));
            }
        }
    }
    if strange() > 0 {
        return fail("dropped or used without having been decoded", here(""));
    }
    Ok(())
}
fn direct<C: DekuReader<'static, X>, X>(data: &[u8], off: usize, ctx: X) -> Option<Result<C, DekuError>> {
    let mut st = RStream::new(data);
    let mut r = Reader::new(&mut st);
    r.skip_bits(off, Order::Msb0).ok()?;
    Some(C::from_reader_with_ctx(&mut r, ctx))
}

type Case = Box<dyn Fn(&mut Src, &mut Cx) -> Result<(), Fail> + Send + Sync>;
type Pred<T> = Box<dyn FnMut(&T) -> bool>;
fn cases() -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    macro_rules! plain { ($e:ty; $($c:ty),*) => { $(
        v.push(Box::new(|s: &mut Src, cx: &mut Cx| account::<$c>(stringify!($c), <$e>::SIZED, false, &|d, o| direct::<$c, ()>(d, o, ()), s, cx)));
        v.push(Box::new(|s: &mut Src, cx: &mut Cx| {
            let n = BitSize(1 + s.below(9));
            account::<$c>(concat!(stringify!($c), " of bits"), <$e>::SIZED, false, &|d, o| direct::<$c, BitSize>(d, o, n), s, cx)
        }));
    )* } }
    macro_rules! limited { ($e:ty; $($c:ty, $i:ty, $v:expr);*) => { $(
        v.push(Box::new(|s: &mut Src, cx: &mut Cx| {
            let (k, n) = (s.below(5), s.below(10));
            let m = 1 + s.below(4) as u8;
            let make = move || -> Limit<$i, Pred<$i>> {
                match k {
                    0 => Limit::Count(n),
                    1 => Limit::ByteSize(ByteSize(n)),
                    2 => Limit::BitSize(BitSize(n * 4)),
                    3 => Limit::End,
                    _ => {
                        let first: fn(&$i) -> &$e = $v;
                        Limit::Until(Box::new(move |x: &$i| seen(first(x), |b| b % m == 0)), PhantomData)
                    }
                }
            };
            account::<$c>(concat!(stringify!($c), " with a limit"), <$e>::SIZED, k == 4, &|d, o| direct::<$c, _>(d, o, (make(), ())), s, cx)
        }));
    )* } }
    macro_rules! entry { ($e:ty; $($c:ty),*) => { $(
        v.push(Box::new(|s: &mut Src, cx: &mut Cx| account::<$c>(stringify!($c), <$e>::SIZED, true, &|d, o| direct::<$c, ()>(d, o, ()), s, cx)));
        v.push(Box::new(|s: &mut Src, cx: &mut Cx| account::<$c>(concat!(stringify!($c), " from_bytes"), <$e>::SIZED, true, &|d, o| Some(<$c>::from_bytes((d, o)).map(|x| x.1)), s, cx)));
        v.push(Box::new(|s: &mut Src, cx: &mut Cx| account::<$c>(concat!(stringify!($c), " from_reader"), <$e>::SIZED, true, &|d, o| {
            let mut st = RStream::new(d);
            Some(<$c>::from_reader((&mut st, o)).map(|x| x.1))
        }, s, cx)));
        v.push(Box::new(|s: &mut Src, cx: &mut Cx| account::<$c>(concat!(stringify!($c), " try_from"), <$e>::SIZED, true, &|d, _| Some(<$c>::try_from(d)), s, cx)));
    )* } }
    macro_rules! of { ($($e:ident),*) => { $(
        plain!($e; $e, [$e; 0], [$e; 1], [$e; 2], [$e; 3], [$e; 5], [$e; 8], [$e; 17], [[$e; 3]; 2], [[[$e; 2]; 2]; 2], Box<[$e; 3]>, Arc<[$e; 2]>, [Box<$e>; 3], [Arc<$e>; 2],
            Cow<'static, [$e; 3]>, Option<[$e; 3]>, [Option<$e>; 3], ($e,), ($e, $e), ([$e; 2], $e, [$e; 2]), [($e, $e); 2],
            ($e, $e, $e, $e, $e), ($e, $e, $e, $e, $e, $e, $e, $e, $e, $e, $e));
        limited!($e; Vec<$e>, $e, |x| x; Box<[$e]>, $e, |x| x; Arc<[$e]>, $e, |x| x; HashSet<$e, Det>, $e, |x| x; HashMap<$e, $e, Det>, ($e, $e), |x| &x.0;
            Vec<[$e; 2]>, [$e; 2], |x| &x[0]; Box<[[$e; 2]]>, [$e; 2], |x| &x[1]; Vec<($e, Box<$e>)>, ($e, Box<$e>), |x| &x.0; HashMap<$e, [$e; 2], Det>, ($e, [$e; 2]), |x| &x.1[1]);
        entry!($e; Plain<$e>, Choice<$e>, Fleeting<$e>);
    )* } }
    of!(Small, Wide, Owned, Empty);
    v
}

fn main() {
    let all: &'static [Case] = Box::leak(cases().into_boxed_slice());
    vh::engine::main(Check {
        property: "P22",
        rule: "at least one element was decoded and then either decoding was made to fail or another element was decoded",
        assumptions: vec!["elements decoded before a decoder panics may be leaked, which is safe; they may not be dropped twice"],
        legs: vec![Leg::new("containers", 800000, 16000000, move |s, cx| all[s.below(all.len())](s, cx))],
    })
}
