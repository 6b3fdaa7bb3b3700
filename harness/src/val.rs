//! Values of declared types as data.
use crate::model::hex;
use crate::raw::Raw;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;

/// Deterministic hashing, so that sets keep one iteration order.
pub type Det = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    /// raw bits of a number
    N(u128),
    /// octets
    B(Vec<u8>),
    Unit,
    Seq(Vec<Val>),
    /// members in iteration order
    Set(Vec<Val>),
    Opt(Option<Box<Val>>),
    Rec(Vec<Val>),
    Var(usize, Vec<Val>),
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let list = |f: &mut std::fmt::Formatter<'_>, v: &[Val]| -> std::fmt::Result {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    write!(f, ",")?;
                }
                write!(f, "{x:?}")?;
            }
            Ok(())
        };
        match self {
            Val::N(n) if *n < 256 => write!(f, "{n}"),
            Val::N(n) => write!(f, "0x{n:x}"),
            Val::B(b) => write!(f, "#{}", hex(b)),
            Val::Unit => write!(f, "()"),
            Val::Seq(v) => {
                write!(f, "[")?;
                list(f, v)?;
                write!(f, "]")
            }
            Val::Set(v) => {
                write!(f, "set[")?;
                list(f, v)?;
                write!(f, "]")
            }
            Val::Opt(None) => write!(f, "none"),
            Val::Opt(Some(v)) => write!(f, "some {v:?}"),
            Val::Rec(v) => {
                write!(f, "{{")?;
                list(f, v)?;
                write!(f, "}}")
            }
            Val::Var(i, v) => {
                write!(f, "V{i}{{")?;
                list(f, v)?;
                write!(f, "}}")
            }
        }
    }
}
impl Val {
    pub fn items(&self) -> &[Val] {
        match self {
            Val::Rec(v) | Val::Seq(v) | Val::Set(v) | Val::Var(_, v) => v,
            x => panic!("no items in {x:?}"),
        }
    }
    pub fn var(&self) -> (usize, &[Val]) {
        match self {
            Val::Var(k, v) => (*k, v),
            x => panic!("no variant: {x:?}"),
        }
    }
    pub fn num(&self) -> u128 {
        match self {
            Val::N(n) => *n,
            x => panic!("no number: {x:?}"),
        }
    }
    /// sets in sorted order
    pub fn canon(&self) -> Val {
        let all = |v: &[Val]| v.iter().map(|x| x.canon()).collect::<Vec<_>>();
        match self {
            Val::Set(v) => {
                let mut v = all(v);
                v.sort();
                Val::Set(v)
            }
            Val::Seq(v) => Val::Seq(all(v)),
            Val::Rec(v) => Val::Rec(all(v)),
            Val::Var(k, v) => Val::Var(*k, all(v)),
            Val::Opt(Some(v)) => Val::Opt(Some(Box::new(v.canon()))),
            x => x.clone(),
        }
    }
    pub fn same(&self, o: &Val) -> bool {
        self == o || self.canon() == o.canon()
    }
    /// number of leaves
    pub fn weight(&self) -> usize {
        match self {
            Val::N(_) | Val::B(_) => 1,
            Val::Unit | Val::Opt(None) => 0,
            Val::Opt(Some(v)) => v.weight(),
            Val::Seq(v) | Val::Set(v) | Val::Rec(v) | Val::Var(_, v) => v.iter().map(|x| x.weight()).sum(),
        }
    }
}
pub trait Gen {
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
}
macro_rules! prim { ($($t:ty),*) => { $(impl Gen for $t {
    fn to_val(&self) -> Val { Val::N(Raw::raw(*self)) }
    fn from_val(v: &Val) -> Self { Raw::of(v.num()) }
})* } }
prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool);
macro_rules! nz { ($($t:ident = $p:ty),*) => { $(impl Gen for core::num::$t {
    fn to_val(&self) -> Val { Val::N(Raw::raw(self.get())) }
    fn from_val(v: &Val) -> Self { Self::new(<$p as Raw>::of(v.num())).unwrap() }
})* } }
nz!(NonZeroU8 = u8, NonZeroU16 = u16, NonZeroU32 = u32, NonZeroU64 = u64, NonZeroU128 = u128, NonZeroUsize = usize,
    NonZeroI8 = i8, NonZeroI16 = i16, NonZeroI32 = i32, NonZeroI64 = i64, NonZeroI128 = i128, NonZeroIsize = isize);
fn octets<const N: usize>(v: &Val) -> [u8; N] {
    match v {
        Val::B(b) => b.as_slice().try_into().unwrap(),
        x => panic!("no octets: {x:?}"),
    }
}
impl Gen for std::net::Ipv4Addr {
    fn to_val(&self) -> Val {
        Val::B(self.octets().to_vec())
    }
    fn from_val(v: &Val) -> Self {
        octets::<4>(v).into()
    }
}
impl Gen for std::net::Ipv6Addr {
    fn to_val(&self) -> Val {
        Val::B(self.octets().to_vec())
    }
    fn from_val(v: &Val) -> Self {
        octets::<16>(v).into()
    }
}
impl Gen for std::ffi::CString {
    fn to_val(&self) -> Val {
        Val::B(self.as_bytes().to_vec())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::B(b) => std::ffi::CString::new(b.clone()).unwrap(),
            x => panic!("no string: {x:?}"),
        }
    }
}
impl Gen for () {
    fn to_val(&self) -> Val {
        Val::Unit
    }
    fn from_val(_: &Val) -> Self {}
}
fn seq<'a, T: Gen + 'a>(i: impl Iterator<Item = &'a T>) -> Val {
    Val::Seq(i.map(|x| x.to_val()).collect())
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn to_val(&self) -> Val {
        seq(self.iter())
    }
    fn from_val(v: &Val) -> Self {
        let v = v.items();
        assert_eq!(v.len(), N);
        std::array::from_fn(|i| T::from_val(&v[i]))
    }
}
macro_rules! tup { ($($t:ident $i:tt),*) => { impl<$($t: Gen),*> Gen for ($($t,)*) {
    fn to_val(&self) -> Val { Val::Seq(vec![$(self.$i.to_val()),*]) }
    fn from_val(v: &Val) -> Self { let v = v.items(); ($($t::from_val(&v[$i]),)*) }
} } }
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
impl<T: Gen> Gen for Option<T> {
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|x| Box::new(x.to_val())))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Opt(o) => o.as_ref().map(|x| T::from_val(x)),
            x => panic!("no option: {x:?}"),
        }
    }
}
impl<T: Gen> Gen for Box<T> {
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
    fn from_val(v: &Val) -> Self {
        Box::new(T::from_val(v))
    }
}
impl<T: Gen + Clone> Gen for std::borrow::Cow<'static, T> {
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
    fn from_val(v: &Val) -> Self {
        std::borrow::Cow::Owned(T::from_val(v))
    }
}
impl<T: Gen> Gen for std::sync::Arc<T> {
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
    fn from_val(v: &Val) -> Self {
        std::sync::Arc::new(T::from_val(v))
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn to_val(&self) -> Val {
        seq(self.iter())
    }
    fn from_val(v: &Val) -> Self {
        v.items().iter().map(T::from_val).collect()
    }
}
impl<T: Gen> Gen for Box<[T]> {
    fn to_val(&self) -> Val {
        seq(self.iter())
    }
    fn from_val(v: &Val) -> Self {
        v.items().iter().map(T::from_val).collect()
    }
}
impl<T: Gen> Gen for std::sync::Arc<[T]> {
    fn to_val(&self) -> Val {
        seq(self.iter())
    }
    fn from_val(v: &Val) -> Self {
        v.items().iter().map(T::from_val).collect()
    }
}
impl<T: Gen + Eq + Hash> Gen for HashSet<T, Det> {
    fn to_val(&self) -> Val {
        Val::Set(self.iter().map(|x| x.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        v.items().iter().map(T::from_val).collect()
    }
}
impl<K: Gen + Eq + Hash, V: Gen> Gen for HashMap<K, V, Det> {
    fn to_val(&self) -> Val {
        Val::Set(self.iter().map(|(k, v)| Val::Seq(vec![k.to_val(), v.to_val()])).collect())
    }
    fn from_val(v: &Val) -> Self {
        v.items().iter().map(|p| (K::from_val(&p.items()[0]), V::from_val(&p.items()[1]))).collect()
    }
}
