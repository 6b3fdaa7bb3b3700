//! The reference: declarations interpreted field by field over a bit-string input or output.
use crate::codec::*;
use crate::custom::*;
use crate::engine::Src;
use crate::model::{bits_of, BitOut, Ord2};
use crate::schema::*;
use crate::val::Val;
use deku::no_std_io::ErrorKind;
use deku::DekuError;
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Incomplete,
    Parse,
    InvalidParam,
    Assertion,
    Io(ErrorKind),
    IdVariant,
    /// some error, of any kind
    Any,
    /// no documented meaning: not compared
    Undef(&'static str),
}
impl E {
    pub fn admits(&self, d: &DekuError) -> bool {
        match (self, d) {
            (E::Any, _) => true,
            (E::Incomplete, DekuError::Incomplete(n)) => n.bit_size() >= 1,
            (E::Parse, DekuError::Parse(_)) => true,
            (E::InvalidParam, DekuError::InvalidParam(_)) => true,
            (E::Assertion, DekuError::Assertion(_)) => true,
            (E::Io(k), DekuError::Io(x)) => k == x,
            (E::IdVariant, DekuError::IdVariantNotFound) => true,
            _ => false,
        }
    }
    pub fn undef(&self) -> bool {
        matches!(self, E::Undef(_))
    }
}
/// Class of an error, without its text.
pub fn class(d: &DekuError) -> String {
    match d {
        DekuError::Incomplete(_) => "Incomplete".into(),
        DekuError::Parse(_) => "Parse".into(),
        DekuError::InvalidParam(_) => "InvalidParam".into(),
        DekuError::Assertion(_) => "Assertion".into(),
        DekuError::IdVariantNotFound => "IdVariantNotFound".into(),
        DekuError::Io(k) => format!("Io({k:?})"),
        x => format!("{x:?}"),
    }
}

pub struct Env<'a> {
    pub fields: &'a [Field],
    pub vals: Vec<Option<Val>>,
    pub ctx: &'a [CtxVal],
    pub bit: usize,
}
pub fn as_i128(t: Ty, raw: u128) -> i128 {
    if t.kind == Kind::Signed && t.w < 128 && raw >> (t.w - 1) & 1 == 1 {
        (raw | u128::MAX << t.w) as i128
    } else {
        raw as i128
    }
}
impl Env<'_> {
    pub fn ev(&self, e: &Ex) -> i64 {
        match e {
            Ex::K(k) => *k,
            Ex::F(i) => {
                let t = match &self.fields[*i].ty {
                    FTy::Prim(t) | FTy::NonZero(t) => *t,
                    x => panic!("no number: {x:?}"),
                };
                as_i128(t, self.vals[*i].as_ref().expect("field used before it is there").num()) as i64
            }
            Ex::Len(i) => self.vals[*i].as_ref().expect("field used before it is there").items().len() as i64,
            Ex::C(i) => match self.ctx[*i] {
                CtxVal::Num(n) => n,
                ref x => panic!("no number: {x:?}"),
            },
            Ex::BitOff => self.bit as i64,
            Ex::ByteOff => (self.bit / 8) as i64,
            Ex::Bin(op, a, b) => {
                let (a, b) = (self.ev(a), self.ev(b));
                match op {
                    Op::Add => a.wrapping_add(b),
                    Op::Sub => a.wrapping_sub(b),
                    Op::Mul => a.wrapping_mul(b),
                    Op::Mod => a.wrapping_rem_euclid(b),
                    Op::And => a & b,
                    Op::Xor => a ^ b,
                }
            }
        }
    }
    pub fn cond(&self, c: &Cond) -> bool {
        match c {
            Cond::Rel(r, a, b) => relates(*r, self.ev(a), self.ev(b)),
            Cond::Not(a) => !self.cond(a),
            Cond::And(a, b) => self.cond(a) && self.cond(b),
            Cond::Or(a, b) => self.cond(a) || self.cond(b),
        }
    }
}
fn relates(r: Rel, a: i64, b: i64) -> bool {
    match r {
        Rel::Eq => a == b,
        Rel::Ne => a != b,
        Rel::Lt => a < b,
        Rel::Le => a <= b,
    }
}
/// What reaches the type of a field.
#[derive(Clone, Debug, Default)]
pub struct Args {
    e: Option<End>,
    /// in bytes?, amount
    z: Option<(bool, usize)>,
    o: Option<Ord2>,
    n: Vec<i64>,
}
impl Args {
    fn bits(&self, w: usize) -> usize {
        match self.z {
            None => w,
            Some((false, n)) => n,
            Some((true, n)) => n.saturating_mul(8),
        }
    }
    fn e(&self) -> End {
        self.e.unwrap_or(native())
    }
    fn o(&self) -> Ord2 {
        self.o.unwrap_or(Ord2::Msb)
    }
    fn ctx(&self, d: &Def) -> Vec<CtxVal> {
        let mut v = vec![];
        if let Some(e) = self.e {
            v.push(CtxVal::Big(e == End::Big));
        }
        if let Some((b, n)) = self.z {
            v.push(if b { CtxVal::Bytes(n) } else { CtxVal::Bits(n) });
        }
        if let Some(o) = self.o {
            v.push(CtxVal::Lsb(o == Ord2::Lsb));
        }
        v.extend(self.n.iter().map(|n| CtxVal::Num(*n)));
        if v.is_empty() {
            return d.ctx_default.clone().unwrap_or_default();
        }
        v
    }
}
fn end_of(s: Option<Sw>, ctx: &[CtxVal]) -> Option<End> {
    s.map(|s| match s {
        Sw::On => End::Big,
        Sw::Off => End::Little,
        Sw::Ctx(i) => match ctx[i] {
            CtxVal::Big(b) => {
                if b { End::Big } else { End::Little }
            }
            ref x => panic!("no byte order: {x:?}"),
        },
    })
}
fn ord_of(s: Option<Sw>, ctx: &[CtxVal]) -> Option<Ord2> {
    s.map(|s| match s {
        Sw::On => Ord2::Lsb,
        Sw::Off => Ord2::Msb,
        Sw::Ctx(i) => match ctx[i] {
            CtxVal::Lsb(b) => {
                if b { Ord2::Lsb } else { Ord2::Msb }
            }
            ref x => panic!("no bit order: {x:?}"),
        },
    })
}
fn field_args(f: &Field, d: &Def, env: &Env) -> Args {
    let z = match &f.size {
        Size::None => None,
        Size::Bits(n) => Some((false, *n)),
        Size::Bytes(n) => Some((true, *n)),
        Size::BitsEx(e) | Size::CtxBits(e) => Some((false, env.ev(e) as usize)),
        Size::BytesEx(e) | Size::CtxBytes(e) => Some((true, env.ev(e) as usize)),
        Size::Param(i) => Some(match env.ctx[*i] {
            CtxVal::Bits(n) => (false, n),
            CtxVal::Bytes(n) => (true, n),
            ref x => panic!("no size: {x:?}"),
        }),
    };
    Args { e: end_of(f.endian.or(d.endian), env.ctx), z, o: ord_of(f.order.or(d.order), env.ctx), n: f.args.iter().map(|e| env.ev(e)).collect() }
}
fn id_args(en: &Enum, d: &Def, ctx: &[CtxVal]) -> Args {
    let z = match en.size {
        Size::Bits(n) => Some((false, n)),
        Size::Bytes(n) => Some((true, n)),
        _ => None,
    };
    Args { e: end_of(en.id_endian.or(d.endian), ctx), z, o: ord_of(d.order, ctx), n: vec![] }
}
/// The default value of a type.
pub fn zero(t: &FTy) -> Val {
    match t {
        FTy::Prim(_) => Val::N(0),
        FTy::Unit => Val::Unit,
        FTy::Array(t, n) => Val::Seq(vec![zero(t); *n]),
        FTy::Tuple(v) => Val::Seq(v.iter().map(zero).collect()),
        FTy::Opt(_) => Val::Opt(None),
        FTy::Bx(t) | FTy::Arc(t) => zero(t),
        FTy::Vec(_) | FTy::BxS(_) | FTy::ArcS(_) => Val::Seq(vec![]),
        FTy::Set(_) | FTy::Map(..) => Val::Set(vec![]),
        x => panic!("no default for {x:?}"),
    }
}
fn default_of(f: &Field, env: &Env) -> Val {
    let raw = |t: &FTy, v: i128| match t {
        FTy::Prim(t) | FTy::NonZero(t) => Val::N(match (t.kind, t.w) {
            (Kind::Float, 32) => (v as f32).to_bits() as u128,
            (Kind::Float, _) => (v as f64).to_bits() as u128,
            _ => mask(v as u128, t.w),
        }),
        x => panic!("no number: {x:?}"),
    };
    match (&f.default, &f.ty) {
        (Def0::None, t) => zero(t),
        (Def0::Int(v), t) => raw(t, *v),
        (Def0::Ex(e), t) => raw(t, env.ev(e) as i128),
        (Def0::Field(i), _) => env.vals[*i].clone().unwrap(),
        (Def0::Fill(n, v), FTy::Vec(t)) => Val::Seq(vec![raw(t, *v); *n]),
        (Def0::Some(v), FTy::Opt(t)) => Val::Opt(Some(Box::new(raw(t, *v)))),
        x => panic!("no default {x:?}"),
    }
}
/// Bits of padding before or after a field.
fn padding(bits: &Option<Ex>, bytes: &Option<Ex>, env: &Env) -> Result<Option<usize>, E> {
    let part = |e: &Option<Ex>, m: i128| e.as_ref().map(|e| env.ev(e) as i128 * m);
    let (a, b) = (part(bits, 1), part(bytes, 8));
    if a.is_none() && b.is_none() {
        return Ok(None);
    }
    usize::try_from(a.unwrap_or(0) + b.unwrap_or(0)).map(Some).map_err(|_| E::InvalidParam)
}
pub enum Seek {
    Start(u64),
    Current(i64),
    End(i64),
}
fn seek_target(s: &SeekTo, env: &Env) -> Result<Seek, E> {
    Ok(match s {
        SeekTo::Rewind => Seek::Start(0),
        SeekTo::Current(e) => Seek::Current(env.ev(e)),
        SeekTo::End(e) => Seek::End(env.ev(e)),
        SeekTo::Start(e) => Seek::Start(u64::try_from(env.ev(e)).map_err(|_| E::InvalidParam)?),
    })
}
fn seek_pos(s: Seek, cur: u64, len: u64) -> Result<u64, E> {
    let (b, o) = match s {
        Seek::Start(n) => return Ok(n),
        Seek::Current(o) => (cur, o),
        Seek::End(o) => (len, o),
    };
    b.checked_add_signed(o).ok_or(E::Io(ErrorKind::InvalidInput))
}
/// Features exercised by one interpretation.
pub type Seen = BTreeSet<&'static str>;

/// Does the identifier select this variant? (`_` and default are handled by the caller.)
fn selects(sel: &Sel, id: &Val, num: i128) -> bool {
    match sel {
        Sel::Id(v) | Sel::Disc(v, _) => num == *v,
        Sel::IdBytes(b) => match id {
            Val::Seq(v) => v.iter().map(|x| x.num() as u8).eq(b.iter().copied()),
            _ => false,
        },
        Sel::Pat(Pat::Range(a, b)) => (*a..=*b).contains(&num),
        Sel::Pat(Pat::Alt(v)) => v.contains(&num),
        Sel::Pat(Pat::Rem(m, r)) => num.rem_euclid(*m) == *r,
        Sel::Pat(Pat::Any) => true,
    }
}
pub fn choose(en: &Enum, id: &Val, num: i128) -> Option<usize> {
    // the second identifier, if there is one, comes along as the value
    if let Some(i) = en.variants.iter().position(|v| selects(&v.sel, id, num) && v.second.is_none_or(|x| *id == Val::N(x as u64 as u128))) {
        return Some(i);
    }
    en.variants.iter().position(|v| v.default)
}
fn id_num(en: &Enum, id: &Val) -> i128 {
    match (&en.id, id) {
        (IdTy::Prim(t), Val::N(n)) => as_i128(*t, *n),
        _ => 0,
    }
}

// ---------------------------------------------------------------- reading

pub struct Rd<'a, 'b> {
    pub s: &'a Schema,
    pub data: Vec<u8>,
    /// next untouched byte, and the window of unread bits of the byte before it
    pub next: u64,
    pub lo: u8,
    pub hi: u8,
    /// order of the bits already taken from the partly read byte
    pub half: Ord2,
    /// bits were taken from one byte in both orders
    pub mixed: bool,
    pub bits_read: usize,
    /// makes the input fit the declaration while reading it
    pub repair: Option<&'b mut Src>,
    pub limit: usize,
    pub seen: Seen,
    /// the outcome depends on where the input ends
    pub end_matters: bool,
    pub seeks: bool,
    /// work done, to stop early on hostile amounts
    pub steps: usize,
    /// places (byte, bit) and kinds of everything read, when recorded
    pub log: Option<Vec<(usize, usize, &'static str)>>,
    /// furthest byte consumed or passed over
    pub reach: u64,
}
impl<'a, 'b> Rd<'a, 'b> {
    pub fn new(s: &'a Schema, data: &[u8]) -> Self {
        Rd {
            s,
            data: data.to_vec(),
            next: 0,
            lo: 0,
            hi: 0,
            half: Ord2::Msb,
            mixed: false,
            bits_read: 0,
            repair: None,
            limit: 300,
            seen: Seen::new(),
            end_matters: false,
            seeks: false,
            steps: 0,
            log: None,
            reach: 0,
        }
    }
    fn window(&self) -> usize {
        (self.hi - self.lo) as usize
    }
    fn remaining(&self) -> usize {
        self.window() + (self.data.len() as u64).saturating_sub(self.next) as usize * 8
    }
    fn want(&mut self, n: usize) -> Result<(), E> {
        if self.remaining() >= n {
            return Ok(());
        }
        if self.repair.is_some() {
            let need = (n - self.window()).div_ceil(8) as u64 + self.next;
            if need <= self.limit as u64 {
                while (self.data.len() as u64) < need {
                    let src = self.repair.as_mut().unwrap();
                    let b = match src.below(4) {
                        0 => src.below(6) as u8,
                        1 => *src.pick(&[0, 1, 2, 0x7f, 0x80, 0xff]),
                        _ => src.byte(),
                    };
                    self.data.push(b);
                }
                return Ok(());
            }
        }
        Err(E::Incomplete)
    }
    /// Consume `n` bits; their places in stream order.
    fn take(&mut self, n: usize, o: Ord2) -> Result<Vec<(usize, u8)>, E> {
        self.want(n)?;
        if n > 0 && (self.window() > 0 || n % 8 != 0) {
            self.seen.insert("partial bytes");
        }
        let mut v = Vec::with_capacity(n);
        if n > 0 && self.window() > 0 && self.half != o {
            self.mixed = true;
        }
        if n > 0 {
            self.half = o;
        }
        for _ in 0..n {
            if self.lo == self.hi {
                self.next += 1;
                self.lo = 0;
                self.hi = 8;
            }
            let i = self.next as usize - 1;
            match o {
                Ord2::Msb => {
                    self.hi -= 1;
                    v.push((i, self.hi));
                }
                Ord2::Lsb => {
                    v.push((i, self.lo));
                    self.lo += 1;
                }
            }
        }
        self.bits_read += n;
        self.steps += 1;
        self.reach = self.reach.max(self.next);
        Ok(v)
    }
    fn skip(&mut self, n: usize, o: Ord2) -> Result<(), E> {
        self.want(n)?;
        let mut left = n;
        if self.lo != self.hi {
            let k = left.min(self.window());
            self.take(k, o)?;
            left -= k;
        }
        self.next += (left / 8) as u64;
        if left >= 8 {
            self.lo = 0;
            self.hi = 0;
        }
        self.bits_read += left / 8 * 8;
        self.reach = self.reach.max(self.next);
        self.take(left % 8, o)?;
        Ok(())
    }
    fn bits(&self, p: &[(usize, u8)]) -> Vec<bool> {
        p.iter().map(|(i, b)| self.data[*i] >> b & 1 == 1).collect()
    }
    fn patch(&mut self, p: &[(usize, u8)], bits: &[bool]) {
        for ((i, b), x) in p.iter().zip(bits) {
            self.data[*i] = self.data[*i] & !(1 << b) | (*x as u8) << b;
        }
    }
    pub fn at_end(&mut self) -> bool {
        self.end_matters = true;
        self.remaining() == 0
    }
    fn seek(&mut self, s: Seek) -> Result<(), E> {
        self.seeks = true;
        self.seen.insert("seek");
        if let Seek::End(_) = s {
            self.end_matters = true;
        }
        let p = seek_pos(s, self.next, self.data.len() as u64)?;
        self.next = p;
        // offsets are positions again
        self.bits_read = (p as usize).saturating_mul(8);
        self.lo = 0;
        self.hi = 0;
        self.reach = self.reach.max(p);
        Ok(())
    }
    fn prim(&mut self, t: Ty, a: &Args) -> Result<u128, E> {
        let n = a.bits(t.w);
        if n > t.w {
            return Err(E::Parse);
        }
        if a.o() == Ord2::Lsb {
            self.seen.insert("least significant first");
        }
        if a.e() != native() && t.w > 8 {
            self.seen.insert("other byte order");
        }
        if n < t.w {
            self.seen.insert("reduced size");
        }
        let at = self.bits_read;
        let p = self.take(n, a.o())?;
        if let Some(l) = &mut self.log {
            l.push((at, n, t.name));
        }
        let get = |me: &Self| decode(t, &me.bits(&p), a.e(), a.o()).ok_or(E::Undef("signed big-endian least significant first"));
        let mut v = get(self)?;
        if t.kind == Kind::Bool && v > 1 {
            if self.repair.as_mut().is_some_and(|s| s.chance(15, 16)) {
                let b = encode(t, v & 1, n, a.e(), a.o()).ok().flatten();
                if let Some(b) = b {
                    self.patch(&p, &b);
                    v = get(self)?;
                }
            }
            if v > 1 {
                return Err(E::Parse);
            }
        }
        // small numbers make useful counts
        if matches!(t.kind, Kind::Unsigned | Kind::Signed) && v > 20 {
            if let Some(s) = self.repair.as_mut() {
                if s.chance(2, 5) {
                    let x = s.below(9) as u128;
                    if let Ok(Some(b)) = encode(t, x, n, a.e(), a.o()) {
                        self.patch(&p, &b);
                        v = get(self)?;
                    }
                }
            }
        }
        Ok(v)
    }
    /// Read a number and, when repairing, replace it by the wanted one if it can be encoded.
    fn prim_wanting(&mut self, t: Ty, a: &Args, want: Option<u128>) -> Result<u128, E> {
        let Some(w) = want else { return self.prim(t, a) };
        let n = a.bits(t.w);
        if n > t.w {
            return Err(E::Parse);
        }
        let p = self.take(n, a.o())?;
        if let Ok(Some(b)) = encode(t, w, n, a.e(), a.o()) {
            self.patch(&p, &b);
        }
        decode(t, &self.bits(&p), a.e(), a.o()).ok_or(E::Undef("signed big-endian least significant first"))
    }
    fn byte(&mut self) -> Result<u8, E> {
        Ok(self.prim(TYPES[0], &Args::default())? as u8)
    }
    fn magic(&mut self, m: &Option<Vec<u8>>) -> Result<(), E> {
        let Some(m) = m else { return Ok(()) };
        self.seen.insert("magic");
        for b in m {
            let want = if self.repair.as_mut().is_some_and(|s| s.chance(39, 40)) { Some(*b as u128) } else { None };
            let x = self.prim_wanting(TYPES[0], &Args::default(), want)?;
            if x != *b as u128 {
                self.seen.insert("magic missing");
                return Err(E::Parse);
            }
        }
        Ok(())
    }
    fn ty(&mut self, t: &FTy, a: &Args, lim: &Limit, env: &Env) -> Result<Val, E> {
        if self.steps > 20_000 {
            return Err(E::Undef("too much work"));
        }
        Ok(match t {
            FTy::Prim(t) => Val::N(self.prim(*t, a)?),
            FTy::NonZero(t) => {
                self.seen.insert("non-zero number");
                let n = a.bits(t.w);
                let mut want = None;
                if n > 0 && n <= t.w && self.repair.as_mut().is_some_and(|s| s.chance(1, 2)) {
                    want = Some(1);
                }
                let v = self.prim_wanting(*t, a, want)?;
                if v == 0 {
                    return Err(E::Parse);
                }
                Val::N(v)
            }
            FTy::Ip4 => Val::B((self.prim(TYPES[2], a)? as u32).to_be_bytes().to_vec()),
            FTy::Ip6 => Val::B(self.prim(TYPES[4], a)?.to_be_bytes().to_vec()),
            FTy::CStr => {
                self.seen.insert("string");
                let mut v = vec![];
                match a.z {
                    None => loop {
                        let want = if self.repair.as_mut().is_some_and(|s| s.chance(2, 5)) { Some(0) } else { None };
                        let b = self.prim_wanting(TYPES[0], &Args::default(), want)? as u8;
                        if b == 0 {
                            break;
                        }
                        v.push(b);
                    },
                    Some((_, n)) => {
                        let good = self.repair.as_mut().is_some_and(|s| s.chance(7, 8));
                        for i in 0..n {
                            let want = if !good { None } else if i + 1 == n { Some(0) } else { Some(b'a' as u128 + i as u128 % 26) };
                            v.push(self.prim_wanting(TYPES[0], &Args::default(), want)? as u8);
                        }
                        if v.iter().position(|b| *b == 0).map(|p| p + 1) != Some(n) {
                            return Err(E::Parse);
                        }
                        v.pop();
                    }
                }
                Val::B(v)
            }
            FTy::Unit => Val::Unit,
            FTy::Array(t, n) => {
                let mut v = vec![];
                for _ in 0..*n {
                    v.push(self.ty(t, a, &Limit::None, env)?);
                }
                Val::Seq(v)
            }
            FTy::Tuple(ts) => {
                let mut v = vec![];
                for t in ts {
                    v.push(self.ty(t, a, &Limit::None, env)?);
                }
                Val::Seq(v)
            }
            FTy::Opt(t) => Val::Opt(Some(Box::new(self.ty(t, a, lim, env)?))),
            FTy::Bx(t) | FTy::Arc(t) => self.ty(t, a, lim, env)?,
            FTy::Vec(t) | FTy::BxS(t) | FTy::ArcS(t) => Val::Seq(self.many(t, a, lim, env)?),
            FTy::Set(t) => {
                let mut v: Vec<Val> = vec![];
                for x in self.many(t, a, lim, env)? {
                    if !v.contains(&x) {
                        v.push(x);
                    } else {
                        self.seen.insert("duplicate members");
                    }
                }
                Val::Set(v)
            }
            FTy::Map(k, x) => {
                let t = FTy::Tuple(vec![(**k).clone(), (**x).clone()]);
                let mut v: Vec<Val> = vec![];
                for p in self.many(&t, a, lim, env)? {
                    if let Some(q) = v.iter_mut().find(|q| q.items()[0] == p.items()[0]) {
                        self.seen.insert("duplicate members");
                        *q = p;
                    } else {
                        v.push(p);
                    }
                }
                Val::Set(v)
            }
            FTy::Def(d) => {
                let d = &self.s.defs[*d];
                let ctx = a.ctx(d);
                if !ctx.is_empty() {
                    self.seen.insert("context");
                }
                self.seen.insert("nested");
                self.def(d, &ctx)?
            }
        })
    }
    fn many(&mut self, t: &FTy, a: &Args, lim: &Limit, env: &Env) -> Result<Vec<Val>, E> {
        let mut v = vec![];
        let count = |e: &Ex| usize::try_from(env.ev(e)).map_err(|_| E::Parse);
        match lim {
            Limit::None => panic!("collection without a limit"),
            Limit::Count(e) => {
                self.seen.insert("count");
                for _ in 0..count(e)? {
                    v.push(self.ty(t, a, &Limit::None, env)?);
                }
            }
            Limit::Bits(e) | Limit::Bytes(e) => {
                let n = count(e)?;
                let n = if matches!(lim, Limit::Bytes(_)) { n.saturating_mul(8) } else { n };
                self.seen.insert(if matches!(lim, Limit::Bytes(_)) { "byte budget" } else { "bit budget" });
                let from = self.bits_read;
                while self.bits_read - from != n {
                    let over = self.bits_read - from > n;
                    if over {
                        self.seen.insert("budget overshot");
                        self.repair = None;
                    }
                    match self.ty(t, a, &Limit::None, env) {
                        Ok(x) => v.push(x),
                        Err(e) if e.undef() => return Err(e),
                        Err(_) if over => return Err(E::Any),
                        Err(e) => {
                            // whether the budget can be met is not decided yet
                            return Err(e);
                        }
                    }
                }
            }
            Limit::Until(r, e) => {
                self.seen.insert("until");
                let b = env.ev(e);
                let first = match t {
                    FTy::Tuple(ts) => ts[0].clone(),
                    t => t.clone(),
                };
                let ft = match first {
                    FTy::Prim(t) | FTy::NonZero(t) => t,
                    x => panic!("no number: {x:?}"),
                };
                loop {
                    let x = self.ty(t, a, &Limit::None, env)?;
                    let k = match &x {
                        Val::Seq(p) => p[0].num(),
                        x => x.num(),
                    };
                    let stop = relates(*r, as_i128(ft, k) as i64, b);
                    v.push(x);
                    if stop {
                        break;
                    }
                }
            }
            Limit::All => {
                self.seen.insert("read to end");
                // an input being built ends somewhere
                let mut k = match self.repair.as_mut() {
                    Some(s) => s.below(6),
                    None => 0,
                };
                loop {
                    // how a stream behaves there is its own matter
                    if self.next > self.data.len() as u64 {
                        return Err(E::Undef("end tested beyond the end of the input"));
                    }
                    if self.at_end() && (self.repair.is_none() || k == 0) {
                        break;
                    }
                    k = k.saturating_sub(1);
                    v.push(self.ty(t, a, &Limit::None, env)?);
                }
            }
        }
        if v.len() > 1 {
            self.seen.insert("several elements");
        }
        Ok(v)
    }
    fn body(&mut self, d: &Def, fs: &[Field], ctx: &[CtxVal], stored: Option<Val>) -> Result<Vec<Val>, E> {
        let mut env = Env { fields: fs, vals: vec![], ctx, bit: 0 };
        for (i, f) in fs.iter().enumerate() {
            if i == 0 && stored.is_some() {
                env.vals.push(stored.clone());
                continue;
            }
            let v = self.field(d, f, &mut env)?;
            debug_assert_eq!(env.vals.len(), i + 1);
            env.vals[i] = Some(v);
            if let Some(c) = &f.assert {
                self.seen.insert("assertion");
                if !env.cond(c) {
                    self.seen.insert("assertion fails");
                    return Err(E::Assertion);
                }
            }
            if let Some(x) = f.assert_eq {
                self.seen.insert("assertion");
                let t = if let FTy::Prim(t) = f.ty { t } else { panic!() };
                if env.vals[i].as_ref().unwrap().num() != mask(x as u128, t.w) {
                    self.seen.insert("assertion fails");
                    return Err(E::Assertion);
                }
            }
            if let Some(n) = padding(&f.pad[2], &f.pad[3], &env)? {
                self.pad(n, f, d, ctx)?;
            }
        }
        Ok(fs.iter().zip(env.vals).filter(|(f, _)| !f.temp).map(|(_, v)| v.unwrap()).collect())
    }
    fn pad(&mut self, n: usize, f: &Field, d: &Def, ctx: &[CtxVal]) -> Result<(), E> {
        if n > 0 {
            self.seen.insert("padding");
        }
        self.skip(n, ord_of(f.order.or(d.order), ctx).unwrap_or(Ord2::Msb))
    }
    fn field(&mut self, d: &Def, f: &Field, env: &mut Env) -> Result<Val, E> {
        if let Some(s) = &f.seek {
            let t = seek_target(s, env)?;
            self.seek(t)?;
        }
        self.magic(&f.magic)?;
        if let Some(n) = padding(&f.pad[0], &f.pad[1], env)? {
            self.pad(n, f, d, env.ctx)?;
        }
        env.bit = self.bits_read;
        env.vals.push(None);
        let normal = match (f.skip, &f.cond) {
            (Skip::All | Skip::Read, Some(c)) => !env.cond(c),
            (Skip::All | Skip::Read, None) => false,
            (Skip::Write, _) => true,
            (Skip::No, Some(c)) => env.cond(c),
            (Skip::No, None) => true,
        };
        if f.cond.is_some() || f.skip != Skip::No {
            self.seen.insert(if normal { "condition met" } else { "left out" });
        }
        if f.temp {
            self.seen.insert("temporary");
        }
        if !normal {
            return Ok(default_of(f, env));
        }
        if let Some(c) = &f.reader {
            return self.custom(c, &env);
        }
        // what the limit says is evaluated before the arguments are
        if let Limit::Count(e) | Limit::Bits(e) | Limit::Bytes(e) = &f.limit {
            usize::try_from(env.ev(e)).map_err(|_| E::Parse)?;
        }
        let a = field_args(f, d, env);
        match &f.map {
            Mp::None => {
                if let (Some(x), FTy::Prim(t)) = (f.assert_eq, &f.ty) {
                    if self.repair.as_mut().is_some_and(|s| s.chance(7, 8)) {
                        return Ok(Val::N(self.prim_wanting(*t, &a, Some(mask(x as u128, t.w)))?));
                    }
                }
                self.ty(&f.ty, &a, &f.limit, env)
            }
            Mp::Num { from, k, refuse } => {
                self.seen.insert("map");
                let v = as_i128(*from, self.prim(*from, &a)?) as i64;
                if let Some(m) = refuse {
                    if v.rem_euclid(7) == *m {
                        self.seen.insert("map refuses");
                        return Err(E::Io(REFUSED));
                    }
                }
                let t = if let FTy::Prim(t) = f.ty { t } else { panic!() };
                Ok(Val::N(mask((v ^ k) as i128 as u128, t.w)))
            }
            Mp::Rev => {
                self.seen.insert("map");
                let mut v = self.ty(&f.ty, &a, &f.limit, env)?;
                if let Val::Seq(v) = &mut v {
                    v.reverse();
                }
                Ok(v)
            }
        }
    }
    pub fn def(&mut self, d: &Def, ctx: &[CtxVal]) -> Result<Val, E> {
        if let Some(s) = &d.seek {
            let t = seek_target(s, &Env { fields: &[], vals: vec![], ctx, bit: 0 })?;
            self.seek(t)?;
        }
        self.magic(&d.magic)?;
        match &d.body {
            Body::Struct { fields, .. } => Ok(Val::Rec(self.body(d, fields, ctx, None)?)),
            Body::Enum(en) => {
                let a = id_args(en, d, ctx);
                self.seen.insert("enum");
                let mut pick = None;
                if let Some(s) = self.repair.as_mut() {
                    if s.chance(9, 10) {
                        pick = Some(&en.variants[s.below(en.variants.len())].sel);
                    }
                }
                let (id, num) = match &en.id {
                    IdTy::Ctx(i) => {
                        self.seen.insert("identifier from context");
                        let num = |i: usize| match ctx[i] {
                            CtxVal::Num(n) => n,
                            ref x => panic!("no number: {x:?}"),
                        };
                        if en.id2.is_some() {
                            self.seen.insert("two identifiers from context");
                        }
                        (en.id2.map_or(Val::Unit, |j| Val::N(num(j) as u64 as u128)), num(*i) as i128)
                    }
                    IdTy::Prim(t) => {
                        let want = pick.and_then(|s| match s {
                            Sel::Id(v) | Sel::Disc(v, _) => Some(*v),
                            Sel::Pat(Pat::Range(a, b)) => {
                                let k = self.repair.as_mut().unwrap().below((b - a + 1).max(1) as usize);
                                Some(a + k as i128)
                            }
                            Sel::Pat(Pat::Alt(v)) => Some(v[self.repair.as_mut().unwrap().below(v.len())]),
                            Sel::Pat(Pat::Rem(m, r)) => Some(r + m * self.repair.as_mut().unwrap().below(3) as i128),
                            _ => None,
                        });
                        let v = self.prim_wanting(*t, &a, want.map(|v| mask(v as u128, t.w)))?;
                        if t.kind == Kind::Bool && v > 1 {
                            return Err(E::Parse);
                        }
                        (Val::N(v), as_i128(*t, v))
                    }
                    IdTy::Bytes(n) => {
                        let mut v = vec![];
                        for i in 0..*n {
                            let want = match pick {
                                Some(Sel::IdBytes(b)) => Some(b[i] as u128),
                                _ => None,
                            };
                            v.push(Val::N(self.prim_wanting(TYPES[0], &a, want)?));
                        }
                        (Val::Seq(v), 0)
                    }
                };
                let Some(k) = choose(en, &id, num) else {
                    self.seen.insert("no variant");
                    return Err(E::Parse);
                };
                let v = &en.variants[k];
                self.seen.insert(match v.sel {
                    Sel::Id(_) if v.default && num != sel_num(&v.sel) => "default variant",
                    Sel::Id(_) => "variant by identifier",
                    Sel::IdBytes(_) => "variant by byte string",
                    Sel::Pat(_) => "variant by pattern",
                    Sel::Disc(..) => "variant by discriminant",
                });
                if let Some(c) = &v.reader {
                    self.seen.insert("variant with a reader");
                    let env = Env { fields: &[], vals: vec![], ctx, bit: 0 };
                    return Ok(Val::Var(k, vec![self.custom(c, &env)?]));
                }
                let stored = if v.stores { Some(id) } else { None };
                Ok(Val::Var(k, self.body(d, &v.fields, ctx, stored)?))
            }
        }
    }
    fn custom(&mut self, c: &Custom, env: &Env) -> Result<Val, E> {
        self.seen.insert("custom reader");
        Ok(Val::N(match c {
            Custom::A(k) => {
                let k = env.ev(k);
                dec_a(self.byte()?, k, env.bit)
            }
            Custom::B(k) => {
                let k = env.ev(k);
                let a = Args { e: Some(End::Big), z: Some((false, 3)), o: Some(Ord2::Msb), n: vec![] };
                dec_b(self.prim(TYPES[0], &a)? as u8, k, env.bit)
            }
        } as u128))
    }
    /// unread bits of the partly read byte, most significant first
    pub fn rest(&self) -> Vec<bool> {
        (self.lo..self.hi).rev().map(|i| self.data[self.next as usize - 1] >> i & 1 == 1).collect()
    }
}
fn sel_num(s: &Sel) -> i128 {
    match s {
        Sel::Id(v) | Sel::Disc(v, _) => *v,
        _ => 0,
    }
}
pub fn root_ctx(s: &Schema, d: usize) -> Vec<CtxVal> {
    s.defs[d].ctx_default.clone().unwrap_or_default()
}

pub struct ReadOut {
    /// bits were taken from one byte in both orders
    pub mixed: bool,
    pub res: Result<Val, E>,
    pub bits: usize,
    pub rest: Vec<bool>,
    /// next untouched byte of the stream
    pub next: u64,
    pub seen: Seen,
    pub end_matters: bool,
    pub seeks: bool,
    pub reach: u64,
    /// order in which the partly read byte was being taken
    pub half: Ord2,
}
pub fn read(s: &Schema, d: usize, data: &[u8]) -> ReadOut {
    read_at(s, d, data, 0)
}
/// Reading after skipping `off` bits.
pub fn read_at(s: &Schema, d: usize, data: &[u8], off: usize) -> ReadOut {
    let mut r = Rd::new(s, data);
    let ctx = root_ctx(s, d);
    let res = match r.skip(off, Ord2::Msb) {
        Ok(()) => r.def(&s.defs[d], &ctx),
        Err(e) => Err(e),
    };
    let rest = r.rest();
    ReadOut { res, bits: r.bits_read, rest, next: r.next, seen: r.seen, end_matters: r.end_matters, seeks: r.seeks, reach: r.reach, mixed: r.mixed, half: r.half }
}
/// An input that usually fits the declaration.
pub fn input(s: &Schema, d: usize, src: &mut Src) -> Vec<u8> {
    let n = src.below(4) * src.below(9);
    let seed = src.bytes(n);
    let ctx = root_ctx(s, d);
    let mut r = Rd::new(s, &seed);
    r.repair = Some(src);
    let _ = r.def(&s.defs[d], &ctx);
    let ok = r.repair.is_some();
    let mut data = r.data;
    let _ = ok;
    match src.below(12) {
        0 => {
            let k = src.below(data.len() + 1);
            data.truncate(k);
        }
        1 | 2 => {
            if !data.is_empty() {
                for _ in 0..1 + src.below(3) {
                    let i = src.below(data.len());
                    data[i] = *src.pick(&[0, 1, 0xff, 0x80, 0x7f]) ^ if src.chance(1, 2) { data[i] } else { 0 };
                }
            }
        }
        3..=6 => {
            let k = src.below(6);
            let b = src.bytes(k);
            data.extend(b);
        }
        _ => {}
    }
    data
}

// ---------------------------------------------------------------- writing

pub struct Wr<'a> {
    pub s: &'a Schema,
    pub out: BitOut,
    pub seen: Seen,
    pub seeks: bool,
}
impl<'a> Wr<'a> {
    pub fn new(s: &'a Schema) -> Self {
        Wr { s, out: BitOut::default(), seen: Seen::new(), seeks: false }
    }
    fn pending(&self) -> Ord2 {
        if self.out.n > 0 && self.out.lsb { Ord2::Lsb } else { Ord2::Msb }
    }
    fn prim(&mut self, t: Ty, v: u128, a: &Args) -> Result<(), E> {
        let n = a.bits(t.w);
        let bytes = matches!(a.z, Some((true, _)));
        if bytes && n > t.w {
            return Err(E::Undef("more bytes than the type has"));
        }
        if n > t.w {
            return Err(E::InvalidParam);
        }
        if n < t.w {
            self.seen.insert("reduced size");
        }
        if a.o() == Ord2::Lsb {
            self.seen.insert("least significant first");
        }
        if a.e() != native() && t.w > 8 {
            self.seen.insert("other byte order");
        }
        let o = match (a.o, a.z) {
            (Some(o), _) => o,
            (None, Some((false, _))) => Ord2::Msb,
            _ => self.pending(),
        };
        // whole bytes without an order continue in the pending one
        let whole = a.o.is_none() && !matches!(a.z, Some((false, _)));
        match encode(t, v, n, a.e(), if whole { Ord2::Msb } else { o }) {
            Err(()) if bytes => Err(E::Undef("number does not fit the bytes")),
            Err(()) => {
                self.seen.insert("does not fit");
                Err(E::InvalidParam)
            }
            Ok(None) => Err(E::Undef("signed big-endian least significant first")),
            Ok(Some(b)) => {
                if self.out.n > 0 || n % 8 != 0 {
                    self.seen.insert("partial bytes");
                }
                if whole {
                    let b: Vec<u8> = b.chunks(8).map(|c| crate::model::number(c, Ord2::Msb) as u8).collect();
                    self.out.bytes(&b, o);
                } else {
                    self.out.put(&b, o);
                }
                if self.out.mixed {
                    return Err(E::Undef("bit orders mixed within a byte"));
                }
                Ok(())
            }
        }
    }
    fn raw(&mut self, b: &[u8]) -> Result<(), E> {
        let o = self.pending();
        self.out.bytes(b, o);
        Ok(())
    }
    fn magic(&mut self, m: &Option<Vec<u8>>) -> Result<(), E> {
        match m {
            Some(m) => {
                self.seen.insert("magic");
                self.raw(m)
            }
            None => Ok(()),
        }
    }
    /// Nothing written where a seek went beyond the end: whether the output grows is up to it
    /// (a `Cursor` fills up to its position even for an empty write).
    fn hole(&self) -> Result<(), E> {
        if self.out.pos <= self.out.out.len() {
            return Ok(());
        }
        Err(E::Undef("nothing written beyond the end"))
    }
    fn seek(&mut self, s: Seek) -> Result<(), E> {
        self.seeks = true;
        self.seen.insert("seek");
        self.hole()?;
        let p = seek_pos(s, self.out.pos as u64, self.out.out.len() as u64)?;
        if p > 4096 {
            return Err(E::Undef("output too far away"));
        }
        self.out.seek(p as usize);
        Ok(())
    }
    fn ty(&mut self, t: &FTy, a: &Args, v: &Val) -> Result<(), E> {
        match t {
            FTy::Prim(t) | FTy::NonZero(t) => self.prim(*t, v.num(), a),
            FTy::Ip4 | FTy::Ip6 => {
                let Val::B(b) = v else { panic!("no address: {v:?}") };
                let n = b.iter().fold(0u128, |a, b| a << 8 | *b as u128);
                self.prim(if *t == FTy::Ip4 { TYPES[2] } else { TYPES[4] }, n, a)
            }
            FTy::CStr => {
                self.seen.insert("string");
                let Val::B(b) = v else { panic!("no string: {v:?}") };
                self.raw(b)?;
                self.raw(&[0])
            }
            FTy::Unit => Ok(()),
            FTy::Tuple(ts) => ts.iter().zip(v.items()).try_for_each(|(t, v)| self.ty(t, a, v)),
            FTy::Array(t, _) | FTy::Vec(t) | FTy::BxS(t) | FTy::ArcS(t) | FTy::Set(t) => {
                if v.items().len() > 1 {
                    self.seen.insert("several elements");
                }
                v.items().iter().try_for_each(|v| self.ty(t, a, v))
            }
            FTy::Map(k, x) => {
                if v.items().len() > 1 {
                    self.seen.insert("several elements");
                }
                v.items().iter().try_for_each(|p| {
                    self.ty(k, a, &p.items()[0])?;
                    self.ty(x, a, &p.items()[1])
                })
            }
            FTy::Opt(t) => match v {
                Val::Opt(Some(v)) => self.ty(t, a, v),
                _ => {
                    self.seen.insert("absent");
                    Ok(())
                }
            },
            FTy::Bx(t) | FTy::Arc(t) => self.ty(t, a, v),
            FTy::Def(d) => {
                let d = &self.s.defs[*d];
                let ctx = a.ctx(d);
                if !ctx.is_empty() {
                    self.seen.insert("context");
                }
                self.seen.insert("nested");
                self.def(d, &ctx, v)
            }
        }
    }
    fn pad(&mut self, n: usize, f: &Field, d: &Def, ctx: &[CtxVal]) -> Result<(), E> {
        if n > 1 << 16 {
            return Err(E::Undef("huge padding"));
        }
        if n > 0 {
            self.seen.insert("padding");
        }
        self.out.put(&vec![false; n], ord_of(f.order.or(d.order), ctx).unwrap_or(Ord2::Msb));
        if self.out.mixed {
            return Err(E::Undef("bit orders mixed within a byte"));
        }
        Ok(())
    }
    fn body(&mut self, d: &Def, fs: &[Field], ctx: &[CtxVal], kept: &[Val], stored: Option<Args>) -> Result<(), E> {
        let mut k = kept.iter();
        let vals = fs.iter().map(|f| if f.temp { None } else { k.next().cloned() }).collect();
        let mut env = Env { fields: fs, vals, ctx, bit: 0 };
        for (i, f) in fs.iter().enumerate() {
            if let (0, Some(a)) = (i, &stored) {
                let v = env.vals[0].clone().unwrap();
                self.ty(&f.ty, a, &v)?;
                continue;
            }
            if let Some(s) = &f.seek {
                let t = seek_target(s, &env)?;
                self.seek(t)?;
            }
            self.magic(&f.magic)?;
            if let Some(n) = padding(&f.pad[0], &f.pad[1], &env)? {
                self.pad(n, f, d, ctx)?;
            }
            env.bit = self.out.total_bits();
            if f.temp {
                self.seen.insert("temporary");
                if let (Some(e), FTy::Prim(t)) = (&f.temp_value, &f.ty) {
                    let v = mask(env.ev(e) as i128 as u128, t.w);
                    env.vals[i] = Some(Val::N(v));
                }
            }
            // a temporary field without a value is not written, nothing is asserted
            let written = !f.temp || f.temp_value.is_some();
            if let Some(c) = f.assert.as_ref().filter(|_| written) {
                self.seen.insert("assertion");
                if !env.cond(c) {
                    self.seen.insert("assertion fails");
                    return Err(E::Assertion);
                }
            }
            if let (Some(x), FTy::Prim(t)) = (f.assert_eq.filter(|_| written), &f.ty) {
                self.seen.insert("assertion");
                if env.vals[i].as_ref().unwrap().num() != mask(x as u128, t.w) {
                    self.seen.insert("assertion fails");
                    return Err(E::Assertion);
                }
            }
            let write = match (f.skip, &f.cond) {
                (Skip::All | Skip::Write, Some(c)) => !env.cond(c),
                (Skip::All | Skip::Write, None) => false,
                _ => true,
            };
            if f.skip != Skip::No || f.cond.is_some() {
                self.seen.insert(if write { "condition met" } else { "left out" });
            }
            if write {
                if let Some(c) = &f.writer {
                    let v = env.vals[i].as_ref().unwrap().num() as u32;
                    self.custom(c, v, &env)?;
                } else if !f.temp || f.temp_value.is_some() {
                    let a = field_args(f, d, &env);
                    let v = env.vals[i].clone().unwrap();
                    self.ty(&f.ty, &a, &v)?;
                }
            }
            if let Some(n) = padding(&f.pad[2], &f.pad[3], &env)? {
                self.pad(n, f, d, ctx)?;
            }
        }
        Ok(())
    }
    pub fn def(&mut self, d: &Def, ctx: &[CtxVal], v: &Val) -> Result<(), E> {
        if let Some(s) = &d.seek {
            let t = seek_target(s, &Env { fields: &[], vals: vec![], ctx, bit: 0 })?;
            self.seek(t)?;
        }
        self.magic(&d.magic)?;
        match &d.body {
            Body::Struct { fields, .. } => self.body(d, fields, ctx, v.items(), None),
            Body::Enum(en) => {
                self.seen.insert("enum");
                let (k, items) = v.var();
                let var = &en.variants[k];
                if let Some(c) = &var.writer {
                    // in place of the identifier too
                    self.seen.insert("variant with a writer");
                    let env = Env { fields: &[], vals: vec![], ctx, bit: 0 };
                    return self.custom(c, items[0].num() as u32, &env);
                }
                let a = id_args(en, d, ctx);
                match (&en.id, &var.sel) {
                    (IdTy::Ctx(_), _) => {}
                    (_, _) if var.stores => {}
                    (IdTy::Prim(t), Sel::Id(x) | Sel::Disc(x, _)) => self.prim(*t, mask(*x as u128, t.w), &a)?,
                    (IdTy::Bytes(_), Sel::IdBytes(b)) => {
                        for x in b {
                            self.prim(TYPES[0], *x as u128, &a)?;
                        }
                    }
                    x => panic!("no identifier for {x:?}"),
                }
                self.seen.insert(match var.sel {
                    Sel::Id(_) => "variant by identifier",
                    Sel::IdBytes(_) => "variant by byte string",
                    Sel::Pat(_) => "variant by pattern",
                    Sel::Disc(..) => "variant by discriminant",
                });
                self.body(d, &var.fields, ctx, items, if var.stores { Some(a) } else { None })
            }
        }
    }
}
impl Wr<'_> {
    fn custom(&mut self, c: &Custom, v: u32, env: &Env) -> Result<(), E> {
        self.seen.insert("custom writer");
        match c {
            Custom::A(k) => self.raw(&[enc_a(v, env.ev(k), env.bit)])?,
            Custom::B(k) => {
                let b = enc_b(v, env.ev(k), env.bit);
                self.out.put(&bits_of(b as u128, 3, Ord2::Msb), Ord2::Msb);
                if self.out.mixed {
                    return Err(E::Undef("bit orders mixed within a byte"));
                }
            }
        }
        Ok(())
    }
}
pub struct WriteOut {
    pub res: Result<Vec<u8>, E>,
    /// bits written, before completing the last byte
    pub bits: usize,
    pub seen: Seen,
    pub seeks: bool,
}
pub fn write(s: &Schema, d: usize, v: &Val) -> WriteOut {
    let mut w = Wr::new(s);
    let ctx = root_ctx(s, d);
    let r = w.def(&s.defs[d], &ctx, v);
    let bits = w.out.total_bits();
    let res = r.and_then(|()| {
        w.out.finalize();
        w.hole()?;
        Ok(std::mem::take(&mut w.out.out))
    });
    WriteOut { res, bits, seen: w.seen, seeks: w.seeks }
}
/// Several values through one writer.
pub fn write_seq(s: &Schema, d: usize, v: &[Val]) -> Result<Vec<u8>, E> {
    let mut w = Wr::new(s);
    let ctx = root_ctx(s, d);
    for v in v {
        w.def(&s.defs[d], &ctx, v)?;
    }
    w.out.finalize();
    w.hole()?;
    Ok(std::mem::take(&mut w.out.out))
}

/// The value of the type with its temporary fields kept, holding what writing gives them.
/// `None`: one of them is not written, or its value depends on the position.
pub fn keep_temps(s: &Schema, d: usize, v: &Val) -> Option<Val> {
    let def = &s.defs[d];
    let n = match v {
        Val::Var(k, _) => *k,
        _ => 0,
    };
    let items = match v {
        Val::Var(_, items) => &items[..],
        v => v.items(),
    };
    let fs: &[Field] = def.bodies()[n];
    let ctx = root_ctx(s, d);
    let mut k = items.iter();
    let vals = fs.iter().map(|f| if f.temp { None } else { k.next().cloned() }).collect();
    let mut env = Env { fields: fs, vals, ctx: &ctx, bit: 0 };
    for (i, f) in fs.iter().enumerate() {
        if f.temp {
            let (Some(e), FTy::Prim(t)) = (&f.temp_value, &f.ty) else { return None };
            if e.offsets() {
                return None;
            }
            env.vals[i] = Some(Val::N(mask(env.ev(e) as i128 as u128, t.w)));
        }
    }
    let out = env.vals.into_iter().collect::<Option<Vec<_>>>()?;
    Some(match v {
        Val::Var(k, _) => Val::Var(*k, out),
        _ => Val::Rec(out),
    })
}

// ---------------------------------------------------------------- updating

/// The value after updating, or the error.
pub fn update(s: &Schema, d: usize, v: &Val) -> Result<(Val, bool), E> {
    let def = &s.defs[d];
    let (fs, items): (&[Field], &[Val]) = match (&def.body, v) {
        (Body::Struct { fields, .. }, v) => (fields, v.items()),
        (Body::Enum(e), v) => {
            let (k, items) = v.var();
            (&e.variants[k].fields, items)
        }
    };
    let mut k = items.iter();
    let vals = fs.iter().map(|f| if f.temp { None } else { k.next().cloned() }).collect();
    let mut env = Env { fields: fs, vals, ctx: &[], bit: 0 };
    let mut changed = false;
    for (i, f) in fs.iter().enumerate() {
        if let (Some(e), FTy::Prim(t), false) = (&f.update, &f.ty, f.temp) {
            let x = env.ev(e) as i128;
            let (lo, hi) = match t.kind {
                Kind::Signed if t.w == 128 => (i128::MIN, i128::MAX),
                Kind::Signed => (-(1i128 << (t.w - 1)), (1i128 << (t.w - 1)) - 1),
                _ => (0, if t.w >= 127 { i128::MAX } else { (1i128 << t.w) - 1 }),
            };
            if x < lo || x > hi {
                return Err(E::Parse);
            }
            let n = Val::N(mask(x as u128, t.w));
            changed |= env.vals[i].as_ref() != Some(&n);
            env.vals[i] = Some(n);
        }
    }
    let out: Vec<Val> = env.vals.into_iter().flatten().collect();
    Ok((
        match v {
            Val::Var(k, _) => Val::Var(*k, out),
            _ => Val::Rec(out),
        },
        changed,
    ))
}

// ---------------------------------------------------------------- values

/// An arbitrary value of a type; sizes are usually respected.
pub fn arb_ty(s: &Schema, t: &FTy, size: &Size, src: &mut Src) -> Val {
    let num = |t: Ty, src: &mut Src| -> u128 {
        let n = match size {
            Size::Bits(n) => *n,
            Size::Bytes(n) => n * 8,
            _ => t.w,
        };
        match src.below(12) {
            0..=4 if t.kind != Kind::Bool => mask(src.below(9) as u128, if t.kind == Kind::Signed { n.saturating_sub(1) } else { n }),
            11 if t.kind != Kind::Bool => src.int(t.w),
            _ => {
                if t.kind == Kind::Bool {
                    return src.below(2) as u128;
                }
                // a number those bits can denote
                let v = src.int(n.min(t.w));
                decode(t, &bits_of(v, n.min(t.w), Ord2::Msb), End::Big, Ord2::Msb).unwrap_or(0)
            }
        }
    };
    match t {
        FTy::Prim(t) => Val::N(num(*t, src)),
        FTy::NonZero(t) => Val::N(num(*t, src).max(1)),
        FTy::Ip4 => Val::B(src.bytes(4)),
        FTy::Ip6 => Val::B(src.bytes(16)),
        FTy::CStr => {
            let n = match size {
                Size::Bytes(n) if src.chance(9, 10) => n - 1,
                _ => src.below(5),
            };
            Val::B((0..n).map(|_| 1 + src.below(255) as u8).collect())
        }
        FTy::Unit => Val::Unit,
        FTy::Array(t, n) => Val::Seq((0..*n).map(|_| arb_ty(s, t, size, src)).collect()),
        FTy::Tuple(ts) => Val::Seq(ts.iter().map(|t| arb_ty(s, t, size, src)).collect()),
        FTy::Opt(t) => Val::Opt(if src.chance(4, 5) { Some(Box::new(arb_ty(s, t, size, src))) } else { None }),
        FTy::Bx(t) | FTy::Arc(t) => arb_ty(s, t, size, src),
        FTy::Vec(t) | FTy::BxS(t) | FTy::ArcS(t) => Val::Seq((0..src.below(5)).map(|_| arb_ty(s, t, size, src)).collect()),
        FTy::Set(t) => {
            let mut v: Vec<Val> = vec![];
            for _ in 0..src.below(5) {
                let x = arb_ty(s, t, size, src);
                if !v.contains(&x) {
                    v.push(x);
                }
            }
            Val::Set(v)
        }
        FTy::Map(k, x) => {
            let mut v: Vec<Val> = vec![];
            for _ in 0..src.below(5) {
                let (a, b) = (arb_ty(s, k, size, src), arb_ty(s, x, size, src));
                if !v.iter().any(|p| p.items()[0] == a) {
                    v.push(Val::Seq(vec![a, b]));
                }
            }
            Val::Set(v)
        }
        FTy::Def(d) => arb(s, *d, src),
    }
}
fn arb_body(s: &Schema, fs: &[Field], src: &mut Src, stored: Option<Val>) -> Vec<Val> {
    fs.iter()
        .enumerate()
        .filter(|(_, f)| !f.temp)
        .map(|(i, f)| {
            if let (0, Some(v)) = (i, &stored) {
                return v.clone();
            }
            match (f.assert_eq, &f.ty) {
                (Some(x), FTy::Prim(t)) if src.chance(9, 10) => Val::N(mask(x as u128, t.w)),
                _ => arb_ty(s, &f.ty, &f.size, src),
            }
        })
        .collect()
}
pub fn arb(s: &Schema, d: usize, src: &mut Src) -> Val {
    match &s.defs[d].body {
        Body::Struct { fields, .. } => Val::Rec(arb_body(s, fields, src, None)),
        Body::Enum(e) => {
            let k = src.below(e.variants.len());
            let v = &e.variants[k];
            let stored = if v.stores {
                Some(match &e.id {
                    IdTy::Prim(t) => {
                        let x = match &v.sel {
                            Sel::Pat(Pat::Range(a, b)) => a + src.below((b - a + 1).max(1) as usize) as i128,
                            Sel::Pat(Pat::Alt(v)) => v[src.below(v.len())],
                            Sel::Pat(Pat::Rem(m, r)) => r + m * src.below(3) as i128,
                            _ => arb_ty(s, &FTy::Prim(*t), &e.size, src).num() as i128,
                        };
                        Val::N(mask(x as u128, t.w))
                    }
                    _ => arb_ty(s, &v.fields[0].ty, &Size::None, src),
                })
            } else {
                None
            };
            Val::Var(k, arb_body(s, &v.fields, src, stored))
        }
    }
}
/// A value to write: usually one that was decoded, sometimes changed, sometimes arbitrary.
pub fn value(s: &Schema, d: usize, src: &mut Src) -> Val {
    if src.chance(3, 5) {
        let data = input(s, d, src);
        if let Ok(v) = read(s, d, &data).res {
            return v;
        }
    }
    arb(s, d, src)
}

/// Written and read alike: reading what was written gives the value back.
pub fn symmetric(s: &Schema, d: usize) -> bool {
    let d = &s.defs[d];
    fn ty(s: &Schema, t: &FTy) -> bool {
        match t {
            FTy::Def(d) => symmetric(s, *d),
            FTy::Array(t, _) | FTy::Opt(t) | FTy::Bx(t) | FTy::Arc(t) | FTy::Vec(t) | FTy::BxS(t) | FTy::ArcS(t) => ty(s, t),
            FTy::Tuple(v) => v.iter().all(|t| ty(s, t)),
            // members may be emitted in another order or number than they were read
            FTy::Set(_) | FTy::Map(..) => false,
            _ => true,
        }
    }
    let converted = match &d.body {
        Body::Enum(e) => e.variants.iter().any(|v| {
            // the identifier of a default variant may be wider than what is stored
            let unwritable = match (&v.sel, &e.id, &e.size) {
                (Sel::Id(x) | Sel::Disc(x, _), IdTy::Prim(t), z) if v.default => match z {
                    Size::None => false,
                    Size::Bits(n) => encode(*t, mask(*x as u128, t.w), *n, End::Big, Ord2::Msb).is_err(),
                    Size::Bytes(n) => encode(*t, mask(*x as u128, t.w), n * 8, End::Big, Ord2::Msb).is_err(),
                    _ => true,
                },
                _ => false,
            };
            unwritable || v.reader.is_some() || v.writer.is_some()
        }),
        _ => false,
    };
    d.seek.is_none()
        && !converted
        && d.bodies().iter().all(|fs| {
            fs.iter().all(|f| {
                f.seek.is_none()
                    && f.skip == Skip::No
                    && f.cond.is_none()
                    && f.map == Mp::None
                    && f.reader.is_none()
                    && f.writer.is_none()
                    && !f.temp
                    && f.limit != Limit::All
                    && ty(s, &f.ty)
            })
        })
}
