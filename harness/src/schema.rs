//! Declarations: a random but deterministic family of derived types, described as data. The build
//! script renders them as Rust source, the checks interpret the same data as the reference.
use crate::codec::{Kind, Ty, TYPES};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    /// Euclidean remainder by the right operand, which is a positive constant
    Mod,
    And,
    Xor,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    K(i64),
    /// an integer or boolean field
    F(usize),
    /// the length of a vector or array field
    Len(usize),
    /// a numeric context parameter
    C(usize),
    BitOff,
    ByteOff,
    Bin(Op, Box<Ex>, Box<Ex>),
}
impl Ex {
    pub fn bin(op: Op, a: Ex, b: Ex) -> Ex {
        Ex::Bin(op, Box::new(a), Box::new(b))
    }
    pub fn walk(&self, f: &mut dyn FnMut(&Ex)) {
        f(self);
        if let Ex::Bin(_, a, b) = self {
            a.walk(f);
            b.walk(f);
        }
    }
    pub fn mentions(&self, i: usize) -> bool {
        let mut r = false;
        self.walk(&mut |e| r |= matches!(e, Ex::F(k) | Ex::Len(k) if *k == i));
        r
    }
    pub fn offsets(&self) -> bool {
        let mut r = false;
        self.walk(&mut |e| r |= matches!(e, Ex::BitOff | Ex::ByteOff));
        r
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rel {
    Eq,
    Ne,
    Lt,
    Le,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    Rel(Rel, Ex, Ex),
    Not(Box<Cond>),
    And(Box<Cond>, Box<Cond>),
    Or(Box<Cond>, Box<Cond>),
}
impl Cond {
    pub fn walk(&self, f: &mut dyn FnMut(&Ex)) {
        match self {
            Cond::Rel(_, a, b) => {
                a.walk(f);
                b.walk(f)
            }
            Cond::Not(a) => a.walk(f),
            Cond::And(a, b) | Cond::Or(a, b) => {
                a.walk(f);
                b.walk(f)
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum FTy {
    Prim(Ty),
    NonZero(Ty),
    Ip4,
    Ip6,
    CStr,
    Unit,
    Array(Box<FTy>, usize),
    Tuple(Vec<FTy>),
    Opt(Box<FTy>),
    Bx(Box<FTy>),
    Arc(Box<FTy>),
    Vec(Box<FTy>),
    BxS(Box<FTy>),
    ArcS(Box<FTy>),
    Set(Box<FTy>),
    Map(Box<FTy>, Box<FTy>),
    Def(usize),
}

/// a byte order or bit order: constant, or the context parameter of that number
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sw {
    /// big endian, least significant first
    On,
    /// little endian, most significant first
    Off,
    Ctx(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Size {
    None,
    Bits(usize),
    Bytes(usize),
    BitsEx(Ex),
    BytesEx(Ex),
    /// a size handed down as context parameter
    Param(usize),
    /// a size constructed in the `ctx` attribute
    CtxBits(Ex),
    CtxBytes(Ex),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Limit {
    None,
    Count(Ex),
    Bits(Ex),
    Bytes(Ex),
    /// last element: its value (or first number) satisfies the relation
    Until(Rel, Ex),
    All,
}
#[derive(Clone, Debug, PartialEq)]
pub enum SeekTo {
    Rewind,
    Current(Ex),
    Start(Ex),
    End(Ex),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Skip {
    No,
    All,
    Read,
    Write,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Def0 {
    None,
    Int(i128),
    Field(usize),
    /// a vector of that many elements of that value
    Fill(usize, i128),
    Some(i128),
    Ex(Ex),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Mp {
    None,
    /// decoded as `from`, then `(v ^ k) as T`; refused when `v % 7 == m`
    Num { from: Ty, k: i64, refuse: Option<i64> },
    /// order of a vector reversed
    Rev,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Custom {
    /// one byte; the value is `(byte ^ k) + 256 * bit offset`
    A(Ex),
    /// three bits, most significant first, plus `k`
    B(Ex),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CtxTy {
    Endian,
    Bits,
    Bytes,
    Order,
    Num,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CtxVal {
    Big(bool),
    Bits(usize),
    Bytes(usize),
    Lsb(bool),
    Num(i64),
}

#[derive(Clone, Debug)]
pub struct Field {
    pub ty: FTy,
    pub endian: Option<Sw>,
    pub order: Option<Sw>,
    pub size: Size,
    pub limit: Limit,
    /// bits before, bytes before, bits after, bytes after
    pub pad: [Option<Ex>; 4],
    pub magic: Option<Vec<u8>>,
    pub seek: Option<SeekTo>,
    pub args: Vec<Ex>,
    pub skip: Skip,
    pub cond: Option<Cond>,
    pub default: Def0,
    pub map: Mp,
    pub assert: Option<Cond>,
    pub assert_eq: Option<i128>,
    pub update: Option<Ex>,
    pub temp: bool,
    pub temp_value: Option<Ex>,
    pub reader: Option<Custom>,
    pub writer: Option<Custom>,
}
impl Field {
    pub fn new(ty: FTy) -> Field {
        Field {
            ty,
            endian: None,
            order: None,
            size: Size::None,
            limit: Limit::None,
            pad: [None, None, None, None],
            magic: None,
            seek: None,
            args: vec![],
            skip: Skip::No,
            cond: None,
            default: Def0::None,
            map: Mp::None,
            assert: None,
            assert_eq: None,
            update: None,
            temp: false,
            temp_value: None,
            reader: None,
            writer: None,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum IdTy {
    Prim(Ty),
    /// byte array
    Bytes(usize),
    /// supplied by the caller: context parameter of that number
    Ctx(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Pat {
    Range(i128, i128),
    Alt(Vec<i128>),
    /// any number whose remainder by the first is the second
    Rem(i128, i128),
    Any,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Id(i128),
    /// big-endian reading of the bytes
    IdBytes(Vec<u8>),
    Pat(Pat),
    /// the discriminant; written out or implied
    Disc(i128, bool),
}
#[derive(Clone, Debug)]
pub struct Variant {
    pub sel: Sel,
    pub default: bool,
    pub named: bool,
    /// the first field of a pattern variant stores the identifier
    pub fields: Vec<Field>,
    pub stores: bool,
    /// conversions of the whole variant; its only field is then a plain number
    pub reader: Option<Custom>,
    pub writer: Option<Custom>,
    /// what the second identifier of the enum has to be, if that matters
    pub second: Option<i64>,
    /// how an identifier is spelt: number, string, hexadecimal
    pub spell: usize,
}
#[derive(Clone, Debug)]
pub struct Enum {
    pub id: IdTy,
    /// a second identifier supplied by the caller: `id = "a, b"`
    pub id2: Option<usize>,
    pub id_endian: Option<Sw>,
    pub size: Size,
    pub variants: Vec<Variant>,
    pub has_disc: bool,
}
#[derive(Clone, Debug)]
pub enum Body {
    Struct { fields: Vec<Field>, named: bool },
    Enum(Enum),
}
#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub endian: Option<Sw>,
    pub order: Option<Sw>,
    pub magic: Option<Vec<u8>>,
    pub seek: Option<SeekTo>,
    pub ctx: Vec<CtxTy>,
    pub ctx_default: Option<Vec<CtxVal>>,
    pub body: Body,
    /// also derives the static size
    pub sized: bool,
    pub depth: usize,
}
impl Def {
    pub fn bodies(&self) -> Vec<&Vec<Field>> {
        match &self.body {
            Body::Struct { fields, .. } => vec![fields],
            Body::Enum(e) => e.variants.iter().map(|v| &v.fields).collect(),
        }
    }
    pub fn has_temp(&self) -> bool {
        self.bodies().iter().any(|b| b.iter().any(|f| f.temp))
    }
    pub fn is_enum(&self) -> bool {
        matches!(self.body, Body::Enum(_))
    }
}
#[derive(Clone, Debug)]
pub struct Schema {
    pub family: String,
    pub defs: Vec<Def>,
    pub roots: Vec<usize>,
    /// roots that belong together (a temporary field and its kept twin, ...)
    pub twins: Vec<(usize, usize)>,
}

/// What a field's attributes hand to its type: byte order, size in bits or bytes, bit order, and a
/// number of further values.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sig {
    pub e: bool,
    /// 0 none, 1 bits, 2 bytes
    pub s: u8,
    pub o: bool,
    pub n: usize,
}
/// Does a field of this type compile with these arguments?
pub fn supports(t: &FTy, g: Sig) -> bool {
    match t {
        FTy::Prim(_) => g.n == 0 && !(g.s == 2 && g.o && !g.e),
        FTy::NonZero(_) => g.n == 0 && (g.e || !g.o && g.s == 0) && !(g.e && g.o && g.s == 0),
        FTy::Ip4 | FTy::Ip6 => g.n == 0 && g.s == 0,
        FTy::CStr => !g.e && !g.o && g.n == 0 && g.s != 1,
        FTy::Unit => true,
        FTy::Array(t, _) | FTy::Opt(t) | FTy::Bx(t) | FTy::Arc(t) | FTy::Vec(t) | FTy::BxS(t) | FTy::ArcS(t) | FTy::Set(t) => supports(t, g),
        FTy::Map(k, v) => supports(k, g) && supports(v, g),
        FTy::Tuple(v) => v.iter().all(|t| supports(t, g)),
        FTy::Def(_) => true,
    }
}

/// Relative weights (0 to 100) of what a family of declarations contains.
#[derive(Clone, Debug)]
pub struct Prof {
    pub roots: usize,
    pub fields: usize,
    pub depth: usize,
    pub endian: u32,
    pub order: u32,
    pub size: u32,
    pub coll: u32,
    pub all: u32,
    pub wrap: u32,
    pub leafy: u32,
    pub nonzero: u32,
    pub pad: u32,
    pub magic: u32,
    pub seek: u32,
    pub def: u32,
    pub en: u32,
    pub args: u32,
    pub cond: u32,
    pub map: u32,
    pub assert: u32,
    pub update: u32,
    pub temp: u32,
    pub custom: u32,
    pub offset: u32,
    pub ctx_root: u32,
    /// counts and amounts straight from the input, without a bound
    pub hostile: u32,
    pub dynsize: u32,
    /// only constant layouts
    pub fixed: bool,
    /// seeks only forward from the current position
    pub forward: bool,
    /// no seek from the end
    pub no_end: bool,
    /// nothing counted in bits
    pub bytes: bool,
    /// nothing that allocates
    pub noalloc: bool,
    /// nothing only the standard library has
    pub nostd: bool,
}
const BASE: Prof = Prof {
    roots: 60, fields: 5, depth: 2, endian: 35, order: 20, size: 35, coll: 18, all: 25, wrap: 8, leafy: 8, nonzero: 6, pad: 8, magic: 5, seek: 0, def: 14, en: 35, args: 40, cond: 8,
    map: 5, assert: 5, update: 0, temp: 4, custom: 4, offset: 10, ctx_root: 25, hostile: 6, dynsize: 15, fixed: false, forward: false, no_end: false, bytes: false, noalloc: false, nostd: false,
};
pub const FAMILIES: [&str; 24] =
    ["P05", "P06", "P07", "P08", "P08A", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P23", "P23N", "P23B", "P23M", "P24", "P25"];
pub fn profile(f: &str) -> Prof {
    let b = BASE;
    match f {
        "P05" => Prof { roots: 110, seek: 4, ..b },
        "P06" => Prof { roots: 110, seek: 3, update: 3, ..b },
        "P07" => Prof { roots: 70, seek: 0, size: 50, offset: 0, custom: 0, ..b },
        "P08" => Prof { roots: 80, all: 0, no_end: true, ..b },
        "P08A" => Prof { roots: 70, all: 80, coll: 70, size: 45, custom: 0, nonzero: 20, assert: 0, magic: 2, en: 15, ..b },
        "P09" => Prof { roots: 90, hostile: 75, coll: 35, seek: 8, dynsize: 40, args: 30, pad: 14, ..b },
        "P10" => Prof { roots: 70, seek: 10, coll: 30, all: 50, size: 45, ..b },
        "P11" => Prof { roots: 80, hostile: 25, coll: 75, all: 30, size: 25, def: 8, cond: 3, pad: 3, custom: 0, ..b },
        "P12" => Prof { roots: 100, en: 100, def: 25, fields: 3, endian: 45, ..b },
        "P13" => Prof { roots: 80, custom: 12, magic: 28, assert: 30, fields: 4, ..b },
        "P14" => Prof { roots: 80, pad: 45, cond: 15, fields: 4, order: 30, ..b },
        "P15" => Prof { roots: 80, seek: 40, fields: 4, coll: 8, pad: 3, def: 20, ..b },
        "P16" => Prof { roots: 80, update: 45, coll: 30, cond: 3, args: 20, map: 0, custom: 0, temp: 2, ..b },
        "P17" => Prof { roots: 60, temp: 40, coll: 25, en: 25, ..b },
        "P18" => Prof { roots: 80, def: 45, args: 80, endian: 50, order: 35, depth: 3, ctx_root: 70, fields: 4, dynsize: 35, ..b },
        "P19" => Prof { roots: 120, fixed: true, size: 60, pad: 15, magic: 12, coll: 0, cond: 0, map: 0, assert: 0, custom: 0, offset: 0, leafy: 0, dynsize: 0, hostile: 0, args: 0, en: 35, def: 22, wrap: 18, temp: 3, ..b },
        "P20" => Prof { roots: 90, wrap: 60, leafy: 35, nonzero: 40, fields: 4, coll: 5, endian: 45, order: 30, cond: 3, pad: 5, ..b },
        "P21" => Prof { roots: 70, all: 45, seek: 8, pad: 20, forward: true, ..b },
        "P23" => Prof { roots: 60, bytes: true, nostd: true, order: 0, map: 0, custom: 0, seek: 4, ..b },
        "P23N" => Prof { roots: 50, bytes: true, nostd: true, noalloc: true, order: 0, map: 0, custom: 0, coll: 0, seek: 4, ..b },
        "P23B" => Prof { roots: 50, nostd: true, map: 0, custom: 0, seek: 4, ..b },
        "P23M" => Prof { roots: 40, nonzero: 0, nostd: true, noalloc: true, map: 0, custom: 0, coll: 0, seek: 4, ..b },
        "P24" => Prof { roots: 80, cond: 50, fields: 6, temp: 2, ..b },
        "P25" => Prof { roots: 90, cond: 16, custom: 30, map: 28, offset: 60, size: 40, pad: 6, ..b },
        x => panic!("no family {x}"),
    }
}

/// Deterministic choices of the generator.
pub struct G {
    s: u64,
    p: Prof,
    pub defs: Vec<Def>,
    prefix: String,
}
fn spread(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn family(name: &str, seed: u64, scale: f64) -> Schema {
    let p = profile(name);
    let mut s = seed.wrapping_mul(0x1000193);
    for b in name.bytes() {
        s = spread(&mut s) ^ b as u64;
    }
    let roots = ((p.roots as f64) * scale).max(1.0) as usize;
    let mut g = G { s, p, defs: vec![], prefix: name.to_lowercase() };
    let mut r = vec![];
    for k in 0..roots {
        // every root has its own stream of choices, so that a family only grows with the scale
        g.s = seed.wrapping_mul(0x9E3779B1).wrapping_add(k as u64).wrapping_mul(0x85EBCA77C2B2AE63) ^ s;
        spread(&mut g.s);
        let d = g.root();
        r.push(d);
    }
    let mut sc = Schema { family: name.into(), defs: g.defs, roots: r, twins: vec![] };
    if name == "P17" {
        twins(&mut sc);
    }
    sc
}
/// For every root with temporary fields a second root in which they are kept.
fn twins(s: &mut Schema) {
    for r in s.roots.clone() {
        let d = &s.defs[r];
        if !d.has_temp() {
            continue;
        }
        let mut t = d.clone();
        t.name = format!("{}k", d.name);
        let keep = |fs: &mut Vec<Field>| {
            for f in fs {
                f.temp = false;
                f.temp_value = None;
            }
        };
        match &mut t.body {
            Body::Struct { fields, .. } => keep(fields),
            Body::Enum(e) => e.variants.iter_mut().for_each(|v| keep(&mut v.fields)),
        }
        s.defs.push(t);
        s.roots.push(s.defs.len() - 1);
        s.twins.push((r, s.defs.len() - 1));
    }
}

/// what is known about the surroundings of a field being generated
struct Env {
    endian: Option<Sw>,
    order: Option<Sw>,
    ctx: Vec<CtxTy>,
    depth: usize,
    /// inside the elements of a collection
    elem: bool,
    fixed: bool,
}

impl G {
    fn raw(&mut self) -> u64 {
        spread(&mut self.s)
    }
    fn n(&mut self, k: usize) -> usize {
        (self.raw() % k.max(1) as u64) as usize
    }
    fn pc(&mut self, p: u32) -> bool {
        ((self.raw() >> 7) % 100) < p as u64
    }
    fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        let i = self.n(v.len());
        v[i].clone()
    }

    fn root(&mut self) -> usize {
        let mut ctx = vec![];
        let mut def = None;
        if self.pc(self.p.ctx_root) && !self.p.fixed {
            for _ in 0..1 + self.n(3) {
                let c = self.pick(&[CtxTy::Endian, CtxTy::Order, CtxTy::Num, CtxTy::Num, CtxTy::Bits, CtxTy::Bytes]);
                ctx.push(self.whole(c));
            }
            def = Some(ctx.iter().map(|c| self.ctx_val(*c)).collect());
        }
        self.def(ctx, def, 0, false)
    }
    /// a choice to count in bits
    fn bitty(&mut self, p: u32) -> bool {
        self.pc(p) && !self.p.bytes
    }
    fn whole(&self, c: CtxTy) -> CtxTy {
        match c {
            CtxTy::Order | CtxTy::Bits if self.p.bytes => CtxTy::Bytes,
            c => c,
        }
    }
    fn ctx_val(&mut self, c: CtxTy) -> CtxVal {
        match c {
            CtxTy::Endian => CtxVal::Big(self.pc(50)),
            CtxTy::Order => CtxVal::Lsb(self.pc(50)),
            CtxTy::Bits => CtxVal::Bits(1 + self.n(16)),
            CtxTy::Bytes => CtxVal::Bytes(1 + self.n(2)),
            CtxTy::Num => CtxVal::Num(self.n(6) as i64),
        }
    }

    /// Build a declaration taking exactly the given context, and return its number.
    fn def(&mut self, ctx: Vec<CtxTy>, ctx_default: Option<Vec<CtxVal>>, depth: usize, elem: bool) -> usize {
        let pc = |v: &Vec<CtxTy>, t: CtxTy| v.iter().enumerate().filter(|(_, c)| **c == t).map(|(i, _)| i).collect::<Vec<_>>();
        let es = pc(&ctx, CtxTy::Endian);
        let os = pc(&ctx, CtxTy::Order);
        let endian = if !es.is_empty() && self.pc(75) {
            Some(Sw::Ctx(self.pick(&es)))
        } else if self.pc(self.p.endian) {
            Some(if self.pc(50) { Sw::On } else { Sw::Off })
        } else {
            None
        };
        let order = if !os.is_empty() && self.pc(75) {
            Some(Sw::Ctx(self.pick(&os)))
        } else if self.pc(self.p.order / 2) {
            Some(if self.pc(70) { Sw::On } else { Sw::Off })
        } else {
            None
        };
        let magic = self.magic();
        let mut env = Env { endian, order, ctx: ctx.clone(), depth, elem, fixed: self.p.fixed };
        let en = if depth == 0 { self.pc(self.p.en * 2 / 3) || self.p.en >= 100 && self.pc(80) } else { self.pc(self.p.en) };
        let seek = if !en && !elem && self.pc(self.p.seek * 2 / 3) { Some(self.seek(&[], &env, true)) } else { None };
        let body = if en {
            Body::Enum(self.enm(&mut env))
        } else {
            let n = 1 + self.n(self.p.fields);
            let named = self.pc(75);
            let n = if self.pc(3) { 0 } else { n };
            let mut fields = vec![];
            for i in 0..n {
                let last = i + 1 == n;
                let f = self.field(&fields, &env, last);
                fields.push(f);
            }
            self.finish(&mut fields, &env);
            Body::Struct { fields, named: named || n == 0 }
        };
        let name = format!("{}D{}", self.prefix.to_uppercase(), self.defs.len());
        self.defs.push(Def { name, endian, order, magic, seek, ctx, ctx_default, body, sized: self.p.fixed, depth });
        self.defs.len() - 1
    }

    fn magic(&mut self) -> Option<Vec<u8>> {
        if self.pc(self.p.magic) {
            let n = 1 + self.n(3);
            Some((0..n).map(|_| self.pick(&[b'A', b'Z', 0u8, 0xff, 0x5a, b'd', b'"', b'\\'])).collect())
        } else {
            None
        }
    }
    fn seek(&mut self, prior: &[Field], env: &Env, top: bool) -> SeekTo {
        let ex = |g: &mut G, lo: i64, hi: i64| -> Ex {
            let refs: Vec<usize> = if top { vec![] } else { g.refs(prior).into_iter().filter(|i| !prior[*i].temp || prior[*i].temp_value.is_some()).collect() };
            let nums: Vec<usize> = env.ctx.iter().enumerate().filter(|(_, c)| **c == CtxTy::Num).map(|(i, _)| i).collect();
            if !refs.is_empty() && g.pc(45) {
                let f = Ex::F(g.pick(&refs));
                if g.pc(g.p.hostile) {
                    f
                } else {
                    Ex::bin(Op::Add, Ex::bin(Op::Mod, f, Ex::K(hi - lo + 1)), Ex::K(lo))
                }
            } else if !nums.is_empty() && g.pc(50) {
                Ex::C(g.pick(&nums))
            } else {
                Ex::K(lo + g.n((hi - lo + 1) as usize) as i64)
            }
        };
        if self.p.forward {
            return SeekTo::Current(ex(self, 0, 4));
        }
        match self.n(8) {
            0 => SeekTo::Rewind,
            1 | 2 => SeekTo::Start(ex(self, -1, 12)),
            3 if !self.p.no_end => SeekTo::End(ex(self, -8, 1)),
            _ => SeekTo::Current(ex(self, -3, 4)),
        }
    }

    /// integer and boolean fields an expression may refer to
    fn refs(&self, prior: &[Field]) -> Vec<usize> {
        prior
            .iter()
            .enumerate()
            .filter(|(_, f)| match &f.ty {
                FTy::Prim(t) => t.kind != Kind::Float && !(matches!(f.skip, Skip::All | Skip::Read) && f.cond.is_none() && f.default == Def0::None),
                FTy::NonZero(_) => f.skip == Skip::No,
                _ => false,
            })
            .map(|(i, _)| i)
            .collect()
    }
    fn lens(&self, prior: &[Field]) -> Vec<usize> {
        prior
            .iter()
            .enumerate()
            .filter(|(_, f)| matches!(f.ty, FTy::Vec(_)) && f.map == Mp::None && !(matches!(f.skip, Skip::All | Skip::Read) && f.cond.is_none()))
            .map(|(i, _)| i)
            .collect()
    }
    /// some expression; `off`: offsets may be mentioned
    fn ex(&mut self, prior: &[Field], env: &Env, off: bool) -> Ex {
        let refs: Vec<usize> = self.refs(prior).into_iter().filter(|i| !prior[*i].temp || prior[*i].temp_value.is_some()).collect();
        self.ex_of(refs, prior, env, off)
    }
    fn ex_of(&mut self, refs: Vec<usize>, prior: &[Field], env: &Env, off: bool) -> Ex {
        let lens = self.lens(prior);
        let nums: Vec<usize> = env.ctx.iter().enumerate().filter(|(_, c)| **c == CtxTy::Num).map(|(i, _)| i).collect();
        let mut atom = |g: &mut G| {
            if off && g.pc(g.p.offset / 2) {
                return if g.bitty(50) { Ex::BitOff } else { Ex::ByteOff };
            }
            if !nums.is_empty() && g.pc(40) {
                return Ex::C(g.pick(&nums));
            }
            if !lens.is_empty() && g.pc(15) {
                return Ex::Len(g.pick(&lens));
            }
            if !refs.is_empty() && g.pc(75) {
                return Ex::F(g.pick(&refs));
            }
            Ex::K(g.n(5) as i64)
        };
        let a = atom(self);
        if self.pc(30) {
            let op = self.pick(&[Op::Add, Op::Add, Op::Sub, Op::Mul, Op::And, Op::Xor]);
            let b = atom(self);
            Ex::bin(op, a, b)
        } else {
            a
        }
    }
    /// an expression for an amount, usually between 0 and `max`
    fn amount(&mut self, prior: &[Field], env: &Env, off: bool, max: i64, both: bool) -> Ex {
        // what the writer does not evaluate may use temporary fields without a value
        let refs: Vec<usize> =
            self.refs(prior).into_iter().filter(|i| !both || !prior[*i].temp || prior[*i].temp_value.is_some()).collect();
        if self.pc(25) || env.fixed {
            return Ex::K(self.n(max as usize + 1) as i64);
        }
        let e = self.ex_of(refs, prior, env, off);
        if matches!(e, Ex::K(_)) || self.pc(self.p.hostile) {
            return e;
        }
        Ex::bin(Op::Mod, e, Ex::K(max + 1))
    }
    fn cond(&mut self, prior: &[Field], env: &Env, off: bool) -> Cond {
        let c = {
            let a = self.ex(prior, env, off);
            let a = if self.pc(60) { Ex::bin(Op::Mod, a, Ex::K(2 + self.n(3) as i64)) } else { a };
            let b = if self.pc(80) { Ex::K(self.n(3) as i64) } else { self.ex(prior, env, off) };
            let rel = self.pick(&[Rel::Eq, Rel::Ne, Rel::Lt, Rel::Le]);
            Cond::Rel(rel, a, b)
        };
        match self.n(8) {
            0 => Cond::Not(Box::new(c)),
            1 => Cond::And(Box::new(c), Box::new(self.cond(prior, env, off))),
            2 => Cond::Or(Box::new(c), Box::new(self.cond(prior, env, off))),
            _ => c,
        }
    }

    fn prim(&mut self) -> Ty {
        // small integers most of the time
        match self.n(20) {
            0..=6 => TYPES[0],
            7..=9 => TYPES[1],
            10 => TYPES[2],
            11 => TYPES[6],
            12 => TYPES[7],
            _ => self.pick(&TYPES),
        }
    }
    fn int(&mut self) -> Ty {
        loop {
            let t = self.prim();
            if matches!(t.kind, Kind::Unsigned | Kind::Signed) {
                return t;
            }
        }
    }

    fn field(&mut self, prior: &[Field], env: &Env, last: bool) -> Field {
        let endian = if self.pc(self.p.endian / 2) {
            let es: Vec<usize> = env.ctx.iter().enumerate().filter(|(_, c)| **c == CtxTy::Endian).map(|(i, _)| i).collect();
            Some(if !es.is_empty() && self.pc(60) { Sw::Ctx(self.pick(&es)) } else if self.pc(50) { Sw::On } else { Sw::Off })
        } else {
            None
        };
        let order = if self.pc(self.p.order) {
            let os: Vec<usize> = env.ctx.iter().enumerate().filter(|(_, c)| **c == CtxTy::Order).map(|(i, _)| i).collect();
            Some(if !os.is_empty() && self.pc(60) { Sw::Ctx(self.pick(&os)) } else if self.pc(60) { Sw::On } else { Sw::Off })
        } else {
            None
        };
        let e = endian.or(env.endian).is_some();
        let o = order.or(env.order).is_some();
        // custom conversions first: they fix the type
        if !env.fixed && self.pc(self.p.custom) {
            let mut f = Field::new(FTy::Prim(TYPES[2]));
            f.endian = endian;
            f.order = order;
            let k = |g: &mut G| {
                if g.pc(50) { Ex::K(g.n(250) as i64) } else { g.ex(prior, env, true) }
            };
            let a = self.pc(60);
            let (r, w) = match self.n(4) {
                0 => (true, false),
                1 => (false, true),
                _ => (true, true),
            };
            let kk = k(self);
            if r {
                f.reader = Some(if a { Custom::A(kk.clone()) } else { Custom::B(kk.clone()) });
            }
            if w {
                let kk = if r { kk } else { k(self) };
                f.writer = Some(if a { Custom::A(kk) } else { Custom::B(kk) });
            }
            if (!r || !w) && !supports(&f.ty, Sig { e, s: 0, o, n: 0 }) {
                f.order = None;
            }
            if self.pc(self.p.temp) {
                f.temp = true;
                f.temp_value = Some(Ex::K(0));
            }
            self.common(&mut f, prior, env);
            return f;
        }
        if self.pc(self.p.temp) {
            return self.temp(endian, order, e, o, prior, env);
        }
        if !env.fixed && self.pc(self.p.map) {
            if let Some(f) = self.mapped(endian, order, e, o, prior, env) {
                return f;
            }
        }
        let mut f = Field::new(FTy::Unit);
        f.endian = endian;
        f.order = order;
        for _ in 0..60 {
            if let Some(ty) = self.shape(&mut f, e, o, prior, env, last) {
                f.ty = ty;
                self.common(&mut f, prior, env);
                return f;
            }
            f.size = Size::None;
            f.limit = Limit::None;
            f.args.clear();
        }
        // always possible
        f.ty = FTy::Prim(TYPES[0]);
        f.size = Size::None;
        f.limit = Limit::None;
        f.args.clear();
        f
    }

    fn temp(&mut self, endian: Option<Sw>, order: Option<Sw>, e: bool, o: bool, prior: &[Field], env: &Env) -> Field {
        let t = loop {
            let t = self.int();
            if t.kind == Kind::Unsigned && t.w <= 64 || self.pc(10) {
                break t;
            }
        };
        let mut f = Field::new(FTy::Prim(t));
        f.endian = endian;
        f.order = order;
        f.temp = true;
        if self.pc(self.p.size) {
            f.size = if self.bitty(70) { Size::Bits(1 + self.n(t.w)) } else { Size::Bytes(1 + self.n(t.w / 8)) };
        }
        if !supports(&f.ty, Sig { e, s: size_kind(&f.size, &[]), o, n: 0 }) {
            f.size = Size::None;
        }
        // the value is filled in once the whole body is known
        f.temp_value = Some(Ex::K(0));
        if !env.fixed && self.pc(8) {
            f.temp_value = None;
        }
        self.common(&mut f, prior, env);
        f
    }

    fn mapped(&mut self, endian: Option<Sw>, order: Option<Sw>, e: bool, o: bool, prior: &[Field], env: &Env) -> Option<Field> {
        let mut f;
        if self.pc(25) {
            let (t, s) = self.elem_prim(e, o)?;
            f = Field::new(FTy::Vec(Box::new(FTy::Prim(t))));
            f.size = s;
            f.limit = self.limit(prior, env, &f.ty.clone(), &f.size.clone(), false)?;
            f.map = Mp::Rev;
        } else {
            let (from, to) = (self.int(), self.int());
            f = Field::new(FTy::Prim(to));
            if self.pc(self.p.size) {
                let m = from.w.min(to.w);
                f.size = if self.bitty(70) { Size::Bits(1 + self.n(m)) } else { Size::Bytes(1 + self.n(m / 8)) };
            }
            if !supports(&f.ty, Sig { e, s: size_kind(&f.size, &[]), o, n: 0 }) {
                f.size = Size::None;
            }
            let refuse = if self.pc(40) { Some(self.n(7) as i64) } else { None };
            f.map = Mp::Num { from, k: self.n(100) as i64, refuse };
        }
        f.endian = endian;
        f.order = order;
        self.common(&mut f, prior, env);
        Some(f)
    }

    /// an element type of one primitive with a size that compiles
    fn elem_prim(&mut self, e: bool, o: bool) -> Option<(Ty, Size)> {
        let t = self.prim();
        let mut s = Size::None;
        // bytes are often read in bulk, unless they have a size of their own
        let usual = if t.w == 8 && self.p.size > 0 { self.p.size / 2 + 15 } else { self.p.size / 2 };
        if self.pc(usual) && t.kind != Kind::Float {
            s = if self.bitty(75) { Size::Bits(1 + self.n(t.w)) } else { Size::Bytes(1 + self.n(t.w / 8)) };
        }
        supports(&FTy::Prim(t), Sig { e, s: size_kind(&s, &[]), o, n: 0 }).then_some((t, s))
    }

    fn limit(&mut self, prior: &[Field], env: &Env, ty: &FTy, size: &Size, last: bool) -> Option<Limit> {
        let elem = match ty {
            FTy::Vec(t) | FTy::BxS(t) | FTy::ArcS(t) | FTy::Set(t) => (**t).clone(),
            FTy::Map(k, v) => FTy::Tuple(vec![(**k).clone(), (**v).clone()]),
            _ => return None,
        };
        let w = self.elem_bits(&elem, size);
        if w == 0 {
            return None;
        }
        if last && self.p.all >= 40 && self.pc(self.p.all) {
            return Some(Limit::All);
        }
        Some(match self.n(10) {
            0..=4 => Limit::Count(self.amount(prior, env, true, 5, false)),
            5 | 6 => {
                // a budget that is usually a whole number of elements
                let k = self.amount(prior, env, true, 4, false);
                let whole = self.pc(80);
                if w % 8 == 0 && (self.pc(60) || self.p.bytes) {
                    Limit::Bytes(if whole { Ex::bin(Op::Mul, k, Ex::K(w as i64 / 8)) } else { k })
                } else {
                    Limit::Bits(if whole { Ex::bin(Op::Mul, k, Ex::K(w as i64)) } else { k })
                }
            }
            7 | 8 => {
                let scalar = matches!(&elem, FTy::Prim(t) if t.kind != Kind::Float) || matches!(&elem, FTy::NonZero(_));
                let pair = matches!(&elem, FTy::Tuple(v) if matches!(&v[0], FTy::Prim(t) if t.kind != Kind::Float));
                if !(scalar || pair) {
                    return None;
                }
                let rel = self.pick(&[Rel::Eq, Rel::Ne, Rel::Lt, Rel::Le]);
                let refs = self.refs(prior);
                let ex = if self.pc(60) { Ex::K(self.n(4) as i64) } else { self.ex_of(refs, prior, env, true) };
                Limit::Until(rel, ex)
            }
            _ => {
                if !(last || self.pc(20)) || self.p.all == 0 || !self.pc(self.p.all * 5) {
                    return None;
                }
                Limit::All
            }
        })
    }
    /// a lower bound of the bits one element takes, exact for fixed layouts
    pub fn elem_bits(&self, t: &FTy, size: &Size) -> usize {
        min_bits(&self.defs, t, size)
    }

    /// Choose a type with size, limit and arguments for field `f`.
    fn shape(&mut self, f: &mut Field, e: bool, o: bool, prior: &[Field], env: &Env, last: bool) -> Option<FTy> {
        let p = self.p.clone();
        let deep = env.depth < p.depth;
        let w = [45, p.coll, p.wrap, p.leafy, if deep { p.def } else { 0 }];
        let t: u32 = w.iter().sum();
        let mut x = (self.raw() >> 5) as u32 % t;
        let mut k = 0;
        while x >= w[k] {
            x -= w[k];
            k += 1;
        }
        match k {
            0 => {
                let t = self.prim();
                self.sizes(f, t.w, t.kind, e, o, prior, env);
                let ty = FTy::Prim(t);
                let ty = if !env.fixed && self.pc(p.nonzero) && matches!(t.kind, Kind::Unsigned | Kind::Signed) { FTy::NonZero(t) } else { ty };
                supports(&ty, Sig { e, s: size_kind(&f.size, &env.ctx), o, n: 0 }).then_some(ty)
            }
            1 => {
                let elem = match self.n(10) {
                    0..=5 => {
                        let (t, s) = self.elem_prim(e, o)?;
                        f.size = s;
                        FTy::Prim(t)
                    }
                    6 => {
                        let (t, s) = self.elem_prim(e, o)?;
                        f.size = s;
                        let (t2, _) = self.elem_prim(e, o)?;
                        if t2.w < t.w {
                            f.size = Size::None;
                        }
                        FTy::Tuple(vec![FTy::Prim(t), FTy::Prim(t2)])
                    }
                    7 => {
                        let (t, s) = self.elem_prim(e, o)?;
                        f.size = s;
                        FTy::Array(Box::new(FTy::Prim(t)), 1 + self.n(3))
                    }
                    _ if deep => self.child(f, e, o, prior, env, true)?,
                    _ if p.nostd => return None,
                    _ => FTy::Ip4,
                };
                // deliberately read as no elements at all
                if zst(&self.defs, &elem) {
                    return None;
                }
                let hashable = matches!(&elem, FTy::Prim(t) if t.kind != Kind::Float);
                let ty = match self.n(10) {
                    0 => FTy::BxS(Box::new(elem)),
                    1 => FTy::ArcS(Box::new(elem)),
                    2 if hashable && !p.nostd => FTy::Set(Box::new(elem)),
                    3 if hashable && !p.nostd => {
                        let (t2, _) = self.elem_prim(e, o)?;
                        if let Size::Bits(n) = f.size {
                            if t2.w < n { f.size = Size::None }
                        }
                        if let Size::Bytes(n) = f.size {
                            if t2.w < n * 8 { f.size = Size::None }
                        }
                        FTy::Map(Box::new(elem), Box::new(FTy::Prim(t2)))
                    }
                    _ => FTy::Vec(Box::new(elem)),
                };
                let n = f.args.len();
                if !supports(&ty, Sig { e, s: size_kind(&f.size, &env.ctx), o, n }) {
                    return None;
                }
                f.limit = self.limit(prior, env, &ty, &f.size.clone(), last)?;
                Some(ty)
            }
            2 => {
                let inner = if !env.fixed && deep && self.pc(25) {
                    self.child(f, e, o, prior, env, env.elem)?
                } else {
                    let (t, s) = self.elem_prim(e, o)?;
                    f.size = s;
                    FTy::Prim(t)
                };
                let ty = match self.n(if env.fixed { 2 } else { 6 }) {
                    0 => FTy::Array(Box::new(inner), self.n(4)),
                    1 => {
                        let k = 1 + self.n(3);
                        let mut v = vec![inner];
                        for _ in 0..k {
                            let (t, _) = self.elem_prim(e, o)?;
                            v.push(FTy::Prim(t));
                        }
                        // a nested declaration expects the size it was made for
                        if matches!(v[0], FTy::Def(_)) && f.size != Size::None {
                            return None;
                        }
                        let m = v.iter().map(|t| if let FTy::Prim(t) = t { t.w } else { 0 }).min().unwrap();
                        match f.size {
                            Size::Bits(n) if n > m => f.size = Size::None,
                            Size::Bytes(n) if n * 8 > m => f.size = Size::None,
                            _ => {}
                        }
                        if !f.args.is_empty() {
                            return None;
                        }
                        FTy::Tuple(v)
                    }
                    _ if p.noalloc => FTy::Opt(Box::new(inner)),
                    2 => FTy::Bx(Box::new(inner)),
                    3 => FTy::Arc(Box::new(inner)),
                    4 => FTy::Opt(Box::new(inner)),
                    _ => FTy::Opt(Box::new(FTy::Bx(Box::new(inner)))),
                };
                supports(&ty, Sig { e, s: size_kind(&f.size, &env.ctx), o, n: f.args.len() }).then_some(ty)
            }
            3 => {
                let ty = self.pick(&[FTy::Ip4, FTy::Ip6, FTy::CStr, FTy::CStr, FTy::Unit]);
                let ty = match ty {
                    FTy::Ip4 | FTy::Ip6 if p.nostd => FTy::CStr,
                    ty => ty,
                };
                let ty = if p.noalloc { FTy::Unit } else { ty };
                if ty == FTy::CStr && self.pc(40) {
                    f.size = Size::Bytes(1 + self.n(5));
                }
                supports(&ty, Sig { e, s: size_kind(&f.size, &env.ctx), o, n: 0 }).then_some(ty)
            }
            _ => self.child(f, e, o, prior, env, env.elem),
        }
    }
    fn sizes(&mut self, f: &mut Field, w: usize, kind: Kind, e: bool, o: bool, prior: &[Field], env: &Env) {
        if kind == Kind::Float || !self.pc(self.p.size) {
            return;
        }
        let ps: Vec<usize> = env.ctx.iter().enumerate().filter(|(_, c)| matches!(c, CtxTy::Bits | CtxTy::Bytes)).map(|(i, _)| i).collect();
        if !ps.is_empty() && !o && self.pc(50) {
            f.size = Size::Param(self.pick(&ps));
            return;
        }
        if !env.fixed && self.pc(self.p.dynsize) {
            // not mentioning offsets: sizes are evaluated outside their reach
            let bits = self.bitty(70);
            let x = self.amount(prior, env, false, if bits { w as i64 } else { w as i64 / 8 }, true);
            let through = !o && self.pc(40);
            f.size = match (bits, through) {
                (true, false) => Size::BitsEx(x),
                (true, true) => Size::CtxBits(x),
                (false, false) => Size::BytesEx(x),
                (false, true) => Size::CtxBytes(x),
            };
            return;
        }
        let _ = e;
        f.size = if self.bitty(78) { Size::Bits(if self.pc(90) { 1 + self.n(w) } else { self.n(w + 1) }) } else { Size::Bytes(1 + self.n(w / 8)) };
    }
    /// a nested declaration taking exactly what field `f` hands down
    fn child(&mut self, f: &mut Field, e: bool, o: bool, prior: &[Field], env: &Env, elem: bool) -> Option<FTy> {
        let mut ctx = vec![];
        if e {
            ctx.push(CtxTy::Endian);
        }
        if !env.fixed && self.pc(self.p.args / 3) {
            if self.bitty(60) {
                f.size = Size::Bits(1 + self.n(12));
                ctx.push(CtxTy::Bits);
            } else {
                f.size = Size::Bytes(1 + self.n(2));
                ctx.push(CtxTy::Bytes);
            }
        }
        if o {
            ctx.push(CtxTy::Order);
        }
        if !env.fixed && self.pc(self.p.args) {
            for _ in 0..1 + self.n(2) {
                let x = self.ex(prior, env, true);
                f.args.push(x);
                ctx.push(CtxTy::Num);
            }
        }
        // context without arguments falls back on defaults
        let mut def = None;
        let mut own = ctx.clone();
        if ctx.is_empty() && !env.fixed && self.pc(self.p.ctx_root) {
            for _ in 0..1 + self.n(2) {
                let c = self.pick(&[CtxTy::Endian, CtxTy::Order, CtxTy::Num, CtxTy::Bits]);
                own.push(self.whole(c));
            }
            def = Some(own.iter().map(|c| self.ctx_val(*c)).collect());
        }
        let d = self.def(own, def, env.depth + 1, elem);
        Some(FTy::Def(d))
    }

    /// attributes any field may carry
    fn common(&mut self, f: &mut Field, prior: &[Field], env: &Env) {
        let p = self.p.clone();
        for i in 0..4 {
            if self.pc(p.pad / 2) && !(p.bytes && i % 2 == 0) {
                // paddings beyond the 64 bytes that the library handles at a time are rare
                let long = p.pad >= 20 && self.pc(8);
                let max = match (i % 2 == 0, long) {
                    (true, false) => 11,
                    (false, false) => 3,
                    (true, true) => 1300,
                    (false, true) => 160,
                };
                f.pad[i] = Some(if env.fixed { Ex::K(self.n(max as usize + 1) as i64) } else { self.amount(prior, env, false, max, true) });
                if !env.fixed && self.pc(3) {
                    f.pad[i] = Some(Ex::bin(Op::Sub, f.pad[i].clone().unwrap(), Ex::K(2)));
                }
            }
        }
        f.magic = self.magic();
        if !env.elem && !env.fixed && self.pc(p.seek) {
            f.seek = Some(self.seek(prior, env, false));
        }
        if env.fixed {
            if self.pc(6) && self.default_for(f, prior, env) {
                f.skip = Skip::All;
            } else {
                f.default = Def0::None;
            }
            return;
        }
        if self.pc(p.cond) {
            match self.n(8) {
                0 => f.skip = Skip::All,
                1 => f.skip = Skip::Read,
                2 => f.skip = Skip::Write,
                3 => {
                    f.skip = self.pick(&[Skip::All, Skip::Read, Skip::Write]);
                    f.cond = Some(self.cond(prior, env, true));
                }
                _ => f.cond = Some(self.cond(prior, env, true)),
            }
            let needs = f.skip != Skip::Write && (f.skip != Skip::No || f.cond.is_some());
            if needs && !self.default_for(f, prior, env) {
                f.skip = Skip::No;
                f.cond = None;
                f.default = Def0::None;
            }
        }
        let plain = matches!(f.ty, FTy::Prim(t) if t.kind != Kind::Float);
        if plain && self.pc(p.assert) {
            let t = if let FTy::Prim(t) = f.ty { t } else { unreachable!() };
            // an assertion sees the field itself
            let me = prior.len();
            let mut c = self.cond(prior, env, true);
            if self.pc(70) && f.skip != Skip::All && f.skip != Skip::Read {
                c = Cond::Rel(Rel::Ne, Ex::bin(Op::Mod, Ex::F(me), Ex::K(2 + self.n(5) as i64)), Ex::K(self.n(2) as i64));
            }
            if self.pc(30) && f.size == Size::None && f.skip == Skip::No && f.cond.is_none() {
                f.assert_eq = Some(if t.kind == Kind::Bool { self.n(2) as i128 } else { self.n(4) as i128 });
            } else {
                f.assert = Some(c);
            }
        }
    }
    fn default_for(&mut self, f: &mut Field, prior: &[Field], env: &Env) -> bool {
        let lit = |g: &mut G, t: Ty| -> i128 {
            match t.kind {
                Kind::Bool => g.n(2) as i128,
                _ => g.n(100) as i128,
            }
        };
        match f.ty.clone() {
            FTy::Prim(t) => {
                if !env.fixed && matches!(t.kind, Kind::Unsigned | Kind::Signed) && self.pc(25) {
                    let refs = self.refs(prior);
                    f.default = Def0::Ex(self.ex_of(refs, prior, env, true));
                } else if self.pc(60) {
                    let same: Vec<usize> = prior.iter().enumerate().filter(|(_, x)| x.ty == f.ty && x.skip == Skip::No && !x.temp).map(|(i, _)| i).collect();
                    f.default = if !same.is_empty() && self.pc(40) { Def0::Field(self.pick(&same)) } else { Def0::Int(lit(self, t)) };
                }
                true
            }
            FTy::NonZero(_) => {
                f.default = Def0::Int(1 + self.n(100) as i128);
                true
            }
            FTy::Vec(t) => {
                if let FTy::Prim(t) = *t {
                    if self.pc(60) {
                        f.default = Def0::Fill(self.n(3), lit(self, t));
                    }
                }
                true
            }
            FTy::Opt(t) => {
                if let FTy::Prim(t) = *t {
                    if self.pc(40) {
                        f.default = Def0::Some(lit(self, t));
                    }
                }
                true
            }
            FTy::Set(_) | FTy::Map(..) | FTy::Unit => true,
            FTy::Array(t, _) => matches!(*t, FTy::Prim(_)),
            FTy::Tuple(v) => v.iter().all(|t| matches!(t, FTy::Prim(_))),
            FTy::Bx(t) | FTy::Arc(t) => matches!(*t, FTy::Prim(_)),
            _ => false,
        }
    }

    /// attributes that look at the whole body: temporary values and updates
    fn finish(&mut self, fields: &mut Vec<Field>, env: &Env) {
        for i in 0..fields.len() {
            if fields[i].temp && fields[i].temp_value.is_some() {
                let t = if let FTy::Prim(t) = fields[i].ty { t } else { unreachable!() };
                // kept fields anywhere in the body
                let kept: Vec<usize> = self.refs(fields).into_iter().filter(|k| !fields[*k].temp && *k != i).collect();
                let lens: Vec<usize> = self.lens(fields).into_iter().filter(|k| *k > i).collect();
                // a count of a later vector, as in real formats
                let counted = fields.iter().position(|f| matches!(&f.limit, Limit::Count(e) if e.mentions(i)) && matches!(f.ty, FTy::Vec(_)));
                let bits = match fields[i].size {
                    Size::Bits(n) => n,
                    Size::Bytes(n) => n * 8,
                    _ => t.w,
                };
                let bits = if t.kind == Kind::Signed { bits - 1 } else { bits };
                let max = if bits >= 20 { 1 << 20 } else { 1i64 << bits };
                let fit = |e: Ex| if self_fits(&e, max) { e } else { Ex::bin(Op::Mod, e, Ex::K(max)) };
                let v = if let Some(c) = counted.filter(|_| self.pc(80)) {
                    fit(Ex::Len(c))
                } else if !lens.is_empty() && self.pc(50) {
                    fit(Ex::Len(self.pick(&lens)))
                } else if !kept.is_empty() && self.pc(70) {
                    let a = Ex::F(self.pick(&kept));
                    fit(if self.pc(50) { Ex::bin(Op::Add, a, Ex::K(1)) } else { a })
                } else {
                    Ex::K(self.n(max.min(50) as usize) as i64)
                };
                fields[i].temp_value = Some(match fields[i].assert_eq {
                    Some(x) if self.pc(60) => Ex::K(x as i64),
                    _ => v,
                });
            }
        }
        for i in 0..fields.len() {
            let ok = matches!(fields[i].ty, FTy::Prim(t) if matches!(t.kind, Kind::Unsigned | Kind::Signed)) && !fields[i].temp;
            if ok && self.pc(self.p.update) {
                let kept: Vec<usize> = self.refs(fields).into_iter().filter(|k| !fields[*k].temp).collect();
                let lens: Vec<usize> = self.lens(fields);
                let counted = fields.iter().position(|f| matches!(&f.limit, Limit::Count(Ex::F(k)) if *k == i) && matches!(f.ty, FTy::Vec(_)));
                let v = if let Some(c) = counted.filter(|_| self.pc(85)) {
                    Ex::Len(c)
                } else if !lens.is_empty() && self.pc(40) {
                    let l = Ex::Len(self.pick(&lens));
                    if self.pc(50) { Ex::bin(Op::Mul, l, Ex::K(1 + self.n(40) as i64)) } else { l }
                } else {
                    let a = if kept.is_empty() { Ex::K(7) } else { Ex::F(self.pick(&kept)) };
                    match self.n(4) {
                        0 => Ex::K(self.n(300) as i64),
                        1 => Ex::bin(Op::Sub, a, Ex::K(self.n(5) as i64)),
                        2 => Ex::bin(Op::Mul, a, Ex::K(1 + self.n(40) as i64)),
                        _ => a,
                    }
                };
                fields[i].update = Some(v);
            }
        }
        let _ = env;
    }

    fn enm(&mut self, env: &mut Env) -> Enum {
        let nums: Vec<usize> = env.ctx.iter().enumerate().filter(|(_, c)| **c == CtxTy::Num).map(|(i, _)| i).collect();
        let e = env.endian.is_some();
        let o = env.order.is_some();
        let id = if !nums.is_empty() && self.pc(55) {
            IdTy::Ctx(self.pick(&nums))
        } else if self.pc(8) {
            IdTy::Bytes(1 + self.n(3))
        } else if self.pc(5) {
            IdTy::Prim(TYPES[14])
        } else {
            IdTy::Prim(self.int())
        };
        let id_endian = if !matches!(id, IdTy::Ctx(_)) && self.pc(self.p.endian / 2) { Some(if self.pc(50) { Sw::On } else { Sw::Off }) } else { None };
        let e = e || id_endian.is_some();
        let mut size = Size::None;
        let mut width = match &id {
            IdTy::Prim(t) => t.w,
            _ => 64,
        };
        if let IdTy::Prim(t) = &id {
            if self.pc(self.p.size) {
                if self.bitty(75) {
                    // wide enough for a few variants
                    let n = (2 + self.n(t.w)).min(t.w);
                    size = Size::Bits(n);
                    width = n;
                } else {
                    let n = 1 + self.n(t.w / 8);
                    size = Size::Bytes(n);
                    width = n * 8;
                }
                if !supports(&FTy::Prim(*t), Sig { e, s: size_kind(&size, &[]), o, n: 0 }) {
                    size = Size::None;
                    width = t.w;
                }
            }
        }
        let signed = matches!(&id, IdTy::Prim(t) if t.kind == Kind::Signed) || matches!(id, IdTy::Ctx(_));
        let boolean = matches!(&id, IdTy::Prim(t) if t.kind == Kind::Bool);
        let nbytes = if let IdTy::Bytes(n) = id { n } else { 0 };
        // `repr(usize)` and `repr(isize)` are not supported
        let pointer = matches!(&id, IdTy::Prim(t) if t.name.ends_with("size"));
        let has_disc = !boolean && !pointer && nbytes == 0 && !matches!(id, IdTy::Ctx(_)) && self.pc(30);
        let mut used: Vec<i128> = vec![];
        let mut variants: Vec<Variant> = vec![];
        let k = 1 + self.n(4);
        let hi: i128 = if signed { (1i128 << (width - 1).min(20)) - 1 } else { (1i128 << width.min(20)) - 1 };
        let mut fresh = |g: &mut G, used: &mut Vec<i128>| -> Option<i128> {
            for _ in 0..20 {
                let v = if g.pc(75) { g.n(8) as i128 } else { g.n(300) as i128 };
                let v = if signed && g.pc(20) { -v } else { v };
                let v = if boolean { v & 1 } else { v };
                if v > hi || v < -hi || used.contains(&v) {
                    continue;
                }
                used.push(v);
                return Some(v);
            }
            None
        };
        let mut next_disc = 0i128;
        for i in 0..k {
            let want_disc = has_disc && self.pc(60);
            let (sel, unit) = if nbytes > 0 {
                let v: Vec<u8> = (0..nbytes).map(|_| self.pick(&[b'a', b'b', b'Z', 0])).collect();
                if variants.iter().any(|x| x.sel == Sel::IdBytes(v.clone())) {
                    continue;
                }
                (Sel::IdBytes(v), false)
            } else if want_disc {
                let explicit = i == 0 || self.pc(60);
                let v = if explicit {
                    match fresh(self, &mut used) {
                        Some(v) if v >= next_disc || signed => v,
                        _ => continue,
                    }
                } else {
                    next_disc
                };
                if !explicit && (used.contains(&v) || v > hi) {
                    continue;
                }
                if !explicit {
                    used.push(v);
                }
                (Sel::Disc(v, explicit), true)
            } else if self.pc(22) && !boolean {
                let a = self.n(8) as i128;
                let p = match self.n(3) {
                    0 => Pat::Range(a.min(hi), (a + self.n(5) as i128).min(hi)),
                    1 => Pat::Alt((0..1 + self.n(3)).map(|_| (self.n(12) as i128).min(hi)).collect()),
                    _ => {
                        let m = 2 + self.n(4) as i128;
                        Pat::Rem(m, self.n(m as usize) as i128)
                    }
                };
                (Sel::Pat(p), false)
            } else {
                match fresh(self, &mut used) {
                    Some(v) => (Sel::Id(v), false),
                    None => continue,
                }
            };
            // Rust gives every variant a discriminant; they have to differ
            if has_disc {
                match &sel {
                    Sel::Disc(v, true) => next_disc = v + 1,
                    _ => next_disc += 1,
                }
            }
            let v = self.variant(sel, unit, &id, env);
            variants.push(v);
        }
        let ctx_id = matches!(id, IdTy::Ctx(_));
        if variants.is_empty() || self.pc(35) && nbytes == 0 && !boolean && !has_disc {
            if boolean || nbytes > 0 || has_disc {
                let sel = if nbytes > 0 { Sel::IdBytes(vec![b'q'; nbytes]) } else { Sel::Id(0) };
                let v = self.variant(sel, false, &id, env);
                variants.push(v);
            } else {
                let v = self.variant(Sel::Pat(Pat::Any), false, &id, env);
                variants.push(v);
            }
        } else if self.pc(25) && variants.iter().all(|v| !v.stores) {
            let i = self.n(variants.len());
            if !matches!(variants[i].sel, Sel::Pat(_)) {
                variants[i].default = true;
            }
        }
        let has_disc = variants.iter().any(|v| matches!(v.sel, Sel::Disc(_, true)));
        // implied discriminants without an explicit one do not select
        if !has_disc {
            for (i, v) in variants.iter_mut().enumerate() {
                if let Sel::Disc(_, false) = v.sel {
                    v.sel = Sel::Id(200 + i as i128);
                }
            }
        }
        // discriminants have to be distinct over all variants of the Rust type
        if has_disc {
            let mut cur = -1i128;
            let mut seen = vec![];
            let mut ok = true;
            for v in variants.iter() {
                cur = match v.sel {
                    Sel::Disc(x, true) => x,
                    _ => cur + 1,
                };
                let top = match &id {
                    IdTy::Prim(t) if t.kind != Kind::Bool && t.w < 64 => (1i128 << (t.w - signed as usize)) - 1,
                    _ => i64::MAX as i128,
                };
                ok &= !seen.contains(&cur) && cur <= top;
                if let Sel::Disc(x, false) = v.sel {
                    ok &= x == cur;
                }
                seen.push(cur);
            }
            if !ok {
                for (i, v) in variants.iter_mut().enumerate() {
                    if let Sel::Disc(..) = v.sel {
                        v.sel = Sel::Id(i as i128 + if hi > 300 { 200 } else { 0 });
                    }
                }
                // identifiers may now coincide: the first declared wins
            }
        }
        let has_disc = variants.iter().any(|v| matches!(v.sel, Sel::Disc(_, true)));
        if !ctx_id {
            // values that do not fit the identifier cannot be spelt
            for v in variants.iter_mut() {
                if let Sel::Id(x) = &mut v.sel {
                    if let IdTy::Prim(t) = &id {
                        let m = if t.kind == Kind::Bool { 1 } else if signed { (1i128 << (t.w - 1).min(100)) - 1 } else { (1i128 << t.w.min(100)) - 1 };
                        *x = (*x).min(m);
                    }
                }
            }
        }
        let mut id2 = None;
        if ctx_id && self.pc(35) {
            id2 = Some(self.pick(&nums));
            for i in 0..variants.len() {
                let literal = matches!(variants[i].sel, Sel::Id(_));
                if literal || self.pc(50) {
                    variants[i].second = Some(self.n(3) as i64 - 1 + self.n(2) as i64);
                }
                // told apart by the second identifier only
                if i > 0 && literal && self.pc(50) {
                    if let Sel::Id(x) = variants[i - 1].sel {
                        variants[i].sel = Sel::Id(x);
                    }
                }
            }
        }
        Enum { id, id2, id_endian, size, variants, has_disc }
    }
    fn variant(&mut self, sel: Sel, unit: bool, id: &IdTy, env: &Env) -> Variant {
        let mut fields = vec![];
        let stores = matches!(sel, Sel::Pat(_)) && !matches!(id, IdTy::Ctx(_));
        if stores {
            let t = match id {
                IdTy::Prim(t) => FTy::Prim(*t),
                IdTy::Bytes(n) => FTy::Array(Box::new(FTy::Prim(TYPES[0])), *n),
                IdTy::Ctx(_) => unreachable!(),
            };
            fields.push(Field::new(t));
        }
        let (mut reader, mut writer) = (None, None);
        if !unit && !stores && !env.fixed && !env.elem && self.pc(self.p.custom) {
            fields.push(Field::new(FTy::Prim(TYPES[2])));
            let kind = self.n(4);
            let mut conv = |g: &mut Self| {
                let k = g.ex_of(vec![], &[], env, false);
                if g.pc(50) { Custom::A(k) } else { Custom::B(k) }
            };
            let r = conv(self);
            // mostly conversions that belong together
            let w = if self.pc(70) { r.clone() } else { conv(self) };
            reader = (kind != 0).then_some(r);
            writer = (kind != 1).then_some(w);
        } else if !unit {
            let n = self.n(self.p.fields.min(4));
            for i in 0..n {
                let f = self.field(&fields, env, i + 1 == n);
                fields.push(f);
            }
            self.finish(&mut fields, env);
            if stores {
                fields[0].update = None;
            }
        }
        let named = self.pc(65);
        Variant { sel, default: false, named, fields, stores, reader, writer, second: None, spell: self.n(3) }
    }
}
fn self_fits(e: &Ex, max: i64) -> bool {
    matches!(e, Ex::Len(_)) && max >= 256 || matches!(e, Ex::K(k) if *k < max)
}
/// 0 none, 1 bits, 2 bytes
pub fn size_kind(s: &Size, ctx: &[CtxTy]) -> u8 {
    match s {
        Size::None => 0,
        Size::Bits(_) | Size::BitsEx(_) | Size::CtxBits(_) => 1,
        Size::Bytes(_) | Size::BytesEx(_) | Size::CtxBytes(_) => 2,
        Size::Param(i) => {
            if ctx.get(*i) == Some(&CtxTy::Bytes) {
                2
            } else {
                1
            }
        }
    }
}
/// A lower bound of the bits a value takes on the wire (exact for plain fixed layouts).
pub fn min_bits(defs: &[Def], t: &FTy, size: &Size) -> usize {
    let leaf = |w: usize| match size {
        Size::None => w,
        Size::Bits(n) => *n,
        Size::Bytes(n) => n * 8,
        _ => 0,
    };
    match t {
        FTy::Prim(t) | FTy::NonZero(t) => leaf(t.w),
        FTy::Ip4 => 32,
        FTy::Ip6 => 128,
        FTy::CStr => match size {
            Size::Bytes(n) => n * 8,
            _ => 8,
        },
        FTy::Unit => 0,
        FTy::Array(t, n) => n * min_bits(defs, t, size),
        FTy::Tuple(v) => v.iter().map(|t| min_bits(defs, t, size)).sum(),
        FTy::Opt(t) | FTy::Bx(t) | FTy::Arc(t) => min_bits(defs, t, size),
        FTy::Vec(_) | FTy::BxS(_) | FTy::ArcS(_) | FTy::Set(_) | FTy::Map(..) => 0,
        FTy::Def(d) => {
            let d = &defs[*d];
            let body = |fs: &Vec<Field>, from: usize| -> usize {
                fs.iter()
                    .skip(from)
                    .map(|f| {
                        let p: usize = [1usize, 8, 1, 8].iter().zip(&f.pad).map(|(m, e)| if let Some(Ex::K(k)) = e { m * (*k).max(0) as usize } else { 0 }).sum();
                        let m = f.magic.as_ref().map_or(0, |m| m.len() * 8);
                        let own = if f.skip != Skip::No || f.cond.is_some() {
                            0
                        } else if let Some(c) = &f.reader {
                            if matches!(c, Custom::A(_)) { 8 } else { 3 }
                        } else if let Mp::Num { from, .. } = &f.map {
                            min_bits(defs, &FTy::Prim(*from), &f.size)
                        } else if f.limit == Limit::None {
                            min_bits(defs, &f.ty, &f.size)
                        } else {
                            0
                        };
                        p + m + own
                    })
                    .sum()
            };
            let m = d.magic.as_ref().map_or(0, |m| m.len() * 8);
            m + match &d.body {
                Body::Struct { fields, .. } => body(fields, 0),
                Body::Enum(e) => {
                    let idb = match &e.id {
                        IdTy::Prim(t) => min_bits(defs, &FTy::Prim(*t), &e.size),
                        IdTy::Bytes(n) => n * 8,
                        IdTy::Ctx(_) => 0,
                    };
                    idb + e.variants.iter().map(|v| body(&v.fields, v.stores as usize)).min().unwrap_or(0)
                }
            }
        }
    }
}

/// Types without any size in memory.
pub fn zst(defs: &[Def], t: &FTy) -> bool {
    let body = |fs: &Vec<Field>| fs.iter().all(|f| f.temp || zst(defs, &f.ty));
    match t {
        FTy::Unit => true,
        FTy::Array(t, n) => *n == 0 || zst(defs, t),
        FTy::Tuple(v) => v.iter().all(|t| zst(defs, t)),
        FTy::Def(d) => match &defs[*d].body {
            Body::Struct { fields, .. } => body(fields),
            Body::Enum(e) => e.variants.len() == 1 && !e.has_disc && body(&e.variants[0].fields),
        },
        _ => false,
    }
}
