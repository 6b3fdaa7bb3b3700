//! Rust source of a declaration.
use crate::codec::{Kind, Ty};
use crate::schema::*;

/// How the fields of the body can be named at a place.
#[derive(Clone, Copy, PartialEq)]
enum At {
    /// as references bound to their names
    Bound,
    /// through `self`
    Own,
}
struct Ctx<'a> {
    named: bool,
    fields: &'a [Field],
    at: At,
}
fn tyname(t: &FTy, s: &Schema) -> String {
    match t {
        FTy::Prim(t) => t.name.into(),
        FTy::NonZero(t) => {
            let n = t.name;
            let cap = n[..1].to_uppercase() + &n[1..];
            format!("core::num::NonZero{cap}")
        }
        FTy::Ip4 => "std::net::Ipv4Addr".into(),
        FTy::Ip6 => "std::net::Ipv6Addr".into(),
        FTy::CStr => "std::ffi::CString".into(),
        FTy::Unit => "()".into(),
        FTy::Array(t, n) => format!("[{}; {n}]", tyname(t, s)),
        FTy::Tuple(v) => format!("({},)", v.iter().map(|t| tyname(t, s)).collect::<Vec<_>>().join(", ")),
        FTy::Opt(t) => format!("Option<{}>", tyname(t, s)),
        FTy::Bx(t) => format!("Box<{}>", tyname(t, s)),
        FTy::Arc(t) => format!("std::sync::Arc<{}>", tyname(t, s)),
        FTy::Vec(t) => format!("Vec<{}>", tyname(t, s)),
        FTy::BxS(t) => format!("Box<[{}]>", tyname(t, s)),
        FTy::ArcS(t) => format!("std::sync::Arc<[{}]>", tyname(t, s)),
        FTy::Set(t) => format!("std::collections::HashSet<{}, vh::val::Det>", tyname(t, s)),
        FTy::Map(k, v) => format!("std::collections::HashMap<{}, {}, vh::val::Det>", tyname(k, s), tyname(v, s)),
        FTy::Def(d) => s.defs[*d].name.clone(),
    }
}
fn bound(named: bool, i: usize) -> String {
    if named { format!("f{i}") } else { format!("field_{i}") }
}
impl Ctx<'_> {
    fn place(&self, i: usize) -> String {
        match self.at {
            At::Bound => bound(self.named, i),
            At::Own if self.named => format!("self.f{i}"),
            // temporary fields are gone from the type
            At::Own => format!("self.{}", self.fields[..i].iter().filter(|f| !f.temp).count()),
        }
    }
    fn ex(&self, e: &Ex) -> String {
        match e {
            Ex::K(k) => format!("({k}i64)"),
            Ex::F(i) => {
                let p = self.place(*i);
                match (&self.fields[*i].ty, self.at) {
                    (FTy::NonZero(_), _) => format!("({p}.get() as i64)"),
                    (_, At::Bound) => format!("(*{p} as i64)"),
                    (_, At::Own) => format!("({p} as i64)"),
                }
            }
            Ex::Len(i) => format!("({}.len() as i64)", self.place(*i)),
            Ex::C(i) => format!("(c{i} as i64)"),
            Ex::BitOff => "(deku::bit_offset as i64)".into(),
            Ex::ByteOff => "(deku::byte_offset as i64)".into(),
            Ex::Bin(op, a, b) => {
                let (a, b) = (self.ex(a), self.ex(b));
                match op {
                    Op::Add => format!("{a}.wrapping_add({b})"),
                    Op::Sub => format!("{a}.wrapping_sub({b})"),
                    Op::Mul => format!("{a}.wrapping_mul({b})"),
                    Op::Mod => format!("{a}.wrapping_rem_euclid({b})"),
                    Op::And => format!("({a} & {b})"),
                    Op::Xor => format!("({a} ^ {b})"),
                }
            }
        }
    }
    fn cond(&self, c: &Cond) -> String {
        match c {
            Cond::Rel(r, a, b) => format!("({}) {} ({})", self.ex(a), rel(*r), self.ex(b)),
            Cond::Not(a) => format!("!({})", self.cond(a)),
            Cond::And(a, b) => format!("({}) && ({})", self.cond(a), self.cond(b)),
            Cond::Or(a, b) => format!("({}) || ({})", self.cond(a), self.cond(b)),
        }
    }
}
/// Parentheses around all of it are left out in some places: an attribute is a whole whatever its operators.
fn loose(e: String) -> String {
    let mut deep = 0;
    let whole = e.char_indices().all(|(i, c)| {
        deep += (c == '(') as i32 - (c == ')') as i32;
        deep > 0 || i + 1 == e.len()
    });
    if whole && e.starts_with('(') && coin(&e) { e[1..e.len() - 1].into() } else { e }
}
/// A choice that depends on the text alone.
fn coin(e: &str) -> bool {
    e.bytes().fold(0x811c9dc5u32, |h, b| (h ^ b as u32).wrapping_mul(0x01000193)) >> 16 & 1 == 1
}
/// An amount: a field or parameter as it is, or an expression.
fn amount(e: &Ex, c: &Ctx, borrowed: bool) -> String {
    let full = c.ex(e);
    let narrow = |t: &Ty| match t.kind {
        Kind::Unsigned => t.w <= 32,
        Kind::Signed => t.w <= 64,
        _ => false,
    };
    match e {
        Ex::F(i) if matches!(&c.fields[*i].ty, FTy::Prim(t) if narrow(t)) && coin(&format!("{full}!")) => {
            let p = c.place(*i);
            if borrowed && coin(&format!("{full}?")) { p } else { format!("*{p}") }
        }
        Ex::C(i) if coin(&format!("{full}!")) => format!("c{i}"),
        Ex::Len(i) if coin(&format!("{full}!")) => format!("{}.len()", c.place(*i)),
        // the same number, with an operator that binds loosely
        _ if coin(&format!("{full}.")) => format!("{full} | 0i64"),
        _ => loose(full),
    }
}
fn rel(r: Rel) -> &'static str {
    match r {
        Rel::Eq => "==",
        Rel::Ne => "!=",
        Rel::Lt => "<",
        Rel::Le => "<=",
    }
}
fn lit(t: Ty, v: i128) -> String {
    match t.kind {
        Kind::Bool => (if v != 0 { "true" } else { "false" }).into(),
        _ => format!("{v}i128 as {}", t.name),
    }
}
fn bytes_lit(b: &[u8]) -> String {
    let mut r = String::from("b\"");
    for x in b {
        match x {
            b'"' => r.push_str("\\\""),
            b'\\' => r.push_str("\\\\"),
            0x20..=0x7e => r.push(*x as char),
            _ => r.push_str(&format!("\\x{x:02x}")),
        }
    }
    r.push('"');
    r
}
/// attribute text containing quotes
fn q(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}
fn sw(s: Sw, endian: bool) -> String {
    match (s, endian) {
        (Sw::On, true) => "big".into(),
        (Sw::Off, true) => "little".into(),
        (Sw::On, false) => "lsb".into(),
        (Sw::Off, false) => "msb".into(),
        (Sw::Ctx(i), _) => format!("c{i}"),
    }
}
fn seek(s: &SeekTo, c: &Ctx) -> String {
    match s {
        SeekTo::Rewind => "seek_rewind".into(),
        SeekTo::Current(e) => format!("seek_from_current = {}", q(&amount(e, c, false))),
        SeekTo::Start(e) => format!("seek_from_start = {}", q(&amount(e, c, false))),
        SeekTo::End(e) => format!("seek_from_end = {}", q(&amount(e, c, false))),
    }
}
fn size(z: &Size, c: &Ctx) -> Option<String> {
    Some(match z {
        Size::None | Size::Param(_) | Size::CtxBits(_) | Size::CtxBytes(_) => return None,
        Size::Bits(n) => format!("bits = {n}"),
        Size::Bytes(n) => format!("bytes = {n}"),
        Size::BitsEx(e) => format!("bits = {}", q(&format!("({}) as usize", c.ex(e)))),
        Size::BytesEx(e) => format!("bytes = {}", q(&format!("({}) as usize", c.ex(e)))),
    })
}

fn field_attrs(i: usize, f: &Field, c: &Ctx, own: &Ctx, s: &Schema) -> Vec<String> {
    let mut a = vec![];
    if let Some(e) = f.endian {
        a.push(format!("endian = {}", q(&sw(e, true))));
    }
    if let Some(e) = f.order {
        a.push(format!("bit_order = {}", q(&sw(e, false))));
    }
    if let Some(x) = size(&f.size, c) {
        a.push(x);
    }
    let mut args = vec![];
    match &f.size {
        Size::Param(i) => args.push(format!("c{i}")),
        Size::CtxBits(e) => args.push(format!("deku::ctx::BitSize(({}) as usize)", c.ex(e))),
        Size::CtxBytes(e) => args.push(format!("deku::ctx::ByteSize(({}) as usize)", c.ex(e))),
        _ => {}
    }
    args.extend(f.args.iter().map(|e| loose(c.ex(e))));
    if !args.is_empty() {
        a.push(format!("ctx = {}", q(&args.join(", "))));
    }
    match &f.limit {
        Limit::None => {}
        Limit::Count(e) => a.push(format!("count = {}", q(&amount(e, c, true)))),
        Limit::Bits(e) => a.push(format!("bits_read = {}", q(&amount(e, c, true)))),
        Limit::Bytes(e) => a.push(format!("bytes_read = {}", q(&amount(e, c, true)))),
        Limit::All => a.push("read_all".into()),
        Limit::Until(r, e) => {
            let (ty, v) = match &f.ty {
                FTy::Vec(t) | FTy::BxS(t) | FTy::ArcS(t) | FTy::Set(t) => match &**t {
                    FTy::Tuple(_) => (tyname(t, s), "v.0"),
                    FTy::NonZero(_) => (tyname(t, s), "v.get()"),
                    _ => (tyname(t, s), "*v"),
                },
                FTy::Map(k, x) => (format!("({}, {})", tyname(k, s), tyname(x, s)), "v.0"),
                _ => unreachable!(),
            };
            a.push(format!("until = {}", q(&format!("|v: &{ty}| ({v} as i64) {} ({})", rel(*r), c.ex(e)))));
        }
    }
    for (k, n) in ["pad_bits_before", "pad_bytes_before", "pad_bits_after", "pad_bytes_after"].iter().enumerate() {
        if let Some(e) = &f.pad[k] {
            let e = match e {
                // a static size takes it as it stands
                Ex::K(k) if s.family == "P19" => match k % 4 {
                    1 => format!("{} + 1", k - 1),
                    2 => format!("{} | 2", k & !2),
                    3 => format!("{} ^ 1", k ^ 1),
                    _ => k.to_string(),
                },
                e => amount(e, c, false),
            };
            a.push(format!("{n} = {}", q(&e)));
        }
    }
    if let Some(m) = &f.magic {
        a.push(format!("magic = {}", bytes_lit(m)));
    }
    if let Some(x) = &f.seek {
        a.push(seek(x, c));
    }
    match f.skip {
        Skip::No => {}
        Skip::All => a.push("skip".into()),
        Skip::Read => a.push("skip(read)".into()),
        Skip::Write => a.push("skip(write)".into()),
    }
    if let Some(x) = &f.cond {
        a.push(format!("cond = {}", q(&c.cond(x))));
    }
    let prim = |t: &FTy| match t {
        FTy::Prim(t) => *t,
        _ => unreachable!(),
    };
    match &f.default {
        Def0::None => {}
        Def0::Int(v) => match &f.ty {
            FTy::NonZero(t) => a.push(format!("default = {}", q(&format!("<{}>::new({v} as {}).unwrap()", tyname(&f.ty, s), t.name)))),
            t => a.push(format!("default = {}", q(&lit(prim(t), *v)))),
        },
        Def0::Field(i) => a.push(format!("default = {}", q(&format!("*{}", c.place(*i))))),
        Def0::Ex(e) => a.push(format!("default = {}", q(&format!("({}) as {}", c.ex(e), tyname(&f.ty, s))))),
        Def0::Fill(n, v) => {
            if let FTy::Vec(t) = &f.ty {
                a.push(format!("default = {}", q(&format!("vec![{}; {n}]", lit(prim(t), *v)))));
            }
        }
        Def0::Some(v) => {
            if let FTy::Opt(t) = &f.ty {
                a.push(format!("default = {}", q(&format!("Some({})", lit(prim(t), *v)))));
            }
        }
    }
    match &f.map {
        Mp::None => {}
        Mp::Num { from, k, refuse } => {
            let to = tyname(&f.ty, s);
            let guard = match refuse {
                Some(m) => format!("if (v as i64).rem_euclid(7) == {m} {{ return Err(vh::custom::refused()); }} "),
                None => String::new(),
            };
            a.push(format!("map = {}", q(&format!("|v: {}| -> Result<{to}, deku::DekuError> {{ {guard}Ok(((v as i64) ^ {k}) as {to}) }}", from.name))));
        }
        Mp::Rev => {
            let t = tyname(&f.ty, s);
            a.push(format!("map = {}", q(&format!("|mut v: {t}| -> Result<{t}, deku::DekuError> {{ v.reverse(); Ok(v) }}"))));
        }
    }
    if let Some(x) = &f.assert {
        a.push(format!("assert = {}", q(&c.cond(x))));
    }
    if let Some(v) = f.assert_eq {
        a.push(format!("assert_eq = {}", q(&lit(prim(&f.ty), v))));
    }
    if let Some(e) = &f.update {
        a.push(format!("update = {}", q(&loose(own.ex(e)))));
    }
    if f.temp {
        a.push("temp".into());
    }
    if let Some(e) = &f.temp_value {
        a.push(format!("temp_value = {}", q(&format!("({}) as {}", c.ex(e), tyname(&f.ty, s)))));
    }
    if let Some(x) = &f.reader {
        a.push(format!("reader = {}", q(&conversion(x, "rd", "", c, "deku::bit_offset"))));
    }
    if let Some(x) = &f.writer {
        a.push(format!("writer = {}", q(&conversion(x, "wr", &format!("{}, ", bound(c.named, i)), c, "deku::bit_offset"))));
    }
    a
}
fn conversion(x: &Custom, rw: &str, v: &str, c: &Ctx, off: &str) -> String {
    let (n, k) = match x {
        Custom::A(k) => ("a", k),
        Custom::B(k) => ("b", k),
    };
    let st = if rw == "rd" { "reader" } else { "writer" };
    format!("vh::custom::{rw}_{n}(deku::{st}, {v}{}, {off})", c.ex(k))
}
fn attr(a: &[String]) -> String {
    if a.is_empty() { String::new() } else { format!("#[deku({})] ", a.join(", ")) }
}
/// What a declaration is changed to, as text.
#[derive(Clone, Debug, Default)]
pub struct Edit {
    /// attributes of the type: added, and taken away by their beginning
    pub top: Vec<String>,
    pub untop: Option<String>,
    /// body and field whose attributes are added to
    pub field: Option<(usize, usize, Vec<String>)>,
    pub variant: Option<(usize, Vec<String>)>,
    pub unvariant: Option<(usize, String)>,
    /// added attributes stand on their own
    pub apart: bool,
    /// without the helper for temporary fields
    pub plain: bool,
    pub derives: Option<String>,
    pub repr: Option<String>,
}
impl Edit {
    fn text(&self, a: &[String], more: Option<&Vec<String>>) -> String {
        match more {
            None => attr(a),
            Some(m) if self.apart => format!("{}{}", attr(a), attr(m)),
            Some(m) => attr(&[a, m].concat()),
        }
    }
}
/// the attributes of a field, as text
pub fn attrs_of(s: &Schema, d: &Def, body: usize, i: usize) -> Vec<String> {
    let (fs, named) = match &d.body {
        Body::Struct { fields, named } => (fields, *named),
        Body::Enum(e) => (&e.variants[body].fields, e.variants[body].named),
    };
    let c = Ctx { named, fields: fs, at: At::Bound };
    let own = Ctx { named, fields: fs, at: if d.is_enum() { At::Bound } else { At::Own } };
    field_attrs(i, &fs[i], &c, &own, s)
}
fn body(fs: &[Field], named: bool, en: bool, s: &Schema, e: &Edit, k: usize) -> String {
    let c = Ctx { named, fields: fs, at: At::Bound };
    let own = Ctx { named, fields: fs, at: if en { At::Bound } else { At::Own } };
    let vis = if en { "" } else { "pub " };
    let v: Vec<String> = fs
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let more = e.field.as_ref().and_then(|(b, x, m)| (*b == k && *x == i).then_some(m));
            let a = e.text(&field_attrs(i, f, &c, &own, s), more);
            let t = tyname(&f.ty, s);
            if named { format!("    {a}{vis}f{i}: {t},") } else { format!("    {a}{vis}{t},") }
        })
        .collect();
    let x = v.join("\n");
    if named { format!("{{\n{x}\n}}") } else { format!("(\n{x}\n)") }
}
pub fn ctx_ty(c: CtxTy) -> &'static str {
    match c {
        CtxTy::Endian => "deku::ctx::Endian",
        CtxTy::Bits => "deku::ctx::BitSize",
        CtxTy::Bytes => "deku::ctx::ByteSize",
        CtxTy::Order => "deku::ctx::Order",
        CtxTy::Num => "i64",
    }
}
fn ctx_val(c: &CtxVal) -> String {
    match c {
        CtxVal::Big(b) => format!("deku::ctx::Endian::{}", if *b { "Big" } else { "Little" }),
        CtxVal::Bits(n) => format!("deku::ctx::BitSize({n})"),
        CtxVal::Bytes(n) => format!("deku::ctx::ByteSize({n})"),
        CtxVal::Lsb(b) => format!("deku::ctx::Order::{}", if *b { "Lsb0" } else { "Msb0" }),
        CtxVal::Num(n) => format!("{n}i64"),
    }
}
fn id_spelling(v: i128, spell: usize, id: &IdTy) -> String {
    if let IdTy::Prim(t) = id {
        if t.kind == Kind::Bool {
            let b = v != 0;
            return if spell == 0 { format!("{b}") } else { format!("\"{b}\"") };
        }
    }
    match spell {
        0 if v >= 0 => format!("{v}"),
        2 if v >= 0 => format!("0x{v:x}"),
        _ => format!("\"{v}\""),
    }
}
/// A pattern of the first identifier and, where there are two, of both.
fn second(e: &Enum, v: &Variant, p: String) -> String {
    if e.id2.is_none() {
        return p;
    }
    let s = v.second.map_or("_".into(), |x| x.to_string());
    match p.split_once(" if ") {
        Some((p, guard)) => format!("({p}, {s}) if {guard}"),
        None => format!("({p}, {s})"),
    }
}
/// The declaration alone.
pub fn decl(s: &Schema, d: &Def) -> String {
    decl_edit(s, d, &Edit::default())
}
pub fn decl_edit(s: &Schema, d: &Def, edit: &Edit) -> String {
    let mut o = String::new();
    let mut a = vec![];
    if let Some(e) = d.endian {
        a.push(format!("endian = {}", q(&sw(e, true))));
    }
    if let Some(e) = d.order {
        a.push(format!("bit_order = {}", q(&sw(e, false))));
    }
    if let Some(m) = &d.magic {
        a.push(format!("magic = {}", bytes_lit(m)));
    }
    let none = Ctx { named: true, fields: &[], at: At::Bound };
    if let Some(x) = &d.seek {
        a.push(seek(x, &none));
    }
    if !d.ctx.is_empty() {
        let v: Vec<String> = d.ctx.iter().enumerate().map(|(i, c)| format!("c{i}: {}", ctx_ty(*c))).collect();
        a.push(format!("ctx = {}", q(&v.join(", "))));
    }
    if let Some(v) = &d.ctx_default {
        a.push(format!("ctx_default = {}", q(&v.iter().map(ctx_val).collect::<Vec<_>>().join(", "))));
    }
    let derives = edit.derives.as_deref().unwrap_or("DekuRead, DekuWrite");
    let top = |a: &mut Vec<String>| {
        a.retain(|x| !edit.untop.as_ref().is_some_and(|u| x.starts_with(u)));
        edit.text(a, (!edit.top.is_empty()).then_some(&edit.top))
    };
    if d.has_temp() && !edit.plain {
        // above `deku_derive`, which removes the attributes
        if d.sized {
            o += "#[derive(DekuSize)]\n";
        }
        o += &format!("#[deku_derive({derives})]\n#[derive(Clone, Debug, PartialEq)]\n");
    } else {
        let z = if d.sized { ", DekuSize" } else { "" };
        o += &format!("#[derive({derives}{z}, Clone, Debug, PartialEq)]\n");
    }
    match &d.body {
        Body::Struct { fields, named } => {
            o += &top(&mut a);
            let b = body(fields, *named, false, s, edit, 0);
            o += &format!("pub struct {} {b}{}\n", d.name, if *named { "" } else { ";" });
        }
        Body::Enum(e) => {
            match &e.id {
                IdTy::Prim(t) => a.push(format!("id_type = \"{}\"", t.name)),
                IdTy::Bytes(n) => a.push(format!("id_type = \"[u8; {n}]\"")),
                IdTy::Ctx(i) => a.push(match e.id2 {
                    Some(j) => format!("id = \"c{i}, c{j}\""),
                    None => format!("id = \"c{i}\""),
                }),
            }
            if let Some(x) = e.id_endian {
                a.push(format!("id_endian = {}", q(&sw(x, true))));
            }
            if let Some(x) = size(&e.size, &none) {
                a.push(x);
            }
            o += &top(&mut a);
            if e.has_disc {
                if let IdTy::Prim(t) = &e.id {
                    match edit.repr.as_deref() {
                        None => o += &format!("#[repr({})]\n", t.name),
                        Some("") => {}
                        Some(r) => o += &format!("#[repr({r})]\n"),
                    }
                }
            }
            o += &format!("pub enum {} {{\n", d.name);
            for (i, v) in e.variants.iter().enumerate() {
                let mut a = vec![];
                match &v.sel {
                    Sel::Id(x) if e.id2.is_some() => a.push(format!("id = \"({x}, {})\"", v.second.unwrap())),
                    Sel::Id(x) => a.push(format!("id = {}", id_spelling(*x, v.spell, &e.id))),
                    Sel::IdBytes(b) => a.push(format!("id = {}", bytes_lit(b))),
                    Sel::Pat(p) => a.push(format!(
                        "id_pat = {}",
                        q(&second(e, v, match p {
                            Pat::Any => "_".into(),
                            Pat::Range(x, y) => format!("{x}..={y}"),
                            Pat::Alt(v) => v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" | "),
                            Pat::Rem(m, r) => format!("v if (*v as i128).rem_euclid({m}) == {r}"),
                        }))
                    )),
                    Sel::Disc(..) => {}
                }
                if v.default {
                    a.push("default".into());
                }
                if let Some(x) = &v.reader {
                    let make = if v.named { "{ f0: v }" } else { "(v)" };
                    a.push(format!("reader = {}", q(&format!("{}.map(|v| Self::V{i} {make})", conversion(x, "rd", "", &none, "0")))));
                }
                if let Some(x) = &v.writer {
                    a.push(format!("writer = {}", q(&conversion(x, "wr", &format!("{}, ", bound(v.named, 0)), &none, "0"))));
                }
                if let Some((_, u)) = edit.unvariant.as_ref().filter(|u| u.0 == i) {
                    a.retain(|x| !x.starts_with(u));
                }
                let more = edit.variant.as_ref().and_then(|(k, m)| (*k == i).then_some(m));
                let b = if v.fields.is_empty() { String::new() } else { body(&v.fields, v.named, true, s, edit, i) };
                let disc = match v.sel {
                    Sel::Disc(x, true) => format!(" = {x}"),
                    _ => String::new(),
                };
                o += &format!("{}V{i}{b}{disc},\n", edit.text(&a, more));
            }
            o += "}\n";
        }
    }
    o
}
/// The declaration with everything it mentions.
pub fn decl_all(s: &Schema, d: usize) -> String {
    closure(s, d).iter().map(|d| decl(s, &s.defs[*d])).collect::<Vec<_>>().join("")
}
/// the declaration and what it mentions, those first
pub fn closure(s: &Schema, d: usize) -> Vec<usize> {
    let mut seen = vec![];
    fn visit(s: &Schema, d: usize, seen: &mut Vec<usize>) {
        if seen.contains(&d) {
            return;
        }
        fn ty(s: &Schema, t: &FTy, seen: &mut Vec<usize>) {
            match t {
                FTy::Def(d) => visit(s, *d, seen),
                FTy::Array(t, _) | FTy::Opt(t) | FTy::Bx(t) | FTy::Arc(t) | FTy::Vec(t) | FTy::BxS(t) | FTy::ArcS(t) | FTy::Set(t) => ty(s, t, seen),
                FTy::Map(k, v) => {
                    ty(s, k, seen);
                    ty(s, v, seen)
                }
                FTy::Tuple(v) => v.iter().for_each(|t| ty(s, t, seen)),
                _ => {}
            }
        }
        for b in s.defs[d].bodies() {
            b.iter().for_each(|f| ty(s, &f.ty, seen));
        }
        seen.push(d);
    }
    visit(s, d, &mut seen);
    seen
}
/// Conversion to and from the checks' values.
fn gen_impl(d: &Def) -> String {
    let n = &d.name;
    let kept = |fs: &[Field]| -> Vec<usize> { (0..fs.len()).filter(|i| !fs[*i].temp).collect() };
    match &d.body {
        Body::Struct { fields, named } => {
            let k = kept(fields);
            let names: Vec<String> = k.iter().enumerate().map(|(p, i)| if *named { format!("f{i}") } else { format!("{p}") }).collect();
            let to = names.iter().map(|f| format!("Gen::to_val(&self.{f})")).collect::<Vec<_>>().join(", ");
            let from = names.iter().enumerate().map(|(p, f)| format!("{f}: Gen::from_val(&x[{p}])")).collect::<Vec<_>>().join(", ");
            format!("impl Gen for {n} {{ fn to_val(&self) -> Val {{ Val::Rec(vec![{to}]) }} #[allow(unused_variables)] fn from_val(v: &Val) -> Self {{ let x = v.items(); {n} {{ {from} }} }} }}\n")
        }
        Body::Enum(e) => {
            let mut to = String::new();
            let mut from = String::new();
            for (i, v) in e.variants.iter().enumerate() {
                let k = kept(&v.fields);
                let (open, close) = if v.fields.is_empty() { ("", "") } else if v.named { ("{", "}") } else { ("(", ")") };
                let pat = k.iter().map(|f| format!("f{f}")).collect::<Vec<_>>().join(", ");
                let vals = k.iter().map(|f| format!("Gen::to_val(f{f})")).collect::<Vec<_>>().join(", ");
                to += &format!("{n}::V{i} {open} {pat} {close} => Val::Var({i}, vec![{vals}]), ");
                let init = k
                    .iter()
                    .enumerate()
                    .map(|(p, f)| if v.named { format!("f{f}: Gen::from_val(&x[{p}])") } else { format!("Gen::from_val(&x[{p}])") })
                    .collect::<Vec<_>>()
                    .join(", ");
                from += &format!("{i} => {n}::V{i} {open} {init} {close}, ");
            }
            format!("impl Gen for {n} {{ fn to_val(&self) -> Val {{ match self {{ {to} }} }} #[allow(unused_variables)] fn from_val(v: &Val) -> Self {{ let (k, x) = v.var(); match k {{ {from} _ => unreachable!() }} }} }}\n")
        }
    }
}
/// The whole source file of a family. `each!(m)` lists `m!(Type, number, kind, identifier type)` for every root.
pub fn file(s: &Schema) -> String {
    let mut o = String::from("// written by build.rs\npub mod decls {\n#![allow(unused, clippy::all)]\nuse deku::prelude::*;\nuse vh::val::{Gen, Val};\n");
    for d in &s.defs {
        o += &decl(s, d);
        o += &gen_impl(d);
    }
    o += "}\n#[allow(unused_macros)]\nmacro_rules! each { ($m:ident) => { vec![\n";
    for r in &s.roots {
        let kind = match &s.defs[*r].body {
            Body::Struct { .. } => "struct, ()".to_string(),
            Body::Enum(e) => format!(
                "enum, {}",
                match &e.id {
                    IdTy::Prim(t) => t.name.to_string(),
                    IdTy::Bytes(n) => format!("[u8; {n}]"),
                    IdTy::Ctx(_) => if e.id2.is_some() { "(i64, i64)".into() } else { "i64".into() },
                }
            ),
        };
        o += &format!("$m!(decls::{}, {r}, {kind}),\n", s.defs[*r].name);
    }
    o += "] } }\n";
    o
}
