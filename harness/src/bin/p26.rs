//! P26: declarations with a contradiction put in are refused where they stand, their originals compile.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use vh::render::{self, Edit};
use vh::schema::*;
use vh::{fail, Check, Cx, Fail, Leg, Src};

const TOOLCHAIN: &str = "+1.98.1";

/// The library as other crates see it, under one feature selection.
struct Lib {
    deku: PathBuf,
    vh: PathBuf,
    deps: PathBuf,
}
fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into()))
}
fn target() -> PathBuf {
    std::env::var("VH_TARGET").map(PathBuf::from).unwrap_or_else(|_| root().join("target"))
}
fn build(name: &str, set: &str) -> Lib {
    let dir = std::env::var("VH_DECL_DIR").map(PathBuf::from).unwrap_or_else(|_| root().join("harness/decl"));
    let t = target().join(format!("decl-{name}"));
    let o = Command::new("cargo")
        .args([TOOLCHAIN, "build", "--offline", "--locked", "--message-format=json", "--no-default-features", "--features", set, "--target-dir"])
        .arg(&t)
        .current_dir(&dir)
        .env_remove("RUSTFLAGS")
        .stdin(Stdio::null())
        .output()
        .expect("cargo");
    if !o.status.success() {
        eprintln!("{}\nP26: the library cannot be built", String::from_utf8_lossy(&o.stderr));
        std::process::exit(2);
    }
    let mut found = BTreeMap::new();
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let Ok(m) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if m["reason"] != "compiler-artifact" {
            continue;
        }
        for f in m["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()) {
            if f.ends_with(".rlib") {
                found.insert(m["target"]["name"].as_str().unwrap_or("").to_string(), PathBuf::from(f));
            }
        }
    }
    let (deku, vh) = (found["deku"].clone(), found["vh"].clone());
    Lib { deku, vh, deps: t.join("debug/deps") }
}
struct Tools {
    rustc: PathBuf,
    cargo: PathBuf,
    scratch: PathBuf,
    full: Lib,
    bytes: Lib,
}
impl Tools {
    fn new() -> Tools {
        let o = Command::new("rustc").args([TOOLCHAIN, "--print", "sysroot"]).output().expect("rustc");
        let bin = PathBuf::from(String::from_utf8_lossy(&o.stdout).trim()).join("bin");
        let (full, bytes) = std::thread::scope(|s| {
            let a = s.spawn(|| build("full", "std,bits,descriptive-errors"));
            let b = s.spawn(|| build("bytes", "std"));
            (a.join().unwrap(), b.join().unwrap())
        });
        let scratch = target().join(format!("decl-scratch-{}", std::process::id()));
        std::fs::create_dir_all(scratch.join("src")).unwrap();
        let manifest = "[package]\nname = \"user\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\nother_name = { package = \"deku\", version = \"0\" }\n[workspace]\n";
        std::fs::write(scratch.join("Cargo.toml"), manifest).unwrap();
        std::fs::write(scratch.join("src/lib.rs"), "").unwrap();
        Tools { rustc: bin.join("rustc"), cargo: bin.join("cargo"), scratch, full, bytes }
    }
}
impl Drop for Tools {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.scratch);
    }
}
/// lines of the errors of a source file, with what they say
struct Answer {
    ok: bool,
    errors: Vec<(usize, String)>,
    log: String,
}
static NEXT: AtomicU64 = AtomicU64::new(0);
fn compile(t: &Tools, lib: &Lib, text: &str, renamed: bool, edition: &str) -> Answer {
    let k = NEXT.fetch_add(1, Ordering::Relaxed);
    let src = t.scratch.join(format!("c{k}.rs"));
    let out = t.scratch.join(format!("libc{k}.rmeta"));
    std::fs::write(&src, text).unwrap();
    let mut c = Command::new(&t.rustc);
    c.args(["--edition", edition, "--crate-name", "user", "--crate-type", "lib", "--emit", "metadata", "--error-format", "short", "--cap-lints", "allow"])
        .arg("-o")
        .arg(&out)
        .arg("-L")
        .arg(format!("dependency={}", lib.deps.display()))
        .arg("--extern")
        .arg(format!("{}={}", if renamed { "other_name" } else { "deku" }, lib.deku.display()))
        .arg("--extern")
        .arg(format!("vh={}", lib.vh.display()))
        .arg(&src)
        .env("CARGO", &t.cargo)
        .env_remove("CARGO_MANIFEST_DIR")
        .stdin(Stdio::null());
    if renamed {
        c.env("CARGO_MANIFEST_DIR", &t.scratch);
    }
    let o = c.output().expect("rustc");
    let log = String::from_utf8_lossy(&o.stderr).into_owned();
    let _ = std::fs::remove_file(&src);
    let _ = std::fs::remove_file(&out);
    if o.status.code().is_none() || log.contains("internal compiler error") {
        panic!("the compiler died: {log}");
    }
    let name = src.display().to_string();
    let errors = log
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix(&name)?.strip_prefix(':')?;
            let (line, rest) = l.split_once(':')?;
            let (_, what) = rest.split_once(": ")?;
            what.starts_with("error").then(|| (line.parse().unwrap(), what.to_string()))
        })
        .collect();
    Answer { ok: o.status.success(), errors, log }
}

const LIMITS: [(&str, &str); 5] = [("count", "count = \"1\""), ("bits_read", "bits_read = \"8\""), ("bytes_read", "bytes_read = \"1\""), ("until", "until = \"|_| true\""), ("read_all", "read_all")];
const SEEKS: [(&str, &str); 4] =
    [("seek_rewind", "seek_rewind"), ("seek_from_current", "seek_from_current = \"0\""), ("seek_from_start", "seek_from_start = \"1\""), ("seek_from_end", "seek_from_end = \"0\"")];
const FIELD: [&str; 30] = [
    "endian", "bits", "bytes", "count", "bits_read", "bytes_read", "until", "read_all", "map", "ctx", "update", "reader", "writer", "skip", "pad_bits_before", "pad_bytes_before",
    "pad_bits_after", "pad_bytes_after", "temp", "temp_value", "default", "cond", "assert", "assert_eq", "seek_rewind", "seek_from_current", "seek_from_end", "seek_from_start",
    "bit_order", "magic",
];
const TOP: [&str; 14] =
    ["endian", "ctx", "ctx_default", "magic", "id", "id_type", "id_endian", "bits", "bytes", "seek_rewind", "seek_from_current", "seek_from_end", "seek_from_start", "bit_order"];
const VARIANT: [&str; 5] = ["id", "id_pat", "default", "reader", "writer"];

fn s(x: &str) -> String {
    x.to_string()
}
fn key(a: &str) -> &str {
    a.split([' ', '=', '(']).next().unwrap()
}
/// an attribute nothing here knows
fn unknown(src: &mut Src, known: &[&str]) -> String {
    // attributes of other places
    let others: Vec<&str> = [&FIELD[..], &TOP[..], &VARIANT[..]].concat().into_iter().filter(|x| !known.contains(x)).collect();
    let from = if src.chance(1, 3) && !others.is_empty() { &others[..] } else { known };
    let mut w: Vec<char> = src.pick(from).chars().collect();
    let i = src.below(w.len());
    match src.below(5) {
        0 if w.len() > 3 => {
            w.remove(i);
        }
        1 => w.insert(i, 'x'),
        2 => w[i] = 'q',
        3 => w.push('s'),
        _ => {}
    }
    let mut w: String = w.into_iter().collect();
    if known.contains(&w.as_str()) {
        w.push_str("_x");
    }
    match src.below(3) {
        0 => w,
        1 => format!("{w} = \"1\""),
        _ => format!("{w}(read)"),
    }
}

/// Every contradiction that fits the declaration, by kind.
fn contradictions(sc: &Schema, def: &Def, src: &mut Src) -> BTreeMap<String, Vec<Edit>> {
    let mut r: BTreeMap<String, Vec<Edit>> = BTreeMap::new();
    let mut add = |name: &str, e: Edit| r.entry(name.into()).or_default().push(e);
    let top = |v: &[&str]| Edit { top: v.iter().map(|x| s(x)).collect(), ..Edit::default() };
    let nums = |f: &Field| matches!(&f.ty, FTy::Prim(t) if t.w > 8);
    // fields
    for (b, fs) in def.bodies().iter().enumerate() {
        let (variant, stores) = match &def.body {
            Body::Enum(e) => (Some(&e.variants[b]), e.variants[b].stores),
            _ => (None, false),
        };
        for (i, f) in fs.iter().enumerate() {
            let have = render::attrs_of(sc, def, b, i);
            let has = |k: &str| have.iter().any(|a| key(a) == k);
            let on = |v: &[&str]| Edit { field: Some((b, i, v.iter().map(|x| s(x)).collect())), ..Edit::default() };
            if stores && i == 0 {
                for a in ["endian = \"big\"", "bits = 4", "bytes = 1", "skip", "cond = \"true\"", "map = \"|v| Ok(v)\"", "pad_bytes_after = \"1\"", "assert = \"true\"", "magic = b\"x\"", "default = \"1\"", "reader = \"todo!()\"", "update = \"1\"", "writer = \"Ok(())\"", "bits_read = \"8\"", "bytes_read = \"1\"", "count = \"1\"", "until = \"|_| true\"", "read_all", "ctx = \"1u8\"", "pad_bits_before = \"1\"", "pad_bits_after = \"1\"", "pad_bytes_before = \"1\"", "assert_eq = \"1\"", "seek_rewind", "seek_from_current = \"0\"", "seek_from_start = \"0\"", "seek_from_end = \"0\"", "bit_order = \"lsb\"", "temp", "temp_value = \"1\""] {
                    let mut e = on(&[a]);
                    e.derives = src.chance(1, 2).then(|| s("DekuRead"));
                    add("attribute of the stored identifier", e);
                }
                continue;
            }
            let limits: Vec<&str> = LIMITS.iter().map(|l| l.0).filter(|l| has(l)).collect();
            if let [l] = limits[..] {
                for (n, a) in LIMITS {
                    if n != l {
                        let mut two = [n, l];
                        two.sort_by_key(|x| LIMITS.iter().position(|y| y.0 == *x));
                        add(&format!("{} with {}", two[0], two[1]), on(&[a]));
                    }
                }
            }
            if has("bits") {
                add("bits with bytes", on(&["bytes = 1"]));
            } else if has("bytes") {
                add("bits with bytes", on(&["bits = 3"]));
            } else if matches!(f.ty, FTy::Prim(_)) && !has("ctx") {
                add("bits with bytes", on(&["bits = 4", "bytes = 1"]));
            }
            if !has("default") && !has("skip") && !has("cond") {
                add("default without skip or cond", on(&["default = \"Default::default()\""]));
            }
            let seek: Vec<&str> = SEEKS.iter().map(|l| l.0).filter(|l| has(l)).collect();
            if seek.is_empty() {
                let (a, b) = (src.below(4), src.below(3));
                add("two seeks", on(&[SEEKS[a].1, SEEKS[(a + b + 1) % 4].1]));
                if def.sized {
                    add("a seek under DekuSize", on(&[src.pick(&SEEKS).1]));
                }
            } else {
                for (n, a) in SEEKS {
                    if n != seek[0] {
                        add("two seeks", on(&[a]));
                    }
                }
            }
            add("unknown attribute of a field", on(&[&unknown(src, &FIELD)]));
            if !have.is_empty() {
                let a = src.pick(&have).clone();
                add("attribute given twice", on(&[&a]));
            }
            // fields of a variant with a conversion of its own are not read or written one by one
            if variant.is_some_and(|v| v.reader.is_some() || v.writer.is_some()) {
                continue;
            }
            // names the generated code uses for itself
            for (a, rw) in [("assert", true), ("cond", true), ("pad_bytes_before", true), ("count", true), ("pad_bytes_after", false), ("update", false)] {
                if has(a) || (a == "count" && (!matches!(f.ty, FTy::Vec(_)) || !limits.is_empty())) {
                    continue;
                }
                let v = match (a, rw) {
                    ("assert" | "cond", _) => "__deku_reader.bits_read < 99999",
                    (_, true) => "{ let _ = &__deku_reader; 0 }",
                    ("update", _) => "{ let __deku_x = Default::default(); __deku_x }",
                    _ => "{ let _ = &__deku_writer; 0 }",
                };
                let mut e = on(&[&format!("{a} = \"{v}\"")]);
                e.derives = Some(s(if rw { "DekuRead" } else { "DekuWrite" }));
                add("internal name in an expression", e);
            }
            if !has("skip") {
                for a in ["skip(maybe)", "skip()", "skip(read, write)", "skip(Read)", "skip = \"sometimes\"", "skip(read = \"x\")"] {
                    add("bad skip", on(&[a]));
                }
            }
            for (k, a) in [
                ("count", "count = 3"), ("until", "until = 0"), ("magic", "magic = \"str\""), ("magic", "magic = 5"), ("endian", "endian = 5"), ("temp", "temp = 3"), ("read_all", "read_all = 7"),
                ("bits", "bits = b\"x\""), ("cond", "cond = 1"), ("assert", "assert = b\"x\""), ("assert_eq", "assert_eq = 3"), ("bit_order", "bit_order = 1"), ("pad_bits_after", "pad_bits_after = 1"),
                ("count", "count"), ("cond", "cond = \"if\""), ("assert", "assert = \"1 +\""), ("bytes", "bytes"), ("ctx", "ctx"), ("map", "map(read)"), ("seek_rewind", "seek_rewind = 9"),
            ] {
                if !has(k) {
                    add("wrong kind of value", on(&[a]));
                }
            }
            if nums(f) && !has("endian") && !has("reader") && !has("skip") && !has("map") && !has("ctx") {
                add("no such byte order", on(&[["endian = \"middle\"", "endian = \"Big\"", "endian = \"native\""][src.below(3)]]));
            }
            if nums(f) && has("bits") && !has("bit_order") && !has("reader") && !has("map") && !has("skip") {
                add("no such bit order", on(&[["bit_order = \"middle\"", "bit_order = \"Lsb\"", "bit_order = \"big\""][src.below(3)]]));
            }
            if variant.is_none() && !has("ctx") && nums(f) && !has("reader") && !has("skip") && !has("map") && !has("endian") {
                add("context of another type", on(&["ctx = \"'x'\""]));
            }
        }
    }
    if def.has_temp() {
        for d in ["DekuRead, DekuWrite", "DekuRead", "DekuWrite"] {
            add("temp without the helper", Edit { plain: true, derives: Some(s(d)), ..Edit::default() });
        }
        for d in ["DekuRead, DekuWriter", "Clone", "DekuRead, DekuSize", "DekuRead DekuWrite", "\"DekuRead\""] {
            add("helper with another name", Edit { derives: Some(s(d)), ..Edit::default() });
        }
    }
    // the type
    add("unknown attribute of the type", top(&[&unknown(src, &TOP)]));
    let text = render::decl(sc, def);
    let line = text.lines().find(|l| l.starts_with("#[deku(")).unwrap_or("").to_string();
    let had = |k: &str| line.contains(&format!("{k} =")) || line.contains(&format!("{k}]")) || line.contains(&format!("{k},"));
    for (k, a) in [("endian", "endian = \"big\""), ("bit_order", "bit_order = \"lsb\""), ("magic", "magic = b\"x\""), ("ctx", "ctx = \"c9: u8\""), ("id_type", "id_type = \"u8\""), ("id_endian", "id_endian = \"big\"")] {
        let there = match k {
            "endian" => def.endian.is_some(),
            "bit_order" => def.order.is_some(),
            "magic" => def.magic.is_some(),
            "ctx" => !def.ctx.is_empty(),
            k => def.is_enum() && had(k),
        };
        if there {
            add("attribute of the type given twice", top(&[a]));
        }
    }
    for a in ["magic = \"str\"", "magic = 7", "endian = 5", "ctx_default = \"if\"", "seek_from_start = 3", "bit_order"] {
        if !had(key(a)) {
            add("wrong kind of value for the type", top(&[a]));
        }
    }
    if def.ctx.is_empty() {
        add("ctx_default without ctx", top(&["ctx_default = \"1\""]));
    } else if let Some(v) = &def.ctx_default {
        let mut e = top(&[&format!("ctx_default = \"{}\"", vec!["1"; v.len() + 1].join(", "))]);
        e.untop = Some(s("ctx_default"));
        add("ctx_default of another length", e);
        let mut e = top(&[&format!("ctx_default = \"{}\"", vec!["'x'"; v.len()].join(", "))]);
        e.untop = Some(s("ctx_default"));
        add("ctx_default of another type", e);
    } else {
        add("ctx_default of another length", top(&[&format!("ctx_default = \"{}\"", vec!["1"; def.ctx.len() + 1].join(", "))]));
    }
    match &def.body {
        Body::Struct { fields, .. } => {
            for a in ["id_type = \"u8\"", "id = \"1\"", "id_endian = \"big\"", "bits = 4", "bytes = 1"] {
                add(&format!("{} on a struct", key(a)), top(&[a]));
            }
            match &def.seek {
                None => {
                    let (a, b) = (src.below(4), src.below(3));
                    add("two seeks of the type", top(&[SEEKS[a].1, SEEKS[(a + b + 1) % 4].1]));
                    if def.sized {
                        add("a seek of the type under DekuSize", top(&[src.pick(&SEEKS).1]));
                    }
                }
                Some(k) => {
                    let k = match k {
                        SeekTo::Rewind => 0,
                        SeekTo::Current(_) => 1,
                        SeekTo::Start(_) => 2,
                        SeekTo::End(_) => 3,
                    };
                    add("two seeks of the type", top(&[SEEKS[(k + 1 + src.below(3)) % 4].1]));
                }
            }
            if def.endian.is_none() && fields.iter().any(|f| nums(f) && f.endian.is_none() && f.args.is_empty() && f.size == Size::None && f.reader.is_none() && f.map == Mp::None && f.skip == Skip::No) {
                add("no such byte order of the type", top(&["endian = \"middle\""]));
            }
        }
        Body::Enum(e) => {
            match &e.id {
                IdTy::Ctx(_) => {
                    add("id with id_type", top(&["id_type = \"u8\""]));
                    add("id with bits", top(&["bits = 4"]));
                    add("id with bytes", top(&["bytes = 1"]));
                    add("no identifier source", Edit { untop: Some(s("id =")), ..Edit::default() });
                }
                t => {
                    add("id with id_type", top(&["id = \"1\""]));
                    add("no identifier source", Edit { untop: Some(s("id_type")), ..Edit::default() });
                    if let IdTy::Prim(t) = t {
                        match e.size {
                            Size::None => add("bits with bytes of the identifier", top(&["bits = 4", "bytes = 1"])),
                            Size::Bits(_) => add("bits with bytes of the identifier", top(&["bytes = 1"])),
                            _ => add("bits with bytes of the identifier", top(&["bits = 4"])),
                        }
                        if e.id_endian.is_none() && t.w > 8 {
                            add("no such byte order of the identifier", top(&["id_endian = \"middle\""]));
                        }
                    }
                }
            }
            if def.sized {
                add("a seek of the type under DekuSize", top(&[src.pick(&SEEKS).1]));
            }
            let defaults: Vec<usize> = (0..e.variants.len()).filter(|i| e.variants[*i].default).collect();
            for (i, v) in e.variants.iter().enumerate() {
                let on = |a: &[&str]| Edit { variant: Some((i, a.iter().map(|x| s(x)).collect())), ..Edit::default() };
                match v.sel {
                    Sel::Id(_) | Sel::IdBytes(_) => {
                        add("id with id_pat", on(&["id_pat = \"_\""]));
                        let mut x = on(&["id = \"_\""]);
                        x.unvariant = Some((i, s("id =")));
                        add("id of any value", x);
                        if !e.has_disc {
                            add("variant without identifier", Edit { unvariant: Some((i, s("id ="))), ..Edit::default() });
                        }
                        if let (Sel::Id(_), IdTy::Prim(_)) = (&v.sel, &e.id) {
                            let mut x = on(&["id = \"'x'\""]);
                            x.unvariant = Some((i, s("id =")));
                            add("identifier of another type", x);
                        }
                    }
                    Sel::Pat(_) => {
                        add("id with id_pat", on(&["id = 1"]));
                        if !e.has_disc {
                            add("variant without identifier", Edit { unvariant: Some((i, s("id_pat"))), ..Edit::default() });
                        }
                    }
                    Sel::Disc(..) => {}
                }
                if !v.default && !defaults.is_empty() {
                    add("two default variants", on(&["default"]));
                }
                add("unknown attribute of a variant", on(&[&unknown(src, &VARIANT)]));
            }
            if e.has_disc && e.variants.iter().any(|v| matches!(v.sel, Sel::Disc(..))) {
                if let IdTy::Prim(t) = &e.id {
                    let other = TYPES_INT.iter().filter(|x| **x != t.name).nth(src.below(9)).unwrap();
                    add("repr of another type", Edit { repr: Some(s(other)), derives: Some(s(src.pick(&["DekuRead", "DekuWrite", "DekuRead, DekuWrite"]))), ..Edit::default() });
                }
                add("discriminants without repr", Edit { repr: Some(s("")), derives: Some(s(src.pick(&["DekuRead", "DekuWrite", "DekuRead, DekuWrite"]))), ..Edit::default() });
            }
        }
    }
    for v in r.values_mut() {
        v.iter_mut().for_each(|e| e.apart = src.chance(1, 4));
    }
    r
}
const TYPES_INT: [&str; 10] = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"];

const HEAD: &str = "#![allow(warnings)]\n";
fn module(name: &str, uses: &str, text: &str) -> String {
    format!("pub mod {name} {{\nuse deku::prelude::*;\n{uses}{text}}}\n")
}
/// the library under another name, as far as declarations name it
fn rename(t: &str) -> String {
    t.replace("deku::ctx::", "other_name::ctx::").replace("deku::prelude::", "other_name::prelude::").replace("deku::DekuError", "other_name::DekuError")
}
fn pick_root(src: &mut Src, families: &[&str]) -> (Schema, usize) {
    let f = *src.pick(families);
    let sc = family(f, src.u64(), 0.001);
    let d = *src.pick(&sc.roots);
    (sc, d)
}
fn refusals(t: &Tools, lib: &Lib, families: &[&str], src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (sc, root) = pick_root(src, families);
    let all = render::closure(&sc, root);
    let original: String = all.iter().map(|d| render::decl(&sc, &sc.defs[*d])).collect();
    let file1 = format!("{HEAD}{}", module("o", "", &original));
    cx.fp(&original);
    cx.note(|| format!("original:\n{original}"));
    // which contradictions
    let mut broken = vec![];
    for _ in 0..src.range(4, 8) {
        let d = *src.pick(&all);
        let c = contradictions(&sc, &sc.defs[d], src);
        let names: Vec<&String> = c.keys().collect();
        let name = (*src.pick(&names)).clone();
        let edit = src.pick(&c[&name]).clone();
        let text = render::decl_edit(&sc, &sc.defs[d], &edit);
        if text == render::decl(&sc, &sc.defs[d]) {
            return fail("harness", format!("nothing changed by {name} {edit:?}"));
        }
        broken.push((name, text));
    }
    let a = compile(t, lib, &file1, false, "2021");
    if !a.ok {
        return fail("original refused", format!("{}\n{original}", first_errors(&a)));
    }
    cx.nontrivial(original.matches("#[deku(").count() >= 2);
    let mut left: Vec<usize> = (0..broken.len()).collect();
    // errors of expansion hide those of types: what was not refused stands again without the others
    while !left.is_empty() {
        let mut text = file1.clone();
        let mut lines = vec![];
        for k in &left {
            let from = text.matches('\n').count() + 1;
            text += &module(&format!("b{k}"), "use super::o::*;\n", &broken[*k].1);
            lines.push((*k, from, text.matches('\n').count()));
        }
        let a = compile(t, lib, &text, false, "2021");
        let first = text.lines().take_while(|l| !l.starts_with("pub mod b")).count();
        if a.ok || a.errors.is_empty() {
            if !a.ok {
                panic!("an error that stands nowhere: {}", a.log);
            }
            let (name, text) = &broken[left[0]];
            return fail(format!("accepted:{name}"), format!("compiles although: {name}\n{text}\nits original:\n{original}"));
        }
        let before = left.len();
        left.retain(|k| {
            let (_, from, to) = lines.iter().find(|l| l.0 == *k).unwrap();
            !a.errors.iter().any(|(l, _)| (from..=to).contains(&l))
        });
        for (l, what) in &a.errors {
            if *l <= first {
                return fail("misplaced", format!("the error does not stand at the declaration: line {l}: {what}\n{text}"));
            }
        }
        if left.len() == before {
            panic!("no error of the declarations: {}", a.log);
        }
        for (k, from, to) in &lines {
            if !left.contains(k) {
                let (name, text) = &broken[*k];
                let what = a.errors.iter().find(|(l, _)| (from..=to).contains(&l)).map(|e| e.1.clone()).unwrap();
                cx.tag(name.clone());
                cx.note(|| format!("{name}: {what}\n{text}"));
                cx.sub += 1;
            }
        }
    }
    Ok(())
}
fn first_errors(a: &Answer) -> String {
    a.log.lines().filter(|l| l.contains("error")).take(4).collect::<Vec<_>>().join("\n")
}
fn renamed(t: &Tools, src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (sc, root) = pick_root(src, &FULL);
    let text = rename(&format!("{HEAD}{}", module("o", "", &render::decl_all(&sc, root))));
    let edition = *src.pick(&["2021", "2018", "2024"]);
    cx.tag(format!("edition {edition}"));
    cx.fp(&(&text, edition));
    cx.note(|| format!("// edition {edition}\n{text}"));
    cx.nontrivial(text.matches("#[deku(").count() >= 2);
    let a = compile(t, &t.full, &text, true, edition);
    if !a.ok {
        return fail("renamed", format!("refused when the library has another name: {}\n{text}", first_errors(&a)));
    }
    Ok(())
}
const NAMES: [&str; 36] = [
    "input", "reader", "writer", "cursor", "value", "e", "idx", "rest", "res", "total_len", "bits_read", "bytes_read", "read_whole_byte", "seek_amt", "max", "const_max", "s", "w", "r", "item", "buf",
    "data", "inner", "offset", "size", "deku_id", "to_writer", "from_reader", "update", "count", "r#type", "r#fn", "r#match", "len", "amt", "pad",
];
const TYPES: [&str; 14] =
    ["Reader", "Writer", "Error", "Cursor", "SeekFrom", "NeedSize", "Endian", "Limit", "Order", "TryFrom_", "Item", "Input", "ReadExact", "Value"];
const VARIANTS: [&str; 10] = ["None_", "Self_", "Default", "Error", "Output", "Big", "Little", "Id", "Item", "R"];
/// other names for types, variants, fields and arguments
fn other_names(text: &str, src: &mut Src) -> String {
    let (mut low, mut high, mut vars) = (NAMES.to_vec(), TYPES.to_vec(), VARIANTS.to_vec());
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut out = String::new();
    let mut word = String::new();
    for c in text.chars().chain([' ']) {
        if c.is_ascii_alphanumeric() || c == '_' {
            word.push(c);
            continue;
        }
        if !word.is_empty() {
            let w = std::mem::take(&mut word);
            let num = |p: &str| w.strip_prefix(p).is_some_and(|d| !d.is_empty() && d.len() < 3 && d != "32" && d != "64" && d.bytes().all(|b| b.is_ascii_digit()));
            let def = w.starts_with('P') && w.rsplit_once('D').is_some_and(|(a, b)| a.len() > 1 && !b.is_empty() && b.bytes().all(|b| b.is_ascii_digit()));
            let pool = if num("f") || num("c") {
                Some(&mut low)
            } else if num("V") {
                Some(&mut vars)
            } else if def {
                Some(&mut high)
            } else {
                None
            };
            if let Some(pool) = pool {
                let k = map.entry(w.clone()).or_insert_with(|| {
                    if pool.is_empty() || src.chance(1, 4) {
                        w.clone()
                    } else {
                        pool.remove(src.below(pool.len())).to_string()
                    }
                });
                out.push_str(k);
            } else {
                out.push_str(&w);
            }
        }
        out.push(c);
    }
    out
}
/// parameters for the last declaration, used in one more field
fn parametric(text: &str, name: &str, src: &mut Src) -> Option<String> {
    let at = ["struct", "enum"].iter().find_map(|k| text.find(&format!("pub {k} {name} ")).map(|i| i + k.len() + 5 + name.len()))?;
    let life = *src.pick(&["", "'a", "'de", "'input", "'__r"]);
    let ty = *src.pick(&["", "R", "W", "T", "D", "Ctx", "Self_"]);
    let n = *src.pick(&["", "N", "R_", "MAX"]);
    let mut params = vec![];
    if !life.is_empty() {
        params.push(life.to_string());
    }
    if !ty.is_empty() {
        params.push(if src.chance(1, 2) { ty.to_string() } else { format!("{ty}: Copy + 'static") });
    }
    if !n.is_empty() {
        params.push(format!("const {n}: usize"));
    }
    if params.is_empty() {
        return None;
    }
    let ph = format!(
        "core::marker::PhantomData<({}, {}, {})>",
        if life.is_empty() { "()".into() } else { format!("&{life} ()") },
        if ty.is_empty() { "()".into() } else { format!("fn() -> {ty}") },
        if n.is_empty() { "()".into() } else { format!("[u8; {n}]") }
    );
    let (head, body) = text.split_at(at);
    // the ends of the bodies that have fields
    let is_enum = head.contains(&format!("pub enum {name}"));
    let (a, b) = if is_enum { ("\n},\n", "\n),\n") } else { ("\n}", "\n)") };
    let mut ends: Vec<(usize, bool)> = body.match_indices(a).map(|(i, _)| (i, true)).chain(body.match_indices(b).map(|(i, _)| (i, false))).collect();
    ends.sort();
    if is_enum {
        // a reader of the variant makes one with the fields it knows
        let starts: Vec<usize> = std::iter::once(0).chain(ends.iter().map(|e| e.0)).collect();
        let mut k = 0;
        ends.retain(|e| {
            k += 1;
            !body[starts[k - 1]..e.0].contains("| Self::")
        });
        // (the end of the enum itself looks otherwise)
        if ends.is_empty() {
            return None;
        }
    } else {
        ends.truncate(1);
    }
    let (i, named) = *src.pick(&ends);
    // an array of the parameter's length is read like any other field
    let array = !n.is_empty() && src.chance(1, 2);
    let more = match (named, is_enum, array) {
        (_, _, false) => String::new(),
        (true, true, _) => format!("\n    more: [u8; {n}],"),
        (true, false, _) => format!("\n    pub more: [u8; {n}],"),
        (false, true, _) => format!("\n    [u8; {n}],"),
        (false, false, _) => format!("\n    pub [u8; {n}],"),
    };
    let field = match (named, is_enum) {
        (true, true) => format!("\n    #[deku(skip)] ph: {ph},"),
        (true, false) => format!("\n    #[deku(skip)] pub ph: {ph},"),
        (false, true) => format!("\n    #[deku(skip)] {ph},"),
        (false, false) => format!("\n    #[deku(skip)] pub {ph},"),
    };
    Some(format!("{head}<{}>{}{field}{more}{}", params.join(", "), &body[..i], &body[i..]))
}
/// the attributes in another order, in several lists, between other attributes
fn regrouped(text: &str, src: &mut Src) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find("#[deku(") {
        out.push_str(&rest[..i]);
        let b = rest.as_bytes();
        let (mut j, mut depth, mut quoted) = (i + 7, 0i32, false);
        let mut parts = vec![];
        let mut from = j;
        loop {
            match b[j] {
                b'\\' if quoted => j += 1,
                b'"' => quoted = !quoted,
                b'(' | b'[' | b'{' if !quoted => depth += 1,
                b']' | b'}' if !quoted => depth -= 1,
                b')' if !quoted && depth > 0 => depth -= 1,
                b',' if !quoted && depth == 0 => {
                    parts.push(rest[from..j].trim());
                    from = j + 1;
                }
                b')' if !quoted => break,
                _ => {}
            }
            j += 1;
        }
        parts.push(rest[from..j].trim());
        // past the closing `)]`
        rest = &rest[j + 2..];
        for k in (1..parts.len()).rev() {
            parts.swap(k, src.below(k + 1));
        }
        let mut lists: Vec<Vec<&str>> = vec![vec![]];
        for p in parts {
            if !lists.last().unwrap().is_empty() && src.chance(1, 3) {
                lists.push(vec![]);
            }
            lists.last_mut().unwrap().push(p);
        }
        for l in lists {
            match src.below(6) {
                0 => out.push_str("#[doc = \"text\"] "),
                1 => out.push_str("#[allow(unused)] "),
                2 => out.push_str("#[cfg(all())] "),
                _ => {}
            }
            out.push_str(&format!("#[deku({}{})] ", l.join(", "), if src.chance(1, 5) { "," } else { "" }));
        }
    }
    out + rest
}
fn names(t: &Tools, src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (sc, root) = pick_root(src, &FULL);
    let mut text = render::decl_all(&sc, root);
    let params = if src.chance(2, 3) { parametric(&text, &sc.defs[root].name, src) } else { None };
    cx.tag_if(params.is_some(), "parameters");
    if let Some(p) = params {
        text = p;
    }
    if src.chance(3, 4) {
        text = other_names(&text, src);
        cx.tag("other names");
    }
    if src.chance(1, 2) {
        text = regrouped(&text, src);
        cx.tag("attributes regrouped");
    }
    let mut text = format!("{HEAD}{}", module("o", "", &text));
    let lib = src.chance(1, 4);
    if lib {
        text = rename(&text);
    }
    let edition = *src.pick(&["2021", "2018", "2024"]);
    cx.tag(format!("edition {edition}"));
    cx.fp(&(&text, edition));
    cx.note(|| format!("// edition {edition}\n{text}"));
    cx.nontrivial(text.matches("#[deku(").count() >= 2);
    let a = compile(t, &t.full, &text, lib, edition);
    if !a.ok {
        return fail("names", format!("refused for its names, in edition {edition}: {}\n{text}", first_errors(&a)));
    }
    Ok(())
}
const FULL: [&str; 21] = [
    "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P23B", "P23M", "P24", "P25",
];

fn clear() {
    // scratch of runs that were ended
    for e in std::fs::read_dir(target()).into_iter().flatten().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if let Some(pid) = n.strip_prefix("decl-scratch-") {
            if !Path::new(&format!("/proc/{pid}")).exists() {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
}
fn main() {
    let asked = |x: &str| std::env::args().any(|a| a == x);
    let needed = std::env::var("VH_CHILD").is_ok() || asked("--replay") || asked("--build");
    let t: &'static Option<Tools> = Box::leak(Box::new(needed.then(Tools::new)));
    clear();
    if asked("--build") {
        let _ = t.as_ref().map(|t| std::fs::remove_dir_all(&t.scratch));
        return;
    }
    vh::engine::main(Check {
        property: "P26",
        rule: "the original has two or more attribute lists; each case counts one refusal per contradiction put in",
        assumptions: vec![
            "rustc reports errors at the lines of the declaration whose derive refuses it",
            "a declaration whose original compiles is refused for nothing but what was put in",
        ],
        legs: vec![
            Leg::new("contradictions", 1200, 30000, move |s, cx| {
                let t = t.as_ref().unwrap();
                refusals(t, &t.full, &FULL, s, cx)
            }),
            Leg::new("bytes-only", 300, 6000, move |s, cx| {
                let t = t.as_ref().unwrap();
                refusals(t, &t.bytes, &["P23", "P23N"], s, cx)
            }),
            Leg::new("renamed", 600, 10000, move |s, cx| renamed(t.as_ref().unwrap(), s, cx)),
            Leg::new("names", 800, 12000, move |s, cx| names(t.as_ref().unwrap(), s, cx)),
        ],
    })
}
