//! P23: the same declarations and cases under every feature selection, against the default one.
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use vh::fam::Fam;
use vh::interp::{self, E};
use vh::model::hex;
use vh::{fail, wire, Check, Cx, Fail, Leg, Src};

/// the first is what the others are compared with
const SETS: [(&str, &str); 11] = [
    ("default", "std,bits,descriptive-errors"),
    ("none", ""),
    ("alloc", "alloc"),
    ("bits", "bits"),
    ("alloc-bits", "alloc,bits"),
    ("descriptive", "descriptive-errors"),
    ("logging", "logging"),
    ("std", "std"),
    ("std-logging", "std,logging"),
    ("std-bits", "std,bits"),
    ("all", "std,bits,descriptive-errors,logging"),
];
fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into()))
}
fn target(name: &str) -> PathBuf {
    std::env::var("VH_TARGET").map(PathBuf::from).unwrap_or_else(|_| root().join("target")).join(format!("feat-{name}"))
}
/// Build the worker of every selection. `Err`: what the compiler said.
fn build() -> Vec<Result<PathBuf, String>> {
    let dir = std::env::var("VH_FEAT_DIR").map(PathBuf::from).unwrap_or_else(|_| root().join("harness/feat"));
    let run: Vec<_> = SETS
        .iter()
        .map(|(name, set)| {
            Command::new("cargo")
                .args(["+1.98.1", "build", "--offline", "--locked", "--no-default-features", "--features", set, "--target-dir"])
                .arg(target(name))
                .current_dir(&dir)
                .env_remove("RUSTFLAGS")
                .env("VERIF_SEED", vh::engine::seed().to_string())
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::piped())
                .spawn()
                .expect("cargo")
        })
        .collect();
    let done: Vec<_> = run.into_iter().map(|c| std::thread::spawn(move || c.wait_with_output().unwrap())).collect();
    done.into_iter()
        .zip(SETS)
        .map(|(t, (name, _))| {
            let o = t.join().unwrap();
            if o.status.success() {
                return Ok(target(name).join("debug/feat"));
            }
            let log = String::from_utf8_lossy(&o.stderr).into_owned();
            if !log.contains("could not compile") {
                eprintln!("{log}\nP23: the workers cannot be built");
                std::process::exit(2);
            }
            let at = log.find("error").unwrap_or(0);
            Err(log[at..].chars().take(3000).collect())
        })
        .collect()
}
struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Worker {
    fn new(p: &PathBuf) -> Worker {
        let mut child = Command::new(p).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("worker");
        let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        Worker { child, to, from }
    }
}
thread_local! {
    static POOL: RefCell<Vec<Option<Worker>>> = const { RefCell::new(vec![]) };
}
fn ask(bins: &[Result<PathBuf, String>], line: &str) -> Vec<Option<String>> {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        p.resize_with(bins.len(), || None);
        for (w, b) in p.iter_mut().zip(bins) {
            if let (None, Ok(b)) = (&w, b) {
                *w = Some(Worker::new(b));
            }
            if let Some(w) = w {
                let _ = w.to.write_all(format!("{line}\n").as_bytes());
            }
        }
        p.iter_mut()
            .map(|x| {
                let w = x.as_mut()?;
                let mut s = String::new();
                if !matches!(w.from.read_line(&mut s), Ok(n) if n > 0) {
                    let how = w.child.wait().map(|s| s.to_string()).unwrap_or_default();
                    *x = None;
                    return Some(format!("died: {how}"));
                }
                Some(s.trim_end().into())
            })
            .collect()
    })
}
/// word by word; "?": nothing to compare
fn alike(a: &str, b: &str) -> bool {
    if a == "?" || b == "?" {
        return true;
    }
    let (a, b): (Vec<_>, Vec<_>) = (a.split(' ').collect(), b.split(' ').collect());
    a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x == y || *x == "?" || *y == "?")
}

struct Four {
    name: &'static str,
    fam: Fam,
    roots: Vec<usize>,
    bits: bool,
}
const READS: [&str; 5] = ["read", "bytes", "from", "noseek", "try"];
const WRITES: [&str; 7] = ["write", "slice", "tobytes", "wnoseek", "update", "id", "bits"];

fn chunks(s: &mut Src) -> String {
    if s.chance(2, 3) {
        return ",".into();
    }
    let n = s.range(1, 4);
    let mut v: Vec<usize> = (0..n).map(|_| *s.pick(&[1usize, 2, 3, 8, 0])).collect();
    v.push(1 + s.below(3));
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn case(bins: &[Result<PathBuf, String>], f: &[Four], writes: bool, s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let f = &f[s.below(f.len())];
    let d = *s.pick(&f.roots);
    let (op, off, arg, chunk);
    if writes {
        op = *s.pick(&WRITES);
        let v = interp::value(f.fam.0, d, s);
        let m = interp::write(f.fam.0, d, &v);
        if matches!(m.res, Err(E::Undef(_))) {
            cx.discard();
            return Ok(());
        }
        // a slice of about the right size
        let n = m.res.as_ref().map_or(8, |b| b.len());
        off = if op == "slice" { (n + s.below(4)).saturating_sub(s.below(2)) } else { 0 };
        chunk = if op == "write" || op == "wnoseek" { chunks(s) } else { ",".into() };
        cx.nontrivial(v.weight() >= 2);
        arg = wire::put(&v);
        cx.note(|| format!("value {v:?}"));
    } else {
        op = *s.pick(&READS);
        let data = interp::input(f.fam.0, d, s);
        off = if f.bits && (op == "bytes" || op == "from") { s.below(20) } else { 0 };
        chunk = if op == "read" || op == "from" || op == "noseek" { chunks(s) } else { ",".into() };
        cx.nontrivial(data.len() >= 2);
        arg = wire::hex(&data);
        cx.note(|| format!("input {}", hex(&data)));
    }
    let line = format!("{} {d} {op} {chunk} {off} {arg}", f.name);
    let got = ask(bins, &line);
    let Some(want) = &got[0] else {
        cx.discard();
        return Ok(());
    };
    cx.tag(format!("{}: {op}", f.name));
    cx.tag(format!("outcome {}", want.split(' ').take(if want.starts_with('V') { 1 } else { 2 }).collect::<Vec<_>>().join(" ")));
    cx.fp(&line);
    cx.note(|| format!("{op} of {} -> {want}", f.fam.0.defs[d].name));
    let mut compared = 0;
    for (got, (name, set)) in got.iter().zip(SETS).skip(1) {
        let Some(got) = got else { continue };
        compared += (got != "?") as u64;
        if !alike(want, got) {
            return fail(
                format!("{op} differs"),
                format!("with features [{set}] ({name}) {op} answers '{got}', with the default features '{want}'; case: {line}; declaration:\n{}", f.fam.decl(d)),
            );
        }
    }
    cx.sub += compared;
    Ok(())
}

fn main() {
    // the engine runs the check in a child; only that needs the workers
    let asked = |x: &str| std::env::args().any(|a| a == x);
    let needed = std::env::var("VH_CHILD").is_ok() || asked("--replay") || asked("--build");
    let bins: &'static [Result<PathBuf, String>] = if needed { Box::leak(build().into_boxed_slice()) } else { Box::leak(SETS.map(|_| Err(String::new())).to_vec().into_boxed_slice()) };
    if asked("--build") {
        std::process::exit(bins.iter().any(|b| b.is_err()) as i32);
    }
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(2.0);
    let four: &'static [Four] = Box::leak(
        ["P23", "P23N", "P23B", "P23M"]
            .map(|name| {
                let fam = Fam::new(name, vh::engine::seed(), scale);
                let roots = fam.0.roots.clone();
                Four { name, fam, roots, bits: name == "P23B" || name == "P23M" }
            })
            .into_iter()
            .collect::<Vec<_>>()
            .into_boxed_slice(),
    );
    vh::engine::main(Check {
        property: "P23",
        rule: "the value has two or more leaves, or the input two or more bytes; each case counts one comparison per feature selection that supports the declaration",
        assumptions: vec![
            vh::fam::ASSUME,
            "the default feature selection is the reference: what it does is decided by the other checks",
            "logging is tried with a logger that formats every message",
        ],
        legs: vec![
            Leg::new("builds", 22, 22, move |s, cx| {
                let k = s.below(SETS.len());
                cx.nontrivial(true);
                cx.fp(&k);
                cx.note(|| format!("declarations under [{}]", SETS[k].1));
                match &bins[k] {
                    Ok(_) => Ok(()),
                    Err(log) => fail("does not build", format!("features [{}]: {log}", SETS[k].1)),
                }
            }),
            Leg::new("read", 120000, 3000000, move |s, cx| case(bins, four, false, s, cx)),
            Leg::new("write", 120000, 3000000, move |s, cx| case(bins, four, true, s, cx)),
        ],
    })
}
