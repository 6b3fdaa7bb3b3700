//! Values as text, for passing them between processes.
use crate::val::Val;

pub fn put(v: &Val) -> String {
    let all = |v: &[Val]| v.iter().map(put).collect::<String>();
    match v {
        Val::N(n) => format!("n{n:x};"),
        Val::B(b) => format!("b{};", hex(b)),
        Val::Unit => "u;".into(),
        Val::Seq(v) => format!("s{:x};{}", v.len(), all(v)),
        Val::Set(v) => format!("t{:x};{}", v.len(), all(v)),
        Val::Opt(None) => "o0;".into(),
        Val::Opt(Some(v)) => format!("o1;{}", put(v)),
        Val::Rec(v) => format!("r{:x};{}", v.len(), all(v)),
        Val::Var(k, v) => format!("v{k:x};{:x};{}", v.len(), all(v)),
    }
}
pub fn get(s: &str) -> Val {
    fn word<'a>(s: &mut &'a str) -> &'a str {
        let (a, b) = s.split_once(';').expect("unfinished value");
        *s = b;
        a
    }
    fn one(s: &mut &str) -> Val {
        let w = word(s);
        let (k, x) = w.split_at(1);
        let num = |x: &str| usize::from_str_radix(x, 16).unwrap();
        let many = |n: usize, s: &mut &str| (0..n).map(|_| one(s)).collect::<Vec<_>>();
        match k {
            "n" => Val::N(u128::from_str_radix(x, 16).unwrap()),
            "b" => Val::B(unhex(x)),
            "u" => Val::Unit,
            "s" => Val::Seq(many(num(x), s)),
            "t" => Val::Set(many(num(x), s)),
            "r" => Val::Rec(many(num(x), s)),
            "o" if x == "0" => Val::Opt(None),
            "o" => Val::Opt(Some(Box::new(one(s)))),
            "v" => {
                let n = num(word(s));
                Val::Var(num(x), many(n, s))
            }
            _ => panic!("no value: {w}"),
        }
    }
    let mut s = s;
    one(&mut s)
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(x: &str) -> Vec<u8> {
    (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect()
}
