//! Knowledge bases in which rules apply: statements over few names, chains, relations, conditionals.
use crate::rules::{v, V};
use crate::term::*;
use crate::Src;

const A: [&str; 12] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"];

fn atom(s: &mut Src, k: usize) -> T {
    let x = n(A[s.usize(k)]);
    match s.usize(8) {
        6 => coll(K::SetExt, &[x]),
        7 => coll(K::SetInt, &[x]),
        _ => x,
    }
}
pub fn simple(s: &mut Src, k: usize) -> T {
    let a = atom(s, k);
    let b = atom(s, k);
    match s.usize(6) {
        4 => st(Cop::Sim, &a, &b),
        5 => {
            let c = atom(s, k);
            inh(&coll(K::Prod, &[a, c]), &n("r"))
        }
        _ => inh(&a, &b),
    }
}
/// a judgement term of the input grammar
pub fn fact(s: &mut Src, k: usize) -> T {
    match s.usize(12) {
        0..=5 => simple(s, k),
        6 => st(Cop::Impl, &simple(s, k), &simple(s, k)),
        7 => {
            // conditional with variables
            let p = atom(s, k);
            let q = atom(s, k);
            st(Cop::Impl, &inh(&iv("x"), &p), &inh(&iv("x"), &q))
        }
        8 => {
            let conds = vec![simple(s, k), simple(s, k)];
            st(Cop::Impl, &T::Coll(K::Conj, conds), &simple(s, k))
        }
        9 => {
            let p = atom(s, k);
            let q = atom(s, k);
            let c = coll(K::Conj, &[inh(&iv("x"), &p), inh(&iv("y"), &q)]);
            st(Cop::Impl, &c, &inh(&coll(K::Prod, &[iv("x"), iv("y")]), &n("r")))
        }
        10 => T::Neg(Box::new(simple(s, k))),
        _ => {
            let a = atom(s, k);
            let b = atom(s, k);
            let c = atom(s, k);
            match s.usize(4) {
                0 => inh(&coll(K::IntInt, &[a, b]), &c),
                1 => inh(&c, &coll(K::IntInt, &[a, b])),
                2 => inh(&a, &T::Img(Box::new(n("r")), s.usize(2), vec![b])),
                _ => st(Cop::Equiv, &inh(&a, &b), &inh(&b, &c)),
            }
        }
    }
}
pub fn truth(s: &mut Src) -> V {
    match s.usize(3) {
        0 => v(1.0, 0.9),
        1 => v((s.usize(11) as f64) / 10.0, 0.5),
        _ => v((s.usize(101) as f64) / 100.0, 0.01 + (s.usize(98) as f64) / 100.0),
    }
}
pub fn line(t: &T, p: char, x: Option<V>) -> String {
    match x {
        Some(x) => format!("{}{} {{{} {}}}", t.text(), p, x.f, x.c),
        None => format!("{}{}", t.text(), p),
    }
}
