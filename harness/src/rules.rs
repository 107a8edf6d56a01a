//! Reference inference rules over reference terms, written from the rule comments and the NAL
//! definitions (evidential horizon 1). Conclusions are compared as sets.
use crate::term::*;
use crate::term::{Cop::*, K::*};
use nar20_1::NarSentence::*;
use nar20_1::NarStamp::newStamp;
use nar20_1::Tv::Tv;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct V {
    pub f: f64,
    pub c: f64,
}
pub fn v(f: f64, c: f64) -> V {
    V { f, c }
}
pub fn w2c(w: f64) -> f64 {
    w / (w + 1.0)
}
pub fn ded(a: V, b: V) -> V {
    v(a.f * b.f, a.f * b.f * a.c * b.c)
}
pub fn int(a: V, b: V) -> V {
    v(a.f * b.f, a.c * b.c)
}
pub fn abd(a: V, b: V) -> V {
    v(a.f, w2c(b.f * a.c * b.c))
}
pub fn ind(a: V, b: V) -> V {
    abd(b, a)
}
pub fn comp(a: V, b: V) -> V {
    let or = 1.0 - (1.0 - a.f) * (1.0 - b.f);
    v(if or.abs() < 1e-8 { 0.0 } else { a.f * b.f / or }, w2c(or * a.c * b.c))
}
pub fn rev(a: V, b: V) -> V {
    let (x, y) = (a.c / (1.0 - a.c), b.c / (1.0 - b.c));
    if x + y > 0.0 {
        v((x * a.f + y * b.f) / (x + y), w2c(x + y))
    } else {
        v(0.0, 0.0)
    }
}
pub fn expect(a: V) -> f64 {
    a.c * (a.f - 0.5) + 0.5
}
pub fn ded_goal(a: V, b: V) -> V {
    let r1 = ded(a, b);
    let n = ded(v(1.0 - a.f, a.c), b);
    let r2 = v(1.0 - n.f, n.c);
    if r1.c >= r2.c {
        r1
    } else {
        r2
    }
}

pub type Concl = (T, V, char);

/// rules with premises in the order (a, b), both judgements
fn directed(a: &T, av: V, b: &T, bv: V) -> Vec<Concl> {
    let mut r: Vec<Concl> = vec![];
    let mut add = |t: T, x: V| r.push((t, x, '.'));
    if let (T::Stmt(ca, sa, pa), T::Stmt(cb, sb, pb)) = (a, b) {
        // S cop M, M cop P |- S cop P, for the transitive copulas
        for c in [Inh, Impl, Pred].iter() {
            if ca == c && cb == c && pa == sb && sa != pb {
                add(st(*c, sa, pb), ded(av, bv));
            }
        }
        if *ca == Inh && *cb == Inh {
            if pa == pb && sa != sb {
                add(inh(sa, sb), abd(av, bv)); // S --> M, P --> M |- S --> P
            }
            if sa == sb && pa != pb {
                add(inh(pa, pb), ind(av, bv)); // M --> S, M --> P |- S --> P
                add(inh(sa, &coll(ExtInt, &[(**pa).clone(), (**pb).clone()])), int(av, bv));
            }
            if sa == sb {
                if let (T::Coll(SetInt, x), T::Coll(SetInt, y)) = (&**pa, &**pb) {
                    let mut u = x.clone();
                    u.extend(y.iter().cloned());
                    add(inh(sa, &T::Coll(SetInt, u)), int(av, bv));
                }
            }
        }
        if (*ca == Inh || *ca == Sim) && (*cb == Inh || *cb == Sim) {
            if sa == sb && pa != pb {
                add(st(Sim, pa, pb), comp(av, bv));
            }
            if pa == pb && sa != sb {
                add(st(Sim, sa, sb), comp(av, bv));
            }
        }
    }
    if let T::Stmt(Impl, sa, pa) = a {
        let mut asg = vec![];
        if unify_ref(sa, b, &mut asg) {
            add(subst_ref(pa, &asg), ded(av, bv));
        }
        if let T::Coll(Conj, arr) = &**sa {
            for i in 0..arr.len() {
                let mut asg = vec![];
                if unify_ref(&arr[i], b, &mut asg) {
                    let rest: Vec<T> = arr.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, x)| subst_ref(x, &asg)).collect();
                    let cond = if rest.len() == 1 { rest[0].clone() } else { T::Coll(Conj, rest) };
                    add(st(Impl, &cond, &subst_ref(pa, &asg)), ded(av, bv));
                }
            }
        }
    }
    r
}

/// all conclusions of two premises; punctuation '.', '?' or '!'
pub fn binary(a: &T, pa: char, av: Option<V>, b: &T, pb: char, bv: Option<V>) -> Vec<Concl> {
    let mut r = vec![];
    if pa == '.' && pb == '.' {
        r.extend(directed(a, av.unwrap(), b, bv.unwrap()));
        r.extend(directed(b, bv.unwrap(), a, av.unwrap()));
    }
    // a ==> x?  x.  |- a ==> x.
    for (q, pq, j, pj, jv) in [(a, pa, b, pb, bv), (b, pb, a, pa, av)].iter() {
        if *pq == '?' && *pj == '.' {
            if let T::Stmt(Impl, _, x) = q {
                let mut asg = vec![];
                if unify_ref(x, j, &mut asg) {
                    r.push((subst_ref(q, &asg), jv.unwrap(), '.'));
                }
            }
        }
    }
    r
}

/// all conclusions of one premise
pub fn single(a: &T, p: char, av: Option<V>) -> Vec<Concl> {
    let mut r: Vec<Concl> = vec![];
    if p != '.' {
        return r;
    }
    let x = av.unwrap();
    let mut add = |t: T, x: V| r.push((t, x, '.'));
    match a {
        T::Neg(i) => add((**i).clone(), v(1.0 - x.f, x.c)),
        T::Stmt(Inh, s, q) => {
            if let T::Coll(IntInt, arr) = &**s {
                for e in arr.iter() {
                    add(inh(e, q), x);
                }
            }
            if let T::Coll(IntInt, arr) = &**q {
                for e in arr.iter() {
                    add(inh(s, e), x);
                }
            }
            if let T::Coll(Prod, arr) = &**s {
                if arr.len() == 2 {
                    add(inh(&arr[0], &T::Img(q.clone(), 0, vec![arr[1].clone()])), x);
                    add(inh(&arr[1], &T::Img(q.clone(), 1, vec![arr[0].clone()])), x);
                }
            }
            if let T::Img(rel, i, arr) = &**q {
                if arr.len() == 1 {
                    if *i == 0 {
                        add(inh(&coll(Prod, &[(**s).clone(), arr[0].clone()]), rel), x);
                    }
                    if *i == 1 {
                        add(inh(&coll(Prod, &[arr[0].clone(), (**s).clone()]), rel), x);
                    }
                }
            }
        }
        T::Stmt(Sim, s, q) => match (&**s, &**q) {
            (T::Coll(SetInt, e), T::Coll(SetInt, f)) | (T::Coll(SetExt, e), T::Coll(SetExt, f)) if e.len() == 1 && f.len() == 1 => add(st(Sim, &e[0], &f[0]), x),
            _ => {}
        },
        T::Stmt(Pred, s, q) => {
            if let T::Coll(Par, arr) = &**q {
                for e in arr.iter() {
                    add(st(Pred, s, e), x);
                }
            }
        }
        _ => {}
    }
    r
}

pub fn close(a: V, b: V) -> bool {
    (a.f - b.f).abs() < 1e-9 && (a.c - b.c).abs() < 1e-9
}
pub fn has(set: &[Concl], x: &Concl) -> bool {
    set.iter().any(|y| y.0 == x.0 && y.2 == x.2 && close(y.1, x.1))
}
pub fn show(x: &Concl) -> String {
    format!("{}{} {{{:.4} {:.4}}}", x.0.show(), x.2, x.1.f, x.1.c)
}
pub fn set_eq(what: &str, got: &[Concl], want: &[Concl]) -> Result<(), String> {
    for g in got {
        if !has(want, g) {
            return Err(format!("{}: {} does not follow (what follows: {:?})", what, show(g), want.iter().map(show).collect::<Vec<_>>()));
        }
    }
    for w in want {
        if !has(got, w) {
            return Err(format!("{}: {} follows but is not concluded (concluded: {:?})", what, show(w), got.iter().map(show).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

pub fn punct(p: char) -> EnumPunctation {
    match p {
        '.' => EnumPunctation::JUGEMENT,
        '?' => EnumPunctation::QUESTION,
        _ => EnumPunctation::GOAL,
    }
}
pub fn punct_of(p: EnumPunctation) -> char {
    match p {
        EnumPunctation::JUGEMENT => '.',
        EnumPunctation::QUESTION => '?',
        EnumPunctation::GOAL => '!',
    }
}
pub fn sentence(t: &T, p: char, x: V, stamp: &[i64]) -> Sentence {
    newEternalSentenceByTv(&to_nar(t), punct(p), &Tv { f: x.f, c: x.c }, newStamp(&stamp.to_vec()))
}
pub fn concl_of(s: &Sentence) -> Concl {
    let tv = retTv(s);
    (from_nar(&s.term), tv.map(|t| v(t.f, t.c)).unwrap_or(v(-1.0, -1.0)), punct_of(s.punct))
}
/// reference evidence merge: alternating ids, at most 120
pub fn merge(a: &[i64], b: &[i64]) -> Vec<i64> {
    let mut r = vec![];
    for i in 0..a.len().max(b.len()) {
        if i < a.len() {
            r.push(a[i]);
        }
        if i < b.len() {
            r.push(b[i]);
        }
    }
    r.truncate(120);
    r
}
pub fn overlap(a: &[i64], b: &[i64]) -> bool {
    a.iter().any(|x| b.contains(x))
}
