//! Reference term model `T` (independent of the code under test) with generators, printer and parser text.
use crate::Src;
use nar20_1::Term::{Copula, Term};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Cop {
    Sim,
    Inh,
    Pred,
    Impl,
    Equiv,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum K {
    Seq,
    SetInt,
    SetExt,
    Conj,
    Prod,
    IntInt,
    ExtInt,
    Par,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum T {
    Name(String),
    Var(char, String),
    Stmt(Cop, Box<T>, Box<T>),
    Coll(K, Vec<T>),
    Img(Box<T>, usize, Vec<T>),
    Neg(Box<T>),
}
pub const COPS: [Cop; 5] = [Cop::Inh, Cop::Sim, Cop::Impl, Cop::Pred, Cop::Equiv];

impl Cop {
    pub fn nar(self) -> Copula {
        match self {
            Cop::Sim => Copula::SIM,
            Cop::Inh => Copula::INH,
            Cop::Pred => Copula::PREDIMPL,
            Cop::Impl => Copula::IMPL,
            Cop::Equiv => Copula::EQUIV,
        }
    }
    pub fn text(self) -> &'static str {
        match self {
            Cop::Sim => "<->",
            Cop::Inh => "-->",
            Cop::Pred => "=/>",
            Cop::Impl => "==>",
            Cop::Equiv => "<=>",
        }
    }
}
fn cop_of(c: &Copula) -> Cop {
    match c {
        Copula::SIM => Cop::Sim,
        Copula::INH => Cop::Inh,
        Copula::PREDIMPL => Cop::Pred,
        Copula::IMPL => Cop::Impl,
        Copula::EQUIV => Cop::Equiv,
    }
}

pub fn n(s: &str) -> T {
    T::Name(s.to_string())
}
pub fn qv(s: &str) -> T {
    T::Var('?', s.to_string())
}
pub fn dv(s: &str) -> T {
    T::Var('#', s.to_string())
}
pub fn iv(s: &str) -> T {
    T::Var('$', s.to_string())
}
pub fn st(c: Cop, a: &T, b: &T) -> T {
    T::Stmt(c, Box::new(a.clone()), Box::new(b.clone()))
}
pub fn inh(a: &T, b: &T) -> T {
    st(Cop::Inh, a, b)
}
pub fn coll(k: K, v: &[T]) -> T {
    T::Coll(k, v.to_vec())
}
/// operation call `<{(args)} --> ^name>`
pub fn op(args: &[T], name: &str) -> T {
    inh(&coll(K::SetExt, &[coll(K::Prod, args)]), &n(name))
}

pub fn to_nar(t: &T) -> Term {
    let bx = |v: &Vec<T>| v.iter().map(|x| Box::new(to_nar(x))).collect::<Vec<_>>();
    match t {
        T::Name(s) => Term::Name(s.clone()),
        T::Var('?', s) => Term::QVar(s.clone()),
        T::Var('#', s) => Term::DepVar(s.clone()),
        T::Var(_, s) => Term::IndepVar(s.clone()),
        T::Stmt(c, a, b) => Term::Stmt(c.nar(), Box::new(to_nar(a)), Box::new(to_nar(b))),
        T::Coll(K::Seq, v) => Term::Seq(bx(v)),
        T::Coll(K::SetInt, v) => Term::SetInt(bx(v)),
        T::Coll(K::SetExt, v) => Term::SetExt(bx(v)),
        T::Coll(K::Conj, v) => Term::Conj(bx(v)),
        T::Coll(K::Prod, v) => Term::Prod(bx(v)),
        T::Coll(K::IntInt, v) => Term::IntInt(bx(v)),
        T::Coll(K::ExtInt, v) => Term::ExtInt(bx(v)),
        T::Coll(K::Par, v) => Term::Par(bx(v)),
        T::Img(r, i, v) => Term::Img(Box::new(to_nar(r)), *i, bx(v)),
        T::Neg(x) => Term::Neg(Box::new(to_nar(x))),
    }
}
pub fn from_nar(t: &Term) -> T {
    let bx = |v: &Vec<Box<Term>>| v.iter().map(|x| from_nar(x)).collect::<Vec<_>>();
    match t {
        Term::Name(s) => T::Name(s.clone()),
        Term::QVar(s) => T::Var('?', s.clone()),
        Term::DepVar(s) => T::Var('#', s.clone()),
        Term::IndepVar(s) => T::Var('$', s.clone()),
        Term::Stmt(c, a, b) => T::Stmt(cop_of(c), Box::new(from_nar(a)), Box::new(from_nar(b))),
        Term::Seq(v) => T::Coll(K::Seq, bx(v)),
        Term::SetInt(v) => T::Coll(K::SetInt, bx(v)),
        Term::SetExt(v) => T::Coll(K::SetExt, bx(v)),
        Term::Conj(v) => T::Coll(K::Conj, bx(v)),
        Term::Prod(v) => T::Coll(K::Prod, bx(v)),
        Term::IntInt(v) => T::Coll(K::IntInt, bx(v)),
        Term::ExtInt(v) => T::Coll(K::ExtInt, bx(v)),
        Term::Par(v) => T::Coll(K::Par, bx(v)),
        Term::Img(r, i, v) => T::Img(Box::new(from_nar(r)), *i, bx(v)),
        Term::Neg(x) => T::Neg(Box::new(from_nar(x))),
    }
}

impl T {
    pub fn children(&self) -> Vec<&T> {
        match self {
            T::Name(_) | T::Var(_, _) => vec![],
            T::Stmt(_, a, b) => vec![a, b],
            T::Coll(_, v) => v.iter().collect(),
            T::Img(r, _, v) => {
                let mut x: Vec<&T> = v.iter().collect();
                x.push(r);
                x
            }
            T::Neg(x) => vec![x],
        }
    }
    /// the term itself and all terms inside it, with multiplicity
    pub fn subterms(&self) -> Vec<T> {
        let mut r = vec![self.clone()];
        for c in self.children() {
            r.extend(c.subterms());
        }
        r
    }
    pub fn complexity(&self) -> u64 {
        let inner: u64 = self.children().iter().map(|c| c.complexity()).sum();
        match self {
            T::Name(_) | T::Var(_, _) => 1,
            T::Stmt(..) | T::Neg(_) => 1 + inner,
            _ => inner,
        }
    }
    pub fn depth(&self) -> usize {
        1 + self.children().iter().map(|c| c.depth()).max().unwrap_or(0)
    }
    pub fn has_var(&self) -> bool {
        self.subterms().iter().any(|t| matches!(t, T::Var(..)))
    }
    pub fn vars(&self) -> Vec<T> {
        let mut r: Vec<T> = vec![];
        for t in self.subterms() {
            if matches!(t, T::Var(..)) && !r.contains(&t) {
                r.push(t);
            }
        }
        r
    }
    pub fn map(&self, f: &dyn Fn(&T) -> Option<T>) -> T {
        if let Some(x) = f(self) {
            return x;
        }
        match self {
            T::Name(_) | T::Var(_, _) => self.clone(),
            T::Stmt(c, a, b) => T::Stmt(*c, Box::new(a.map(f)), Box::new(b.map(f))),
            T::Coll(k, v) => T::Coll(*k, v.iter().map(|x| x.map(f)).collect()),
            T::Img(r, i, v) => T::Img(Box::new(r.map(f)), *i, v.iter().map(|x| x.map(f)).collect()),
            T::Neg(x) => T::Neg(Box::new(x.map(f))),
        }
    }
    /// input syntax, with `sp` after the product separators
    pub fn text(&self) -> String {
        match self {
            T::Name(s) => s.clone(),
            T::Var(c, s) => format!("{}{}", c, s),
            T::Stmt(c, a, b) => format!("<{} {} {}>", a.text(), c.text(), b.text()),
            T::Coll(K::SetExt, v) => format!("{{{}}}", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(" ")),
            T::Coll(K::SetInt, v) => format!("[{}]", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(" ")),
            T::Coll(k, v) => {
                let sep = match k {
                    K::Seq => ",",
                    K::Conj => "&&",
                    K::Prod => "*",
                    K::IntInt => "|",
                    K::ExtInt => "&",
                    _ => ";",
                };
                format!("({})", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(sep))
            }
            T::Img(r, i, v) => format!("({} /{} {})", r.text(), i + 1, v.iter().map(|x| x.text()).collect::<Vec<_>>().join(" ")),
            T::Neg(x) => format!("(!{})", x.text()),
        }
    }
    /// display form of the system
    pub fn show(&self) -> String {
        match self {
            T::Name(s) => s.clone(),
            T::Var(c, s) => format!("{}{}", c, s),
            T::Stmt(c, a, b) => format!("<{} {} {}>", a.show(), c.text(), b.show()),
            T::Coll(K::SetExt, v) => format!("{{{}}}", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")),
            T::Coll(K::SetInt, v) => format!("[{}]", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")),
            T::Coll(k, v) => {
                let sep = match k {
                    K::Seq => " , ",
                    K::Conj => " && ",
                    K::Prod => " * ",
                    K::IntInt => " | ",
                    K::ExtInt => " & ",
                    _ => " ; ",
                };
                format!("( {} )", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(sep))
            }
            T::Img(r, i, v) => format!("( {} /{} {} )", r.show(), i + 1, v.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")),
            T::Neg(x) => format!("(! {} )", x.show()),
        }
    }
}

/// what a generated term may contain
#[derive(Clone, Copy)]
pub struct G {
    pub depth: usize,
    pub vars: bool,
    /// restrict arities to what the input grammar can express (no Par, singleton sets, ...)
    pub grammar: bool,
    /// number of distinct atom names
    pub names: usize,
}

const POOL: [&str; 12] = ["a", "b", "c", "d", "e", "x", "bird", "^op", "k-1", "7", "long_name", "A"];

pub fn gen_name(s: &mut Src, g: &G) -> String {
    let k = g.names.min(POOL.len()).max(1);
    let i = s.usize(k);
    // now and then a long name: the long names have one length and differ only in their last letter
    if i < 5 && s.chance(1, 12) {
        return format!("the_long_name_of_{}", POOL[i]);
    }
    POOL[i].to_string()
}

pub fn gen_term(s: &mut Src, g: &G) -> T {
    if g.depth >= 3 && s.chance(1, 60) {
        // large and deep
        let mut size = 120usize;
        let depth = g.depth + s.usize(6);
        return gen(s, g, depth, &mut size);
    }
    let mut size = 24usize;
    gen(s, g, g.depth, &mut size)
}
pub fn gen_stmt(s: &mut Src, g: &G) -> T {
    let mut size = 24usize;
    let c = *s.pick(&COPS);
    let a = gen(s, g, g.depth.saturating_sub(1), &mut size);
    let b = gen(s, g, g.depth.saturating_sub(1), &mut size);
    T::Stmt(c, Box::new(a), Box::new(b))
}
fn gen(s: &mut Src, g: &G, depth: usize, size: &mut usize) -> T {
    if *size > 0 {
        *size -= 1;
    }
    if depth == 0 || *size == 0 {
        return leaf(s, g);
    }
    match s.weighted(&[6, 5, 5, 1, 1]) {
        0 => leaf(s, g),
        1 => {
            let c = *s.pick(&COPS);
            let a = gen(s, g, depth - 1, size);
            let b = gen(s, g, depth - 1, size);
            T::Stmt(c, Box::new(a), Box::new(b))
        }
        2 => {
            let ks: &[K] = if g.grammar {
                &[K::Prod, K::Seq, K::SetExt, K::SetInt, K::Conj, K::IntInt, K::ExtInt]
            } else {
                &[K::Prod, K::Seq, K::SetExt, K::SetInt, K::Conj, K::IntInt, K::ExtInt, K::Par]
            };
            let k = *s.pick(ks);
            let len = match (g.grammar, k) {
                (true, K::SetExt) | (true, K::SetInt) => 1,
                (true, K::IntInt) | (true, K::ExtInt) => 2,
                (true, K::Conj) => 2 + s.usize(3),
                (true, _) => 2 + s.tail(4, 11),
                (false, _) => 1 + s.tail(4, 12),
            };
            T::Coll(k, (0..len).map(|_| gen(s, g, depth - 1, size)).collect())
        }
        3 => {
            let r = gen(s, g, depth - 1, size);
            let (i, len) = if g.grammar { (s.usize(2), 1) } else { (s.tail(4, 9), 1 + s.tail(3, 8)) };
            T::Img(Box::new(r), i, (0..len).map(|_| gen(s, g, depth - 1, size)).collect())
        }
        _ => T::Neg(Box::new(gen(s, g, depth - 1, size))),
    }
}
fn leaf(s: &mut Src, g: &G) -> T {
    if g.vars && s.chance(1, 3) {
        let k = *s.pick(&['$', '#', '?']);
        let nm = *s.pick(&["x", "y", "1", "a"]);
        T::Var(k, nm.to_string())
    } else {
        T::Name(gen_name(s, g))
    }
}

/// a term that differs from `t` in exactly one place
pub fn mutate(s: &mut Src, t: &T, g: &G) -> T {
    let kids = t.children().len();
    if kids > 0 && s.chance(3, 4) {
        let i = s.usize(kids);
        return match t {
            T::Stmt(c, a, b) => {
                if i == 0 {
                    T::Stmt(*c, Box::new(mutate(s, a, g)), b.clone())
                } else {
                    T::Stmt(*c, a.clone(), Box::new(mutate(s, b, g)))
                }
            }
            T::Coll(k, v) => {
                let mut v = v.clone();
                v[i] = mutate(s, &v[i].clone(), g);
                T::Coll(*k, v)
            }
            T::Img(r, ix, v) => {
                if i == v.len() {
                    T::Img(Box::new(mutate(s, r, g)), *ix, v.clone())
                } else {
                    let mut v = v.clone();
                    v[i] = mutate(s, &v[i].clone(), g);
                    T::Img(r.clone(), *ix, v)
                }
            }
            T::Neg(x) => T::Neg(Box::new(mutate(s, x, g))),
            x => x.clone(),
        };
    }
    match t {
        T::Name(nm) => match s.usize(3) {
            0 => T::Name(format!("{}z", nm)),
            1 => T::Var('$', nm.clone()),
            _ => T::Neg(Box::new(t.clone())),
        },
        T::Var(c, nm) => match s.usize(3) {
            0 => T::Var(*c, format!("{}z", nm)),
            1 => T::Var(if *c == '?' { '#' } else if *c == '#' { '$' } else { '?' }, nm.clone()),
            _ => T::Name(nm.clone()),
        },
        T::Stmt(c, a, b) => match s.usize(2) {
            0 => T::Stmt(*COPS.iter().cycle().skip(1 + COPS.iter().position(|x| x == c).unwrap()).next().unwrap(), a.clone(), b.clone()),
            _ => T::Stmt(*c, b.clone(), a.clone()),
        },
        T::Coll(k, v) => match s.usize(3) {
            0 => {
                let all = [K::Prod, K::Seq, K::SetExt, K::SetInt, K::Conj, K::IntInt, K::ExtInt, K::Par];
                T::Coll(all[(all.iter().position(|x| x == k).unwrap() + 1 + s.usize(7)) % 8], v.clone())
            }
            1 => {
                let mut v = v.clone();
                v.push(leaf(s, g));
                T::Coll(*k, v)
            }
            _ => {
                let mut v = v.clone();
                v.reverse();
                T::Coll(*k, v)
            }
        },
        T::Img(r, i, v) => match s.usize(2) {
            0 => T::Img(r.clone(), i + 1, v.clone()),
            _ => {
                let mut v = v.clone();
                v.push(leaf(s, g));
                T::Img(r.clone(), *i, v)
            }
        },
        T::Neg(x) => (**x).clone(),
    }
}

/// reference one-sided unifier: variables of `a` against variable-free positions of `b`
pub fn unify_ref(a: &T, b: &T, asg: &mut Vec<(T, T)>) -> bool {
    if let T::Var(..) = a {
        if let T::Var(..) = b {
            return false;
        }
        if let Some((_, v)) = asg.iter().find(|(k, _)| k == a) {
            return v == b;
        }
        asg.push((a.clone(), b.clone()));
        return true;
    }
    match (a, b) {
        (T::Name(x), T::Name(y)) => x == y,
        (T::Stmt(c1, a1, b1), T::Stmt(c2, a2, b2)) => c1 == c2 && unify_ref(a1, a2, asg) && unify_ref(b1, b2, asg),
        (T::Coll(k1, v1), T::Coll(k2, v2)) => k1 == k2 && v1.len() == v2.len() && v1.iter().zip(v2).all(|(x, y)| unify_ref(x, y, asg)),
        (T::Img(r1, i1, v1), T::Img(r2, i2, v2)) => {
            i1 == i2 && v1.len() == v2.len() && unify_ref(r1, r2, asg) && v1.iter().zip(v2).all(|(x, y)| unify_ref(x, y, asg))
        }
        (T::Neg(x), T::Neg(y)) => unify_ref(x, y, asg),
        _ => false,
    }
}
pub fn subst_ref(t: &T, asg: &[(T, T)]) -> T {
    t.map(&|x| asg.iter().find(|(k, _)| k == x).map(|(_, v)| v.clone()))
}
