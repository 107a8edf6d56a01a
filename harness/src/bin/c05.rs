#![allow(non_snake_case)]
//! C05 truth-value functions
use nar20_1::NarSentence::{calcUsageUsefulness, retTv, Evidence, Usage};
use nar20_1::Tv as N;
use nar20_1::Tv::Tv;
use vh::*;

const EPS: f64 = 1e-9;
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= EPS * (1.0 + a.abs().max(b.abs()))
}
fn val(s: &mut Src, conf: bool) -> f64 {
    let top = if conf { 0.9999 } else { 1.0 };
    match s.usize(6) {
        0 => *s.pick(&[0.9, 0.5, 0.0, 0.1, 0.99, 0.998, 0.45]),
        1 => s.usize(11) as f64 / 10.0 * top,
        2 => s.unit() * 1e-6,
        3 => top - s.unit() * 1e-4,
        _ => s.unit() * top,
    }
}
fn tv(s: &mut Src) -> Tv {
    let f = if s.chance(1, 4) { 1.0 } else { val(s, false) };
    Tv { f, c: val(s, true) }
}
fn show(t: &Tv) -> String {
    format!("{{{} {}}}", t.f, t.c)
}
fn w2c(w: f64) -> f64 {
    w / (w + 1.0)
}
fn c2w(c: f64) -> f64 {
    c / (1.0 - c)
}

fn same(name: &str, a: &Tv, b: &Tv, got: &Tv, wf: f64, wc: f64) -> R {
    ensure!(
        close(got.f, wf) && close(got.c, wc),
        "{} of {} and {} is {} expected {{{} {}}}",
        name,
        show(a),
        show(b),
        show(got),
        wf,
        wc
    );
    ensure!(got.f >= -EPS && got.f <= 1.0 + EPS && got.c >= 0.0 && got.c <= 1.0, "{} leaves the range: {}", name, show(got));
    Ok(())
}

/// every truth function computes its NAL definition (evidential horizon 1)
fn definitions(s: &mut Src, c: &mut Ctx) -> R {
    let (a, b) = (tv(s), tv(s));
    c.line(&format!("{} {}", show(&a), show(&b)));
    c.nontrivial = a.c > 0.0 && b.c > 0.0 && a.f > 0.0 && b.f > 0.0;
    c.evals = 12;
    same("deduction", &a, &b, &N::ded(&a, &b), a.f * b.f, a.f * b.f * a.c * b.c)?;
    same("abduction", &a, &b, &N::abd(&a, &b), a.f, w2c(b.f * a.c * b.c))?;
    same("induction", &a, &b, &N::ind(&a, &b), b.f, w2c(a.f * a.c * b.c))?;
    let or = 1.0 - (1.0 - a.f) * (1.0 - b.f);
    same("comparison", &a, &b, &N::comp(&a, &b), if or < 1e-8 { 0.0 } else { a.f * b.f / or }, w2c(or * a.c * b.c))?;
    same("intersection", &a, &b, &N::int(&a, &b), a.f * b.f, a.c * b.c)?;
    same("negation", &a, &a, &N::neg(&a), 1.0 - a.f, a.c)?;
    let w = c2w(a.c) + c2w(b.c);
    same("revision", &a, &b, &N::rev(&a, &b), if w > 0.0 { (c2w(a.c) * a.f + c2w(b.c) * b.f) / w } else { 0.0 }, w2c(w))?;
    // goal deduction: the better supported of deduction and the negation of deduction from the negated goal
    let r1 = (a.f * b.f, a.f * b.f * a.c * b.c);
    let r2 = (1.0 - (1.0 - a.f) * b.f, (1.0 - a.f) * b.f * a.c * b.c);
    let g = N::dedGoal(&a, &b);
    if (r1.1 - r2.1).abs() > 1e-12 {
        let r = if r1.1 > r2.1 { r1 } else { r2 };
        same("goal deduction", &a, &b, &g, r.0, r.1)?;
    } else {
        ensure!((close(g.f, r1.0) && close(g.c, r1.1)) || (close(g.f, r2.0) && close(g.c, r2.1)), "goal deduction of {} and {} is {}", show(&a), show(&b), show(&g));
    }
    ensure!(close(N::calcExp(&a), a.c * (a.f - 0.5) + 0.5), "expectation of {} is {}", show(&a), N::calcExp(&a));
    ensure!(close(N::or(a.f, b.f), or), "or({}, {}) is {}", a.f, b.f, N::or(a.f, b.f));
    ensure!(close(N::w2c(c2w(a.c)), a.c) && close(N::c2w(a.c), c2w(a.c)), "evidence weight and confidence do not convert back and forth for {}", a.c);
    Ok(())
}

/// laws that hold whatever the exact formula is
fn laws(s: &mut Src, c: &mut Ctx) -> R {
    let (a, b, d) = (tv(s), tv(s), tv(s));
    c.line(&format!("{} {} {}", show(&a), show(&b), show(&d)));
    c.nontrivial = a.c > 0.0 && b.c > 0.0;
    c.evals = 10;
    let ab = N::rev(&a, &b);
    let ba = N::rev(&b, &a);
    ensure!(close(ab.f, ba.f) && close(ab.c, ba.c), "revision depends on the order: {} {}", show(&a), show(&b));
    ensure!(ab.c >= a.c.max(b.c) - EPS, "revision loses confidence: {} {} -> {}", show(&a), show(&b), show(&ab));
    if a.c > 0.0 || b.c > 0.0 {
        let (lo, hi) = (a.f.min(b.f), a.f.max(b.f));
        ensure!(a.c == 0.0 || b.c == 0.0 || (ab.f >= lo - EPS && ab.f <= hi + EPS), "revision leaves the interval of the frequencies: {} {} -> {}", show(&a), show(&b), show(&ab));
    }
    let l = N::rev(&ab, &d);
    let r = N::rev(&a, &N::rev(&b, &d));
    if a.c > 1e-9 && b.c > 1e-9 && d.c > 1e-9 {
        let slack = 1e-7;
        ensure!((l.f - r.f).abs() < slack && (l.c - r.c).abs() < slack, "revision depends on the grouping: {} {} {}: {} vs {}", show(&a), show(&b), show(&d), show(&l), show(&r));
    }
    // no inference function creates confidence
    for (nm, t) in [("deduction", N::ded(&a, &b)), ("abduction", N::abd(&a, &b)), ("induction", N::ind(&a, &b)), ("comparison", N::comp(&a, &b)), ("intersection", N::int(&a, &b)), ("goal deduction", N::dedGoal(&a, &b))].iter() {
        ensure!(t.c <= a.c.min(b.c) + EPS, "{} of {} and {} has more confidence than a premise: {}", nm, show(&a), show(&b), show(t));
        ensure!(t.f >= -EPS && t.f <= 1.0 + EPS && t.c >= 0.0 && t.c < 1.0 && !t.f.is_nan(), "{} of {} and {} leaves the range: {}", nm, show(&a), show(&b), show(t));
    }
    // weak inference never reaches the confidence of one unit of evidence
    for t in [N::abd(&a, &b), N::ind(&a, &b), N::comp(&a, &b)].iter() {
        ensure!(t.c <= 0.5 + EPS, "a weak inference has confidence {}", t.c);
    }
    let nn = N::neg(&N::neg(&a));
    ensure!(close(nn.f, a.f) && nn.c == a.c, "double negation changes {}", show(&a));
    let e = N::calcExp(&a);
    ensure!(e >= -EPS && e <= 1.0 + EPS, "expectation {} of {} out of range", e, show(&a));
    ensure!((a.f > 0.5) == (e > 0.5) || a.c < 1e-12 || (a.f - 0.5).abs() < 1e-12, "expectation of {} on the wrong side: {}", show(&a), e);
    Ok(())
}

/// count-based evidence
fn counts(s: &mut Src, c: &mut Ctx) -> R {
    let lim = if s.bool() { 10 } else { 100000 };
    let cnt = 1 + s.range(0, lim);
    let pos = s.range(0, cnt);
    c.line(&format!("{}/{}", pos, cnt));
    c.nontrivial = pos > 0 && pos < cnt;
    c.evals = 5;
    let mk = |pos, cnt| {
        let mut x = nar20_1::NarSentence::newEternalSentenceByTv(&nar20_1::Term::Term::Name("a".into()), nar20_1::NarSentence::EnumPunctation::JUGEMENT, &Tv { f: 1.0, c: 0.9 }, nar20_1::NarStamp::newStamp(&vec![1]));
        x.evi = Some(Evidence::CNT { pos, cnt });
        retTv(&x).unwrap()
    };
    let t = mk(pos, cnt);
    ensure!(close(t.f, pos as f64 / cnt as f64) && close(t.c, cnt as f64 / (cnt as f64 + 1.0)), "evidence {}/{} has truth {}", pos, cnt, show(&t));
    let up = mk(pos + 1, cnt + 1);
    let dn = mk(pos, cnt + 1);
    ensure!(up.f >= t.f && up.c > t.c, "a positive case lowers the truth of {}/{}", pos, cnt);
    ensure!(dn.f <= t.f && dn.c > t.c, "a negative case raises the truth of {}/{}", pos, cnt);
    // counting one more case is revision with one unit of evidence
    let r = N::rev(&t, &Tv { f: 1.0, c: 0.5 });
    ensure!((r.f - up.f).abs() < 1e-7 && (r.c - up.c).abs() < 1e-7, "counting and revision disagree at {}/{}", pos, cnt);
    Ok(())
}

fn usefulness(s: &mut Src, c: &mut Ctx) -> R {
    let last = s.range(0, 1000000);
    let now = s.range(0, 1000000);
    let uses = s.range(0, 100000);
    let u = Usage { lastUsed: last, useCount: uses };
    c.line(&format!("lastUsed={} useCount={} now={}", last, uses, now));
    c.nontrivial = uses > 0 && now > last;
    c.evals = 4;
    let v = calcUsageUsefulness(&u, now);
    let raw = uses as f64 / ((now - last).max(0) as f64 + 1.0);
    ensure!(close(v, raw / (raw + 1.0)), "usefulness of {:?} uses {} steps ago is {}", uses, now - last, v);
    ensure!(v >= 0.0 && v < 1.0, "usefulness out of range {}", v);
    ensure!(calcUsageUsefulness(&u, now + 1 + s.range(0, 1000)) <= v, "usefulness grows without use");
    ensure!(calcUsageUsefulness(&Usage { lastUsed: last, useCount: uses + 1 }, now) >= v, "usefulness falls with use");
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C05",
        vec![
            Part::new("definitions", "both premises carry positive evidence", 2400000, 10000000, definitions),
            Part::new("laws", "both premises carry evidence", 2400000, 10000000, laws),
            Part::new("counts", "mixed positive and negative cases", 800000, 2000000, counts),
            Part::new("usefulness", "used before and some time ago", 800000, 2000000, usefulness),
        ],
    ));
}
