//! The waiting judgements and their priorities, and the reference of how attention changes them.
use crate::nar::*;
use crate::term::*;
use nar20_1::Nar::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;

#[derive(Clone, Debug)]
pub struct Tk {
    pub id: i64,
    pub b: B,
    pub credit: f64,
    pub qa: f64,
    pub mul: f64,
    pub time: i64,
}
pub fn waiting(nar: &Nar) -> BTreeMap<i64, Tk> {
    let m = nar.mem.read();
    let s = m.shared.read();
    s.judgementTasks
        .iter()
        .map(|t| {
            let t = t.read();
            (t.id, Tk { id: t.id, b: belief(&t.sentence), credit: t.credit, qa: t.qaCredit, mul: t.mulCredit, time: t.derivTime })
        })
        .collect()
}
pub fn waiting_count(nar: &Nar) -> usize {
    nar.mem.read().shared.read().judgementTasks.len()
}
/// (term, priority) of the questions
pub fn questions(nar: &Nar) -> Vec<(T, f64)> {
    let m = nar.mem.read();
    let s = m.shared.read();
    let q = s.questionTasks.read();
    q.iter().map(|t| (from_nar(&t.sentence.term), t.prio)).collect()
}
pub fn set_cycle(nar: &Nar, t: i64) {
    nar.mem.read().shared.read().cycleCounter.store(t, Ordering::SeqCst);
}
pub fn cycle_of(nar: &Nar) -> i64 {
    nar.mem.read().shared.read().cycleCounter.load(Ordering::SeqCst)
}
pub fn priority(t: &Tk, cycle: i64) -> f64 {
    (t.qa * 0.2 + t.credit) * (-0.001 * (cycle - t.time) as f64).exp() * t.mul
}
/// credits after the questions and the base income were paid out, and the complexity was charged
pub fn paid(t: &Tk, qs: &[(T, f64)]) -> Tk {
    let subs = t.b.term.subterms();
    let mut x = t.clone();
    for (q, prio) in qs {
        for y in q.subterms() {
            x.qa += prio * subs.iter().filter(|z| **z == y).count() as f64;
        }
    }
    let cx = t.b.term.complexity() as f64;
    x.credit = (t.credit + 0.5) / cx;
    x.qa /= cx;
    x
}
pub fn rel_eq(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
