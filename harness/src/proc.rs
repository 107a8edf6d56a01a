//! Driving the procedural reasoner: recording operators, intercepted storage worker, snapshots of goals.
use crate::nar::*;
use crate::rules::{punct_of, v, V};
use crate::term::*;
use nar20_1::Nar::*;
use nar20_1::NarGoalSystem;
use nar20_1::NarProc::*;
use nar20_1::NarSentence::*;
use nar20_1::NarWorkingCycle::Mem2;
use nar20_1::Tv::Tv;
use parking_lot::RwLock;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::mpsc::{sync_channel, Receiver, SyncSender};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// intervals 1.3^i up to 20, as documented by the configuration
pub const INTERVALS: [i64; 9] = [1, 2, 3, 4, 6, 8, 10, 13, 17];
pub fn interval_idx(dt: i64) -> i64 {
    INTERVALS.iter().rposition(|x| *x <= dt).unwrap_or(0) as i64
}

pub type Calls = Rc<RefCell<Vec<(String, Vec<T>, i64)>>>;
pub struct RecOp {
    name: String,
    babble: bool,
    evi: i64,
    log: Calls,
}
impl Op for RecOp {
    fn retName(&self) -> String {
        self.name.clone()
    }
    fn call(&self, nar: &mut ProcNar, _m: &Option<Arc<RwLock<Mem2>>>, args: &Vec<nar20_1::Term::Term>) {
        self.log.borrow_mut().push((self.name.clone(), args.iter().map(from_nar).collect(), nar.t));
    }
    fn isBabbleable(&self) -> bool {
        self.babble
    }
    fn ret_evi_cnt(&self) -> i64 {
        self.evi
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub term: T,
    pub evi: i64,
    pub t: i64,
}
pub struct P {
    pub nar: Nar,
    pub ops: Vec<(String, bool, i64)>,
    pub calls: Calls,
    rx: Receiver<(Sentence, i64)>,
    real: SyncSender<(Sentence, i64)>,
    k: u64,
}
impl P {
    pub fn new(ops: &[(&str, bool, i64)]) -> P {
        let mut nar = createNar();
        wire(&nar);
        let calls: Calls = Rc::new(RefCell::new(vec![]));
        for (name, babble, evi) in ops {
            nar.procNar.ops.push(Rc::new(Box::new(RecOp { name: name.to_string(), babble: *babble, evi: *evi, log: calls.clone() })));
        }
        // no derivation of goals by the wall clock
        nar.procNar.cfg__resourceGoalDeriverPrio = 1.0;
        nar.procNar.goalSystem.write().cfg__dbg_enAddEntry = false;
        let (tx, rx) = sync_channel(4096);
        let real = std::mem::replace(&mut nar.procNar.storeWorkersTx[0], tx);
        P { nar, ops: ops.iter().map(|o| (o.0.to_string(), o.1, o.2)).collect(), calls, rx, real, k: 0 }
    }
    pub fn t(&self) -> i64 {
        self.nar.procNar.t
    }
    /// now and then it was already running for long
    pub fn aged(mut self, s: &mut crate::Src) -> P {
        if s.chance(1, 5) {
            self.nar.procNar.t = {
                let most = *s.pick(&[300, 5000, 1000000]);
                s.range(1, most)
            };
        }
        self
    }
    pub fn event(&mut self, t: &T) {
        inputT2(&mut self.nar, &to_nar(t), EnumPunctation::JUGEMENT, &Tv { f: 1.0, c: 0.9 }, true);
    }
    pub fn goal(&mut self, t: &T, x: V) {
        inputT2(&mut self.nar, &to_nar(t), EnumPunctation::GOAL, &Tv { f: x.f, c: x.c }, true);
    }
    /// a goal which was derived before
    pub fn goal_at(&mut self, t: &T, x: V, stamp: &[i64], depth: i64) {
        let g = crate::rules::sentence(t, '!', x, stamp);
        NarGoalSystem::addEntry(&self.nar.procNar.goalSystem, &self.nar.mem.read(), self.nar.procNar.t, Arc::new(g), None, depth);
    }
    pub fn tell(&mut self, t: &T) {
        inputT2(&mut self.nar, &to_nar(t), EnumPunctation::JUGEMENT, &Tv { f: 1.0, c: 0.9 }, false);
    }
    pub fn trace(&self) -> Vec<Ev> {
        self.nar.procNar.trace.ret_view().iter().map(|e| Ev { term: from_nar(&e.name), evi: e.evi, t: e.occT }).collect()
    }
    pub fn step0(&mut self) {
        narStep0(&mut self.nar.procNar);
    }
    pub fn step1(&mut self) {
        let m = Some(Arc::clone(&self.nar.mem));
        narStep1(&mut self.nar.procNar, &m);
    }
    /// evidence which perception handed to the storage worker since the last call
    pub fn captured(&self) -> Vec<(Sentence, i64)> {
        self.rx.try_iter().collect()
    }
    /// hand evidence to the real storage worker and go on
    pub fn forward(&self, msgs: Vec<(Sentence, i64)>) -> Result<(), String> {
        for m in msgs {
            self.real.send(m).map_err(|_| format!("the storage worker died: {}", crate::run::last_panic()))?;
        }
        Ok(())
    }
    /// let the real storage worker store the evidence and wait for it
    pub fn store(&mut self, msgs: Vec<(Sentence, i64)>) -> Result<(), String> {
        let dead = || format!("the storage worker died: {}", crate::run::last_panic());
        for m in msgs {
            self.real.send(m).map_err(|_| dead())?;
        }
        self.k += 1;
        let end = n(&format!("zz-end-{}", self.k));
        let s = evidence(&st(Cop::Pred, &coll(K::Seq, &[n("zz-a"), n("zz-op")]), &end), &[-7 - self.k as i64], 1, 1, Some(0));
        self.real.send((s, 0)).map_err(|_| dead())?;
        let key = to_nar(&end);
        let t0 = Instant::now();
        let mut spins = 0;
        loop {
            if self.nar.procNar.evidenceMem.read().concepts.contains_key(&key) {
                break;
            }
            spins += 1;
            if spins < 200 {
                std::thread::yield_now();
            } else {
                std::thread::sleep(Duration::from_micros(50));
            }
            if self.nar.procNar.storeWorkers[0].is_finished() {
                return Err(dead());
            }
            if t0.elapsed() > Duration::from_secs(60) {
                return Err("the storage worker does not finish its work".to_string());
            }
        }
        self.nar.procNar.evidenceMem.write().concepts.retain(|k, _| !from_nar(k).show().starts_with("zz-"));
        Ok(())
    }
    /// (concept, table, belief)
    pub fn evidence_mem(&self) -> Vec<(T, u8, B)> {
        let mut r = vec![];
        for (k, (a, b)) in snap(&self.nar.procNar.evidenceMem.read()) {
            for x in a {
                r.push((k.clone(), 0, x));
            }
            for x in b {
                r.push((k.clone(), 1, x));
            }
        }
        r
    }
    /// lets every remembered link have been observed often before
    pub fn age(&mut self, pos: i64, cnt: i64) {
        use nar20_1::NarSentence::Evidence;
        let g = self.nar.procNar.evidenceMem.read();
        for c in g.concepts.values() {
            for b in c.payload.beliefsByExp.iter().chain(c.payload.beliefsByUsage.iter()) {
                let mut w = b.write();
                if let Some(Evidence::CNT { pos: p0, cnt: c0 }) = w.evi.clone() {
                    w.evi = Some(Evidence::CNT { pos: p0 + pos, cnt: c0 + cnt });
                }
            }
        }
    }
    pub fn derive(&mut self) {
        let g = self.nar.mem.read();
        let pm = self.nar.procNar.evidenceMem.read();
        NarGoalSystem::sampleAndInference(&self.nar.procNar.goalSystem, &g, self.nar.procNar.t, &pm, &mut self.nar.procNar.rng);
    }
    pub fn goals(&self) -> Vec<Gl> {
        let g = self.nar.procNar.goalSystem.read();
        NarGoalSystem::retEntries(&g).iter().map(gl).collect()
    }
}
/// the goals of a reasoner
pub fn goals_of(nar: &nar20_1::Nar::Nar) -> Vec<Gl> {
    let g = nar.procNar.goalSystem.read();
    NarGoalSystem::retEntries(&g).iter().map(gl).collect()
}
/// a stored goal
#[derive(Clone)]
pub struct Gl {
    pub term: T,
    pub v: V,
    pub stamp: Vec<i64>,
    pub punct: char,
    pub evidence: Option<Arc<RwLock<Sentence>>>,
    pub depth: i64,
    pub created: i64,
    pub des: f32,
    pub utility: f64,
    pub entry: Arc<RwLock<NarGoalSystem::Entry>>,
}
impl Gl {
    pub fn show(&self) -> String {
        format!("{}! {{{:.4} {:.4}}} {:?} depth={} des={}", self.term.show(), self.v.f, self.v.c, self.stamp, self.depth, self.des)
    }
    pub fn ptr(&self) -> usize {
        Arc::as_ptr(&self.entry) as *const u8 as usize
    }
}
pub fn gl(e: &Arc<RwLock<NarGoalSystem::Entry>>) -> Gl {
    let x = e.read();
    let tv = retTv(&x.sentence).unwrap();
    Gl {
        term: from_nar(&x.sentence.term),
        v: v(tv.f, tv.c),
        stamp: x.sentence.stamp.ids.clone(),
        punct: punct_of(x.sentence.punct),
        evidence: x.evidence.as_ref().map(Arc::clone),
        depth: x.depth,
        created: x.createTime,
        des: x.desirability,
        utility: x.utility,
        entry: Arc::clone(e),
    }
}
pub fn evidence(t: &T, stamp: &[i64], pos: i64, cnt: i64, dt: Option<i64>) -> Sentence {
    let mut s = crate::rules::sentence(t, '.', v(1.0, 0.9), stamp);
    s.evi = Some(Evidence::CNT { pos, cnt });
    s.expDt = dt;
    s
}
/// operator call decoded by the documented form <{(a0 * a1 ...)} --> name>
pub fn decode(t: &T) -> Option<(String, Vec<T>)> {
    if let T::Stmt(Cop::Inh, a, b) = t {
        if let (T::Coll(K::SetExt, x), T::Name(name)) = (&**a, &**b) {
            if x.len() == 1 {
                if let T::Coll(K::Prod, args) = &x[0] {
                    if !args.is_empty() {
                        return Some((name.clone(), args.clone()));
                    }
                }
            }
        }
    }
    None
}
/// replaces the random names of introduced variables (the inputs must not contain independent variables)
pub fn canon(t: &T) -> T {
    t.map(&|x| match x {
        T::Var('$', _) => Some(iv("Q")),
        _ => None,
    })
}
