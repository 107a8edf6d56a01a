//! Driving a reasoner in lock step: the message for the derivation worker is intercepted, inspected,
//! delivered to the real worker, and the worker's completion is awaited.
use crate::rules::{punct_of, V};
use crate::term::*;
use nar20_1::Nar::*;
use nar20_1::NarMem::Mem;
use nar20_1::NarSentence::*;
use nar20_1::NarWorkingCycle::*;
use parking_lot::RwLock;
use std::collections::BTreeMap;
use std::sync::mpsc::{sync_channel, Receiver, SyncSender};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub struct B {
    pub term: T,
    pub v: V,
    pub stamp: Vec<i64>,
    pub cnt: Option<(i64, i64)>,
    pub exp_dt: Option<i64>,
    pub punct: char,
}
impl B {
    pub fn show(&self) -> String {
        format!("{}{} {{{:.5} {:.5}}} {:?}", self.term.show(), self.punct, self.v.f, self.v.c, self.stamp)
    }
    pub fn same(&self, o: &B) -> bool {
        self.term == o.term && self.stamp == o.stamp && self.punct == o.punct && crate::rules::close(self.v, o.v)
    }
}
pub fn belief(s: &Sentence) -> B {
    let tv = retTv(s);
    B {
        term: from_nar(&s.term),
        v: tv.map(|t| crate::rules::v(t.f, t.c)).unwrap_or(crate::rules::v(-1.0, -1.0)),
        stamp: s.stamp.ids.clone(),
        cnt: match &s.evi {
            Some(Evidence::CNT { pos, cnt }) => Some((*pos, *cnt)),
            _ => None,
        },
        exp_dt: s.expDt,
        punct: punct_of(s.punct),
    }
}
/// concept name -> (beliefs by expectation, beliefs by usage)
pub type Snap = BTreeMap<T, (Vec<B>, Vec<B>)>;
pub fn snap(mem: &Mem) -> Snap {
    mem.concepts
        .iter()
        .map(|(k, c)| (from_nar(k), (c.payload.beliefsByExp.iter().map(|b| belief(&b.read())).collect(), c.payload.beliefsByUsage.iter().map(|b| belief(&b.read())).collect())))
        .collect()
}
pub fn snap_decl(nar: &Nar) -> Snap {
    let m = nar.mem.read();
    let s = m.shared.read();
    let mm = s.mem.read();
    snap(&mm)
}
pub fn tasks(nar: &Nar) -> Vec<B> {
    let m = nar.mem.read();
    let s = m.shared.read();
    let r = s.judgementTasks.iter().map(|t| belief(&t.read().sentence)).collect();
    r
}

pub struct Lock {
    pub nar: Nar,
    rx: Receiver<DeriverWorkMessage>,
    real: SyncSender<DeriverWorkMessage>,
    sentinel: Arc<RwLock<Task>>,
}

pub fn lone_task() -> Arc<RwLock<Task>> {
    let m = createMem2(64, 20);
    let s = crate::rules::sentence(&n("zz-sentinel"), '.', crate::rules::v(1.0, 0.9), &[-1]);
    memAddTask(Arc::clone(&m.read().shared), &s, true, 64, 20, 1.0, 0);
    let t = {
        let g = m.read();
        let sh = g.shared.read();
        Arc::clone(&sh.judgementTasks[0])
    };
    // drop every other reference to the task
    flushTasks(&m.read());
    t
}

pub fn wire(nar: &Nar) {
    let g = nar.mem.read();
    let mut s = g.shared.write();
    s.procMem = Arc::clone(&nar.procNar.evidenceMem);
}

impl Lock {
    pub fn new() -> Lock {
        Lock::of(createNar())
    }
    pub fn of(nar: Nar) -> Lock {
        wire(&nar);
        let (tx, rx) = sync_channel(4);
        let real = std::mem::replace(&mut nar.mem.write().deriverWorkersTx[0], tx);
        Lock { nar, rx, real, sentinel: lone_task() }
    }
    pub fn worker_alive(&self) -> bool {
        !self.nar.mem.read().deriverWorkers[0].is_finished()
    }
    /// one reasoning cycle of the main thread; the work for the deriver is returned, not yet done
    pub fn cycle(&mut self) -> Option<DeriverWorkMessage> {
        cycle(&mut self.nar);
        self.rx.try_recv().ok()
    }
    /// the deriver starts to work on the task alone
    pub fn start(&self, task: &Arc<RwLock<Task>>) -> Result<(), String> {
        self.real.send(DeriverWorkMessage { primary: Arc::clone(task), secondary: vec![], cycleCounter: 0 }).map_err(|_| format!("the derivation worker died: {}", crate::run::last_panic()))
    }
    /// wait until the deriver is done
    pub fn wait(&self) -> Result<(), String> {
        self.deliver(DeriverWorkMessage { primary: Arc::clone(&self.sentinel), secondary: vec![], cycleCounter: 0 })
    }
    /// let the deriver work on the message and wait until it is done
    pub fn deliver(&self, msg: DeriverWorkMessage) -> Result<(), String> {
        let alive = |l: &Lock| if l.worker_alive() { Ok(()) } else { Err(format!("the derivation worker died: {}", crate::run::last_panic())) };
        self.real.send(msg).map_err(|_| format!("the derivation worker died: {}", crate::run::last_panic()))?;
        let s = DeriverWorkMessage { primary: Arc::clone(&self.sentinel), secondary: vec![], cycleCounter: 0 };
        self.real.send(s).map_err(|_| format!("the derivation worker died: {}", crate::run::last_panic()))?;
        let t = Instant::now();
        let mut spins = 0;
        while Arc::strong_count(&self.sentinel) > 1 {
            spins += 1;
            if spins < 200 {
                std::thread::yield_now();
            } else {
                std::thread::sleep(Duration::from_micros(50));
            }
            if spins % 64 == 0 {
                alive(self)?;
            }
            if t.elapsed() > Duration::from_secs(60) {
                return Err("the derivation worker does not finish its work (deadlock or endless loop)".to_string());
            }
        }
        alive(self)
    }
    /// full step: cycle and derivation
    pub fn step(&mut self) -> Result<bool, String> {
        match self.cycle() {
            Some(m) => {
                self.deliver(m)?;
                Ok(true)
            }
            None => Ok(false),
        }
    }
}

/// collects answers
pub struct Answers {
    pub got: Vec<(T, B)>,
}
impl QHandler for Answers {
    fn answer(&mut self, question: &nar20_1::Term::Term, answer: &Sentence) {
        self.got.push((from_nar(question), belief(answer)));
    }
}
pub fn listen(nar: &Nar) -> Arc<RwLock<Answers>> {
    let a = Arc::new(RwLock::new(Answers { got: vec![] }));
    nar.mem.read().globalQaHandlers.write().push(a.clone());
    a
}

/// waits until the derivation worker of a reasoner did all its work
pub fn drain(nar: &Nar) -> Result<(), String> {
    let dead = || format!("the derivation worker died: {}", crate::run::last_panic());
    let task = lone_task();
    let t = Instant::now();
    let mut sent = false;
    loop {
        if !sent {
            match nar.mem.read().deriverWorkersTx[0].try_send(DeriverWorkMessage { primary: Arc::clone(&task), secondary: vec![], cycleCounter: 0 }) {
                Ok(()) => sent = true,
                Err(std::sync::mpsc::TrySendError::Full(_)) => {}
                Err(_) => return Err(dead()),
            }
        }
        if sent && Arc::strong_count(&task) == 1 {
            return Ok(());
        }
        if nar.mem.read().deriverWorkers[0].is_finished() {
            return Err(dead());
        }
        if t.elapsed() > Duration::from_secs(60) {
            return Err("the derivation does not finish its work (deadlock or endless loop)".to_string());
        }
        std::thread::sleep(Duration::from_micros(100));
    }
}
