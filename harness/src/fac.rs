//! Driving the reasoner by lines of text: the observable world, generated lines, intercepted workers.
use crate::att;
use crate::nar::*;
use crate::proc::Ev;
use crate::pscen;
use crate::scen;
use crate::src::Src;
use crate::term::*;
use nar20_1::Nar::*;
use nar20_1::NarInputFacade;
use nar20_1::NarSentence::Sentence;
use nar20_1::NarWorkingCycle::DeriverWorkMessage;
use std::collections::BTreeMap;
use std::sync::mpsc::{sync_channel, Receiver};

/// everything a user can observe of a reasoner, in a form that does not depend on the order of tables
#[derive(Clone, Debug, PartialEq)]
pub struct World {
    pub decl: BTreeMap<String, Vec<String>>,
    pub evidence: BTreeMap<String, Vec<String>>,
    pub tasks: Vec<String>,
    pub questions: Vec<String>,
    pub goals: Vec<String>,
    pub trace: Vec<Ev>,
    pub t: i64,
    pub cycle: i64,
    pub ops: Vec<String>,
    pub babble: bool,
}
fn table(s: &Snap) -> BTreeMap<String, Vec<String>> {
    s.iter()
        .map(|(k, (a, b))| {
            let mut v: Vec<String> = a.iter().map(|x| format!("exp {} {:?} {:?}", x.show(), x.cnt, x.exp_dt)).collect();
            v.extend(b.iter().map(|x| format!("use {} {:?} {:?}", x.show(), x.cnt, x.exp_dt)));
            v.sort();
            (k.show(), v)
        })
        .collect()
}
pub fn world(nar: &Nar) -> World {
    let mut tasks: Vec<String> = tasks(nar).iter().map(|b| b.show()).collect();
    tasks.sort();
    let mut questions: Vec<String> = att::questions(nar).iter().map(|q| q.0.show()).collect();
    questions.sort();
    let mut goals: Vec<String> = {
        let g = nar.procNar.goalSystem.read();
        nar20_1::NarGoalSystem::retEntries(&g)
            .iter()
            .map(|e| {
                let g = crate::proc::gl(e);
                format!("{}! {{{:.5} {:.5}}} depth={}", g.term.show(), g.v.f, g.v.c, g.depth)
            })
            .collect()
    };
    goals.sort();
    let x = World {
        decl: table(&snap_decl(nar)),
        evidence: table(&snap(&nar.procNar.evidenceMem.read())),
        tasks,
        questions,
        goals,
        trace: nar.procNar.trace.ret_view().iter().map(|e| Ev { term: from_nar(&e.name), evi: e.evi, t: e.occT }).collect(),
        t: nar.procNar.t,
        cycle: att::cycle_of(nar),
        ops: nar.procNar.ops.iter().map(|o| o.retName()).collect(),
        babble: nar.procNar.cfgEnBabbling,
    };
    x
}
impl World {
    /// names of the parts in which two worlds differ
    pub fn diff(&self, o: &World) -> Vec<&'static str> {
        let mut r = vec![];
        if self.decl != o.decl {
            r.push("declarative memory");
        }
        if self.evidence != o.evidence {
            r.push("temporal memory");
        }
        if self.tasks != o.tasks {
            r.push("waiting judgements");
        }
        if self.questions != o.questions {
            r.push("questions");
        }
        if self.goals != o.goals {
            r.push("goals");
        }
        if self.trace != o.trace {
            r.push("events");
        }
        if self.t != o.t {
            r.push("time");
        }
        if self.cycle != o.cycle {
            r.push("cycles");
        }
        if self.ops != o.ops {
            r.push("operators");
        }
        if self.babble != o.babble {
            r.push("babbling");
        }
        r
    }
}

/// a reasoner whose workers get nothing to do
pub struct F {
    pub nar: Nar,
    pub work: Receiver<DeriverWorkMessage>,
    pub stored: Receiver<(Sentence, i64)>,
}
impl F {
    pub fn new() -> F {
        let mut nar = createNar();
        wire(&nar);
        nar.procNar.cfg__resourceGoalDeriverPrio = 1.0;
        nar.procNar.goalSystem.write().cfg__dbg_enAddEntry = false;
        let (tx, work) = sync_channel(100000);
        nar.mem.write().deriverWorkersTx[0] = tx;
        let (tx, stored) = sync_channel(100000);
        nar.procNar.storeWorkersTx[0] = tx;
        F { nar, work, stored }
    }
    pub fn feed(&mut self, line: &str) -> (Vec<String>, bool) {
        let mut quit = true;
        let r = NarInputFacade::input(&mut self.nar, &line.to_string(), &mut quit);
        (r, quit)
    }
}

pub fn narsese(s: &mut Src) -> String {
    let ev = s.chance(1, 2);
    let tv = if s.chance(1, 2) {
        let x = scen::truth(s);
        format!(" {{{} {}}}", x.f, x.c)
    } else {
        String::new()
    };
    if ev {
        let t = match s.usize(4) {
            0 => pscen::call(s),
            1 => scen::fact(s, 3),
            _ => pscen::state(s),
        };
        let p = *s.pick(&['.', '.', '.', '!', '!', '?']);
        let tv = if p == '?' { String::new() } else { tv };
        format!("{}{}{} :|:", t.text(), p, tv)
    } else {
        let t = match s.usize(5) {
            0 | 1 => pscen::rule(s),
            2 => st(Cop::Pred, &pscen::state(s), &pscen::state(s)),
            _ => scen::fact(s, 3),
        };
        let p = *s.pick(&['.', '.', '.', '.', '!', '?', '?']);
        let tv = if p == '?' { String::new() } else { tv };
        format!("{}{}{}", t.text(), p, tv)
    }
}
/// the same line with other names: long ones, of letters of several bytes
pub fn rename(line: &str, letter: char, seed: u64) -> String {
    let mut r = String::new();
    let mut w = String::new();
    let mut prev = ' ';
    let flush = |w: &mut String, prev: char, r: &mut String| {
        if !w.is_empty() && !"^!$#?:".contains(prev) && w != "SELF" {
            let mut h = seed;
            for b in w.bytes() {
                h = crate::src::mix(h ^ b as u64);
            }
            r.extend(std::iter::repeat(letter).take((h % 70) as usize));
        }
        r.push_str(w);
        w.clear();
    };
    for c in line.chars() {
        if c.is_ascii_alphabetic() {
            w.push(c);
        } else {
            flush(&mut w, prev, &mut r);
            r.push(c);
            prev = c;
        }
    }
    flush(&mut w, prev, &mut r);
    r
}
/// lines close to commands and to Narsese, and arbitrary ones
pub fn noise(s: &mut Src) -> String {
    match s.usize(10) {
        0 => (*s.pick(&["!", "!!", "!x", "!p", "!po", "!por", "!por ", "!peb", "!peb 2", "!peb 01", "!d", "!dtf ", "!dt ", "!dmd ", "! s", "!S", "!.nlp", "!.nlp ", "!QQ ", "!qq", "!Q", "!pse ", " !s", " ", "  ", "\t", "/", "/ /", "/a"])).to_string(),
        1 => (*s.pick(&["!s x", "!s -", "!s 1 2", "!s 1.5", "!s é", "!sé", "!s\u{00a0}", "!s 99999999999999999999", "!s--1", "!s0x3"])).to_string(),
        2 => (*s.pick(&["!por NOP", "!por nop ^x", "!por NOP ^x ^y", "!por execinj x", "!por nlpRel0 x", "!por other", "!por é", "!por NOPx ^y"])).to_string(),
        3 | 4 => {
            // a damaged sentence
            let mut l: Vec<char> = narsese(s).chars().collect();
            for _ in 0..1 + s.usize(2) {
                let i = s.usize(l.len());
                match s.usize(3) {
                    0 => {
                        l.remove(i);
                    }
                    1 => l.insert(i, *s.pick(&['<', '>', '(', ')', '{', '}', ' ', '.', '?', '!', '$', 'é', '*', ',', '-', '|', ':', '"', '\\', '\0'])),
                    _ => l.truncate(i + 1),
                }
                if l.is_empty() {
                    break;
                }
            }
            l.into_iter().collect()
        }
        _ => {
            let k = s.usize(12);
            (0..k).map(|_| *s.pick(&['a', 'b', '<', '>', '-', ' ', '.', '!', '?', '(', ')', '{', '}', '*', ',', '&', '/', 'é', '日', '\t', '0', ':', '|', '=', '$', '#', '\u{1F600}'])).collect()
        }
    }
}
/// lines which let an operator be executed, with arguments of every kind
pub fn acting(s: &mut Src) -> Vec<String> {
    let g = G { depth: 2, vars: s.chance(1, 4), grammar: true, names: 4 };
    let mut args = vec![coll(K::SetExt, &[n("SELF")])];
    let name = *s.pick(&["^nal9_exeAndInject", "^nlpRel0", "^go", "^none"]);
    let k = if s.chance(1, 4) { 1 + s.usize(4) } else if name == "^nlpRel0" { 1 } else { 2 };
    for i in 0..k {
        args.push(match (name, i, s.usize(5)) {
            ("^nal9_exeAndInject", 0, x) if x > 0 => {
                let m = 2 + s.usize(2);
                T::Coll(K::Seq, (0..m).map(|_| if s.chance(1, 8) { pscen::state(s) } else { pscen::call(s) }).collect())
            }
            ("^nlpRel0", 0, x) if x > 0 => {
                let m = 2 + s.usize(2);
                let mut v: Vec<T> = (0..m).map(|_| pscen::state(s)).collect();
                if s.bool() {
                    v[1] = coll(K::Seq, &[pscen::state(s), n("and"), pscen::state(s)]);
                }
                inh(&T::Coll(K::Prod, v), &n("rel"))
            }
            _ => gen_term(s, &g),
        });
    }
    let a = if s.chance(1, 4) { gen_term(s, &g) } else { pscen::state(s) };
    let goal = n("gg");
    let o = op(&args, name);
    let mut r = vec![
        format!("!por {}", match name {
            "^nal9_exeAndInject" => "execinj",
            "^nlpRel0" => "nlpRel0",
            _ => "NOP ^go",
        }),
        format!("{}.", st(Cop::Pred, &coll(K::Seq, &[a.clone(), o]), &goal).text()),
        format!("{}! :|:", goal.text()),
        format!("{}. :|:", a.text()),
    ];
    for _ in 0..1 + s.usize(3) {
        r.push("!sp".into());
    }
    r
}
/// large and deep sentences
pub fn large(s: &mut Src) -> String {
    if s.chance(1, 12) {
        // nested far beyond any sensible sentence
        let k = 1usize << (4 + s.usize(13));
        let (a, b) = *s.pick(&[("(", ")"), ("<", ">"), ("{", "}"), ("[", "]"), ("<a --> ", ">"), ("(a * ", ")"), ("(a,", ")"), ("{a ", "}")]);
        let core = *s.pick(&["a", "", "<a --> b>"]);
        let close = if s.bool() { b.repeat(k) } else { String::new() };
        return format!("{}{}{}{}", a.repeat(k), core, close, s.pick(&[".", "?", "! :|:", ". :|:", ""]));
    }
    let g = G { depth: 2 + s.usize(6), vars: s.bool(), grammar: true, names: 5 };
    let t = if s.bool() { gen_stmt(s, &g) } else { gen_term(s, &g) };
    format!("{}{}{}", t.text(), s.pick(&[".", ".", "?", "!"]), s.pick(&["", "", " :|:", " {1.0 0.9}", " {0 0}", " {0.0 0.998} :|:"]))
}
