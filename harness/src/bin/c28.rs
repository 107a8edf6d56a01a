#![allow(non_snake_case)]
//! C28 what works is learned from experience, and forgotten when it works no longer
use nar20_1::EnvPong3::*;
use nar20_1::Reasoner1Entry;
use std::cell::RefCell;
use std::rc::Rc;
use vh::proc::*;
use vh::rules::v;
use vh::term::*;
use vh::*;

/// what works is learned from trying
struct Learner {
    p: P,
    names: Vec<String>,
    /// for each situation the operations which lead to the good one by one
    right: Vec<Vec<usize>>,
}
impl Learner {
    fn new(no: usize, right: Vec<Vec<usize>>, anticipate: bool) -> Learner {
        let names: Vec<String> = (0..no).map(|i| format!("^op{}", i)).collect();
        let mut p = P::new(&names.iter().map(|x| (x.as_str(), true, 3)).collect::<Vec<_>>());
        p.nar.procNar.cfg__enAnticipation = anticipate;
        Learner { p, names, right }
    }
    fn cycle(&mut self) -> R {
        self.p.step0();
        let m = self.p.captured();
        self.p.store(m)?;
        self.p.step1();
        for _ in 0..6 {
            self.p.derive();
        }
        Ok(())
    }
    /// what was done in situation i
    fn episode(&mut self, i: usize, babble: bool) -> Result<Vec<usize>, String> {
        let good = n("good");
        self.p.goal(&good, v(1.0, 0.9));
        let mut done = vec![];
        for j in 0..self.right[i].len() {
            let m0 = self.p.calls.borrow().len();
            self.p.nar.procNar.cfgEnBabbling = babble;
            self.p.event(&n(&format!("s{}-{}", i, j)));
            let mut tries = 0;
            while self.p.calls.borrow().len() == m0 && tries < 4 {
                self.cycle()?;
                tries += 1;
            }
            self.p.nar.procNar.cfgEnBabbling = false;
            let did = self.p.calls.borrow().get(m0).map(|x| self.names.iter().position(|y| *y == x.0).unwrap());
            match did {
                None => break,
                Some(o) => {
                    done.push(o);
                    if o != self.right[i][j] {
                        self.p.event(&n(&format!("bad{}", i)));
                        break;
                    }
                    if j + 1 == self.right[i].len() {
                        self.p.event(&good);
                    }
                }
            }
        }
        // time passes until the next episode
        self.cycle()?;
        self.p.nar.procNar.trace.force_flush();
        Ok(done)
    }
    /// share of the situations which are mastered without trying
    fn exam(&mut self, rounds: usize) -> Result<(usize, usize), String> {
        let mut won = 0;
        for j in 0..rounds * self.right.len() {
            let i = j % self.right.len();
            won += (self.episode(i, false)? == self.right[i]) as usize;
        }
        Ok((won, rounds * self.right.len()))
    }
}
fn learn(s: &mut Src, c: &mut Ctx) -> R {
    let k = 1 + s.usize(5);
    let no = 1 + s.usize(5);
    let mut l = Learner::new(no, (0..k).map(|_| vec![s.usize(no)]).collect(), s.bool());
    c.line(&format!("{} operations, right ones {:?}", no, l.right));
    for _ in 0..30 * k * no {
        let i = s.usize(k);
        l.episode(i, true)?;
    }
    let (won, of) = l.exam(6)?;
    c.line(&format!("{} of {} are right", won, of));
    ensure!(won * 6 >= of * 5, "{} of {} situations are mastered: {:?}", won, of, l.right);
    c.nontrivial = k > 1 && no > 1;
    Ok(())
}
fn chain(s: &mut Src, c: &mut Ctx) -> R {
    let k = 1 + s.usize(2);
    let no = 1 + s.usize(3);
    let mut l = Learner::new(no, (0..k).map(|_| vec![s.usize(no), s.usize(no)]).collect(), true);
    c.line(&format!("{} operations, right ones {:?}", no, l.right));
    for _ in 0..60 * k * no * no {
        let i = s.usize(k);
        l.episode(i, true)?;
    }
    let (won, of) = l.exam(6)?;
    c.line(&format!("{} of {} are right", won, of));
    ensure!(won * 2 >= of, "{} of {} situations are mastered: {:?}", won, of, l.right);
    c.nontrivial = no > 1;
    Ok(())
}
fn relearn(s: &mut Src, c: &mut Ctx) -> R {
    let k = 1 + s.usize(3);
    let no = 2 + s.usize(3);
    let mut l = Learner::new(no, (0..k).map(|_| vec![s.usize(no)]).collect(), true);
    c.line(&format!("{} operations, right ones {:?}", no, l.right));
    for _ in 0..30 * k * no {
        let i = s.usize(k);
        l.episode(i, true)?;
    }
    let (won, of) = l.exam(4)?;
    // the world changes
    for x in 0..k {
        l.right[x][0] = (l.right[x][0] + 1 + s.usize(no - 1)) % no;
    }
    for _ in 0..400 * k * no {
        let i = s.usize(k);
        l.episode(i, true)?;
    }
    let (won2, of2) = l.exam(4)?;
    c.line(&format!("{} of {} are right, later {} of {}", won, of, won2, of2));
    ensure!(won * 6 >= of * 5, "{} of {} situations are mastered", won, of);
    ensure!(won2 * 6 >= of2 * 5, "{} of {} situations are mastered after the world changed: {:?}", won2, of2, l.right);
    c.nontrivial = true;
    Ok(())
}

/// Pong is played better than by chance
fn play(s: &mut Src, c: &mut Ctx) -> R {
    let mut rng = rand::thread_rng();
    let (mut hits, mut misses) = (0, 0);
    let mut scores = vec![];
    for _ in 0..4 {
        let mut e = makeEnvState();
        e.verbosity = 0;
        let env = Rc::new(RefCell::new(e));
        let mut p = P::new(&[]);
        for (x, d) in [("^L", 1), ("^R", -1)] {
            p.nar.procNar.ops.push(Rc::new(Box::new(Reasoner1Entry::OpPong { env: Rc::clone(&env), opDir: d, selfName: x.to_string() })));
        }
        for t in 0..4000 {
            if t % 10 == 0 {
                p.goal(&n("0-1-xc"), v(1.0, 0.9));
            }
            p.step0();
            let m = p.captured();
            p.store(m)?;
            let (diff, w) = {
                let e = env.borrow();
                (e.ballX - e.batX, e.batWidth)
            };
            p.event(&n(if diff.abs() <= w { "0-1-xc" } else if diff < 0 { "0-1-xl" } else { "0-1-xr" }));
            p.step1();
            for _ in 0..3 {
                p.derive();
            }
            simStep(&mut env.borrow_mut(), &mut rng);
        }
        let e = env.borrow();
        hits += e.hits;
        misses += e.misses;
        scores.push(e.hits as f64 / (e.hits + e.misses).max(1) as f64);
        let _ = s.bool();
    }
    let r = hits as f64 / (hits + misses).max(1) as f64;
    c.line(&format!("{} hits, {} misses: {:.3} {:?}", hits, misses, r, scores));
    ensure!(r > 0.33, "{} of {} balls are hit", hits, hits + misses);
    c.nontrivial = hits + misses > 200;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C28",
        vec![
            Part::new("learn", "several situations and operations", 160, 6000, learn).fresh(),
            Part::new("chain", "several operations", 96, 4000, chain).fresh(),
            Part::new("relearn", "several operations", 64, 2000, relearn).fresh(),
            Part::new("play", "200 balls came to the bat", 16, 400, play).fresh(),
        ],
    ));
}
