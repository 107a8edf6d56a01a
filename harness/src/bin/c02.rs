#![allow(non_snake_case)]
//! C02 no line stops or hangs the reasoner
use vh::fac::*;
use vh::nar::*;
use vh::*;
use nar20_1::Nar::*;
use nar20_1::NarInputFacade;

fn alive(nar: &Nar, l: &str) -> R {
    ensure!(!nar.mem.read().deriverWorkers[0].is_finished(), "the derivation stopped after {:?}: {}", l, last_panic());
    ensure!(!nar.procNar.storeWorkers[0].is_finished(), "the storing of evidence stopped after {:?}: {}", l, last_panic());
    Ok(())
}
fn feed(nar: &mut Nar, l: &str) -> Vec<String> {
    let mut q = false;
    NarInputFacade::input(nar, &l.to_string(), &mut q)
}
/// a told fact is still found
fn answers(nar: &mut Nar) -> R {
    let a = listen(nar);
    feed(nar, "!dtf");
    feed(nar, "<vh-a --> vh-b>.");
    feed(nar, "<vh-a --> vh-b>?");
    let want = vh::term::inh(&vh::term::n("vh-a"), &vh::term::n("vh-b"));
    let qs = vh::att::questions(nar).len();
    for _ in 0..40 + 40 * qs {
        feed(nar, "!s");
        if a.read().got.iter().any(|x| x.0 == want) {
            return Ok(());
        }
    }
    Err("a fact which was told is not found any more".into())
}
fn lines(s: &mut Src, c: &mut Ctx) -> R {
    let mut nar = createNar();
    wire(&nar);
    let quick = s.chance(3, 4);
    if quick {
        nar.procNar.cfg__resourceGoalDeriverPrio = 1.0;
    }
    if s.bool() {
        feed(&mut nar, "!por NOP ^go");
        feed(&mut nar, "!por NOP ^pick");
    }
    let mut todo: Vec<String> = vec![];
    let k = 3 + s.usize(25);
    let (mut steps, mut cycles, mut told) = (0, 0, 0);
    for _ in 0..k {
        match s.usize(12) {
            0..=3 => todo.push(narsese(s)),
            4 => todo.push(noise(s)),
            5 => todo.push(large(s)),
            6 => todo.extend(acting(s)),
            7 | 8 => todo.push(format!("!s {}", 1 + s.usize(12))),
            9 => todo.push((*s.pick(&["!dt", "!dmd", "!dtf", "!pse", "!peb 0", "!peb 1", "", "// x", "!QQ", "!por execinj", "!por nlpRel0"])).into()),
            10 => {
                // repeat what was said
                if !todo.is_empty() {
                    let i = s.usize(todo.len());
                    todo.push(todo[i].clone());
                }
            }
            _ => todo.push((*s.pick(&["!sp", "!sp", "!spA", "!spB"])).into()),
        }
    }
    // the same with strange names
    if s.chance(1, 3) {
        let (letter, seed) = (*s.pick(&['x', 'é', '日', 'Ж', '𝕏']), s.below(1 << 30));
        for l in todo.iter_mut().filter(|l| !l.starts_with('!') && l.len() < 4000) {
            *l = rename(l, letter, seed);
        }
        c.label("strange names");
    }
    for l in &todo {
        if l.starts_with("!sp") {
            steps += 1;
            if steps > if quick { 60 } else { 12 } {
                continue;
            }
        } else if l.starts_with("!s") {
            cycles += 1;
        } else if !l.starts_with('!') {
            told += 1;
        }
        c.line(&format!("{:?}", l));
        let p = panics();
        feed(&mut nar, l);
        ensure!(panics() == p, "{:?}: {}", l, last_panic());
        alive(&nar, l)?;
        c.evals += 1;
    }
    drain(&nar)?;
    let p = panics();
    answers(&mut nar)?;
    feed(&mut nar, "!sp");
    ensure!(panics() == p, "after the lines: {}", last_panic());
    alive(&nar, "the last line")?;
    c.nontrivial = cycles > 0 && steps > 0 && told > 2;
    Ok(())
}

fn main() {
    main_prop(Prop::new("C02", vec![Part::new("lines", "sentences, cycles and steps were given to one reasoner", 16000, 600000, lines).fresh().hang(120)]));
}
