#![allow(non_snake_case)]
//! C18 each line of input does what its command says and nothing else
use nar20_1::NarInputFacade;
use std::io::Write;
use vh::fac::*;
use vh::nar::*;
use vh::proc::*;
use vh::pscen;
use vh::refparse;
use vh::term::*;
use vh::*;

fn command(s: &mut Src) -> String {
    match s.usize(16) {
        0 => format!("//{}", narsese(s)),
        1 => (*s.pick(&["//", "// !QQ", "//!s 5", "///", "//é"])).to_string(),
        2 => "!s".into(),
        3 | 4 => format!("{}{}", s.pick(&["!s ", "!s", "!s  ", "!s \t", "!s +"]), s.usize(9)),
        5 => {
            if s.chance(1, 3) {
                format!("!s {}", 9 + s.usize(300))
            } else {
                format!("!s -{}", s.usize(5))
            }
        }
        6 => "!sp".into(),
        7 => (*s.pick(&["!spA", "!spB", "!sp 1", "!sp5", "!spC", "!spA ", "!spx"])).into(),
        8 => "!dtf".into(),
        9 => format!("!por {}NOP{}{}{}", s.pick(&["", " "]), s.pick(&[" ", "  ", "\t"]), s.pick(&["^go", "^x", "nop", "^é"]), s.pick(&["", " "])),
        10 => (*s.pick(&["!por execinj", "!por nlpRel0", "!por  execinj "])).into(),
        11 => "!pse".into(),
        12 => (*s.pick(&["!peb 0", "!peb 1"])).into(),
        13 => "!dt".into(),
        14 => "!dmd".into(),
        _ => (*s.pick(&["!QQ", "", "", "!QQ"])).into(),
    }
}

/// what a line may change
fn one(f: &mut F, raw: &str) -> R {
    let l = raw.trim_end_matches(|c| c == '\n' || c == '\r').to_string();
    while f.work.try_recv().is_ok() {}
    while f.stored.try_recv().is_ok() {}
    let before = world(&f.nar);
    let live = vh::att::waiting(&f.nar);
    let (lines, quit) = f.feed(raw);
    let after = world(&f.nar);
    let diff = after.diff(&before);
    let sent = f.work.try_iter().count() as i64;
    let observed = f.stored.try_iter().count();
    ensure!(quit == (l == "!QQ"), "quit is {} after {:?}", quit, raw);
    let only = |ok: &[&str]| -> R {
        for d in &diff {
            ensure!(ok.contains(d), "{:?} changed the {}", raw, d);
        }
        Ok(())
    };
    let silent = |x: i64| -> R {
        ensure!(sent == x, "{:?} gave work to the derivation {} times, not {}", raw, sent, x);
        Ok(())
    };
    let answer = |want: bool| -> R {
        ensure!(want || lines.is_empty(), "{:?} returns {:?}", raw, lines);
        Ok(())
    };
    if l.starts_with("!sp") && l != "!spA" && l != "!spB" {
        ensure!(after.t == before.t + 1, "{:?}: time {} -> {}", raw, before.t, after.t);
        ensure!(after.trace.len() + 1 >= before.trace.len().min(10), "events are lost by {:?}", raw);
        only(&["time", "events", "goals", "temporal memory"])?;
        silent(0)?;
        return answer(false);
    }
    if l == "!spA" {
        only(&["temporal memory"])?;
        silent(0)?;
        return answer(false);
    }
    if l == "!spB" {
        ensure!(after.t == before.t + 1, "{:?}: time {} -> {}", raw, before.t, after.t);
        only(&["time", "events", "goals", "temporal memory"])?;
        ensure!(observed == 0, "{:?} perceived", raw);
        silent(0)?;
        return answer(false);
    }
    ensure!(observed == 0, "{:?} perceived", raw);
    if l.starts_with("//") || l.is_empty() || l == "!QQ" || l == "!pse" {
        only(&[])?;
        silent(0)?;
        return answer(false);
    }
    if l.starts_with("!s") {
        answer(false)?;
        let rest = l[2..].trim();
        let k = if l.len() == 2 { Some(1) } else { rest.parse::<i64>().ok() };
        let k = match k {
            Some(k) => k.max(0),
            None => {
                only(&[])?;
                return silent(0);
            }
        };
        ensure!(after.cycle == before.cycle + k, "{:?}: {} cycles", raw, after.cycle - before.cycle);
        let cut = after.cycle / 111 != before.cycle / 111;
        let turn = after.cycle / 173 != before.cycle / 173;
        only(if turn { &["cycles", "waiting judgements", "declarative memory"] } else { &["cycles", "waiting judgements"] })?;
        if !cut {
            silent(k.min(live.len() as i64))?;
            ensure!(after.tasks.len() as i64 == (live.len() as i64 - k).max(0), "{:?}: {} of {} judgements wait", raw, after.tasks.len(), live.len());
        }
        return Ok(());
    }
    silent(0)?;
    if l == "!dtf" {
        only(&["waiting judgements"])?;
        ensure!(after.tasks.is_empty(), "judgements wait after {:?}", raw);
        return answer(false);
    }
    if l == "!peb 0" || l == "!peb 1" {
        only(&["babbling"])?;
        ensure!(after.babble == (l == "!peb 1"), "babbling is {} after {:?}", after.babble, raw);
        return answer(false);
    }
    if l == "!dt" {
        only(&[])?;
        ensure!(lines.len() == live.len(), "{:?}: {} lines for {} waiting judgements", raw, lines.len(), live.len());
        let mut left: Vec<String> = live.values().map(|t| t.b.term.text().replace(' ', "")).collect();
        for x in &lines {
            match left.iter().position(|y| x.replace(' ', "").contains(&format!("{}.", y))) {
                Some(i) => {
                    left.remove(i);
                }
                None => return Err(format!("{:?} reports {:?}, which is none of {:?}", raw, x, left)),
            }
            // priority
            let p = x.rsplit("credit=").next().and_then(|y| y.parse::<f64>().ok());
            let ok = p.map(|p| live.values().any(|t| vh::att::rel_eq(vh::att::priority(t, before.cycle), p)));
            ensure!(ok == Some(true), "{:?} reports {:?} with the wrong priority", raw, x);
        }
        return Ok(());
    }
    if l == "!dmd" {
        only(&[])?;
        ensure!(lines.len() == 1 && lines[0].split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect::<Vec<_>>() == vec![before.decl.len().to_string()], "{:?} reports {:?}, there are {} concepts", raw, lines, before.decl.len());
        return Ok(());
    }
    answer(false)?;
    if let Some(args) = l.strip_prefix("!por ") {
        let a: Vec<&str> = args.split_whitespace().collect();
        let mut want = before.ops.clone();
        match &a[..] {
            ["execinj"] => want.push("^nal9_exeAndInject".into()),
            ["nlpRel0"] => want.push("^nlpRel0".into()),
            ["NOP", x] => want.push(x.to_string()),
            _ => {}
        }
        only(&["operators"])?;
        ensure!(after.ops == want, "{:?}: operators {:?}", raw, after.ops);
        return Ok(());
    }
    // a sentence
    let (t, fr, cf, p, ev) = match refparse::line(&l) {
        Some(x) => x,
        None => return only(&[]),
    };
    let temporal = matches!(&t, T::Stmt(Cop::Pred, _, _));
    if ev && p == '!' {
        only(&["goals"])?;
        let want = format!("{}! {{{:.5} {:.5}}} depth=0", t.show(), fr, cf);
        let made = vh::proc::goals_of(&f.nar).into_iter().filter(|g| g.created == before.t && g.depth == 0 && g.term == t).count();
        ensure!(made >= 1, "no goal {:?} is new at {}", raw, before.t);
        let cnt = |w: &World| w.goals.iter().filter(|g| **g == want).count();
        ensure!(cnt(&after) == cnt(&before) + 1 && after.goals.len() == before.goals.len() + 1, "the goal {:?} is not pursued: {:?}", raw, after.goals);
        return Ok(());
    }
    if p == '?' {
        if t.complexity() > 64 {
            return only(&[]);
        }
        // the question itself may leave concepts of its terms
        only(&["questions", "declarative memory"])?;
        ensure!(after.questions.len() == before.questions.len() + 1 && after.questions.contains(&t.show()), "the question {:?} is not asked: {:?}", raw, after.questions);
        return Ok(());
    }
    if ev {
        only(&["events"])?;
        let mut want = before.trace.clone();
        want.push(Ev { term: t, evi: before.t, t: before.t });
        let tail = |v: &[Ev], k: usize| v[v.len() - k.min(v.len())..].to_vec();
        let k = after.trace.len();
        ensure!(k >= 1 && k >= before.trace.len() && after.trace == tail(&want, k), "{:?}: events {:?}", raw, after.trace);
        return Ok(());
    }
    if p == '!' {
        return only(&[]);
    }
    if temporal {
        let seq = matches!(&t, T::Stmt(_, a, _) if matches!(**a, T::Coll(K::Seq, _)));
        if !seq {
            return only(&[]);
        }
        only(&["temporal memory"])?;
        if let T::Stmt(_, _, b) = &t {
            let b = after.evidence.get(&b.show());
            ensure!(b.map_or(false, |v| v.iter().any(|x| x.contains(&t.show()))), "{:?} is not known", raw);
        }
        return Ok(());
    }
    if t.complexity() > 64 {
        return only(&[]);
    }
    only(&["declarative memory", "waiting judgements"])?;
    ensure!(after.tasks.iter().any(|x| x.starts_with(&format!("{}. ", t.show()))), "{:?} does not wait for reasoning", raw);
    Ok(())
}

fn history(s: &mut Src, c: &mut Ctx) -> R {
    let mut f = F::new();
    let k = 4 + s.usize(30);
    let mut kinds = std::collections::BTreeSet::new();
    let strange = if s.chance(1, 5) { Some(*s.pick(&['x', 'é', '日', '𝕏'])) } else { None };
    if s.chance(1, 8) {
        vh::att::set_cycle(&f.nar, s.range(0, 400));
    }
    for _ in 0..k {
        let mut l = match s.usize(10) {
            0..=4 => narsese(s),
            5 => noise(s),
            _ => command(s),
        };
        if !l.starts_with('!') {
            if let Some(ch) = strange {
                l = rename(&l, ch, 7);
            }
        }
        if s.chance(1, 6) {
            l.push_str(s.pick(&["\n", "\r\n", "\n\n", "\r", "\r\n\r\n", "\n\n\n\n"]));
        }
        // the natural language module is judged elsewhere
        if l.starts_with("!.nlp ") {
            continue;
        }
        c.line(&format!("{:?}", l));
        one(&mut f, &l)?;
        c.evals += 1;
        kinds.insert(if l.starts_with('!') { l.chars().take(4).collect::<String>() } else { "n".into() });
        // known behaviour of stepping: what was decided is no longer predictable from the lines
        if f.nar.procNar.t > 60 {
            break;
        }
    }
    c.nontrivial = kinds.len() >= 4;
    Ok(())
}

/// the two halves of a step together are a step; perception belongs to the first half
fn halves(s: &mut Src, c: &mut Ctx) -> R {
    let mut f = F::new();
    f.feed("!peb 0");
    f.feed("!por NOP ^go");
    let gap = 1 + s.usize(3);
    let (a, b) = (pscen::state(s), n("z"));
    let mut seen = 0;
    let mut lines = vec![format!("{}. :|:", a.text())];
    let step = |s: &mut Src| -> Vec<String> {
        if s.bool() {
            vec!["!sp".into()]
        } else {
            vec!["!spA".into(), "!spB".into()]
        }
    };
    for _ in 0..gap {
        lines.extend(step(s));
    }
    lines.push("<{({SELF})} --> ^go>. :|:".replace("({SELF})", "({SELF}*a)"));
    lines.extend(step(s));
    lines.push(format!("{}. :|:", b.text()));
    for l in &lines {
        c.line(l);
        f.feed(l);
    }
    ensure!(f.nar.procNar.t == gap as i64 + 1, "{} steps took the time {}", gap + 1, f.nar.procNar.t);
    while f.stored.try_recv().is_ok() {}
    // perceiving samples at random
    for _ in 0..60 {
        let w = world(&f.nar);
        f.feed("!spA");
        ensure!(world(&f.nar) == w, "!spA changed the {:?}", world(&f.nar).diff(&w));
        for (e, _) in f.stored.try_iter() {
            let _ = belief(&e);
            seen += 1;
        }
        c.evals += 1;
    }
    ensure!(seen > 0, "the first half of the step does not perceive");
    for _ in 0..4 {
        f.feed("!spB");
        ensure!(f.stored.try_iter().count() == 0, "the second half of the step perceives");
    }
    c.nontrivial = true;
    Ok(())
}

/// switching babbling and registering operators has the effect on acting which is promised
fn acting(s: &mut Src, c: &mut Ctx) -> R {
    let mut f = F::new();
    let names = ["^go", "^x", "nop", "^left", "^up2", "^pick", "^a", "^b", "^c", "^d", "^e"];
    let k = if s.chance(1, 5) { 5 + s.usize(16) } else { 1 + s.usize(4) };
    let mut wants: Vec<T> = vec![];
    let mut lines = vec![];
    for _ in 0..k {
        let name = *s.pick(&names);
        lines.push(format!("!por NOP {}", name));
        wants.push(op(&[coll(K::SetExt, &[n("SELF")])], name));
    }
    let mut done: std::collections::BTreeSet<T> = Default::default();
    let mut steps_on = 0;
    for l in &lines {
        c.line(l);
        f.feed(l);
    }
    // switched on and off; it acts only while it is on
    for _ in 0..1 + s.usize(5) {
        let on = s.bool();
        if s.chance(1, 3) {
            f.feed(&format!("!peb {}", 1 - on as i32));
        }
        let l = format!("!peb {}", on as i32);
        c.line(&l);
        f.feed(&l);
        let n_steps = 1 + s.usize(60);
        for _ in 0..n_steps {
            f.feed("!sp");
            let x = f.nar.procNar.trace.ret_view();
            let now = f.nar.procNar.t - 1;
            for e in x.iter().filter(|e| e.occT == now) {
                let e = from_nar(&e.name);
                ensure!(on, "{} is done although babbling is disabled", e.show());
                ensure!(wants.contains(&e), "{} was done, only {:?} is possible", e.show(), lines);
                done.insert(e);
            }
        }
        c.line(&format!("!sp {} times", n_steps));
        steps_on += if on { n_steps } else { 0 };
    }
    if s.chance(1, 3) {
        f.feed("!peb 1");
        let all: std::collections::BTreeSet<T> = wants.iter().cloned().collect();
        for _ in 0..8000 {
            f.feed("!sp");
            let now = f.nar.procNar.t - 1;
            done.extend(f.nar.procNar.trace.ret_view().iter().filter(|e| e.occT == now).map(|e| from_nar(&e.name)));
            if done == all {
                break;
            }
        }
        ensure!(done == all, "of {:?} only {} are ever done by babbling", lines, done.len());
        c.label("all operations are tried");
    }
    // and what is not registered is never done
    let mut f = F::new();
    f.feed("!peb 1");
    for _ in 0..50 {
        f.feed("!sp");
    }
    ensure!(f.nar.procNar.trace.ret_view().is_empty(), "acts without operators");
    c.nontrivial = steps_on > 0;
    c.evals += 2;
    Ok(())
}

/// a file is the same as its lines, up to the line which quits
fn file(s: &mut Src, c: &mut Ctx) -> R {
    let dir = std::env::temp_dir().join(format!("vh-c18-{}-{}", std::process::id(), s.below(u64::MAX)));
    std::fs::create_dir_all(&dir).map_err(|e| format!("setup: {}", e))?;
    let r = file_in(s, c, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn file_in(s: &mut Src, c: &mut Ctx, dir: &std::path::Path) -> R {
    let k = s.usize(16);
    let mut lines: Vec<String> = vec![];
    for _ in 0..k {
        let l = match s.usize(10) {
            0..=5 => narsese(s),
            6 => noise(s).replace('\n', "").replace('\r', ""),
            7 if s.chance(1, 3) => {
                // something before or after what is well-formed
                let l = if s.bool() { narsese(s) } else { command(s) };
                match s.usize(3) {
                    0 => format!("{}{}", s.pick(&[" ", "\t", "  "]), l),
                    _ => format!("{}{}", l, s.pick(&[" // x", "// x", " # x", " ", "\t", " ; x", " /* */"])),
                }
            }
            8 if s.chance(1, 6) => format!("<{}a --> {}b>.", "long_".repeat(s.usize(95)), "name-".repeat(s.usize(95))),
            _ => command(s),
        };
        if l.starts_with("!.nlp ") || l.starts_with("!sp") && l != "!spB" {
            continue;
        }
        if l == "!QQ" && s.chance(2, 3) {
            continue;
        }
        lines.push(l);
    }
    let path = dir.join("in.nal");
    let nl = *s.pick(&["\n", "\r\n"]);
    let mut text = lines.join(nl);
    if s.bool() {
        text.push_str(nl);
    }
    std::fs::File::create(&path).and_then(|mut f| f.write_all(text.as_bytes())).map_err(|e| format!("setup: {}", e))?;
    // bytes which are no text
    let mut bytes = text.clone().into_bytes();
    if !lines.is_empty() && s.chance(1, 6) {
        let at = s.usize(lines.len() + 1);
        let pos: usize = lines[..at].iter().map(|x| x.len() + nl.len()).sum();
        let pos = pos.min(bytes.len());
        let ends = pos == 0 || bytes[pos - 1] == b'\n';
        if ends {
            let junk: Vec<u8> = [&[b'<', 0xff, b'a', 0xc3][..], nl.as_bytes()].concat();
            let tail = bytes.split_off(pos);
            bytes.extend(junk);
            bytes.extend(tail);
            std::fs::File::create(&path).and_then(|mut f| f.write_all(&bytes)).map_err(|e| format!("setup: {}", e))?;
            c.label("bytes which are no text");
        }
    }
    for l in &lines {
        c.line(l);
    }
    let (mut a, mut b) = (F::new(), F::new());
    a.nar.procNar.cfgEnBabbling = false;
    b.nar.procNar.cfgEnBabbling = false;
    let mut quit = s.bool();
    let was = quit;
    let p = if s.chance(1, 12) { dir.join("missing.nal") } else { path };
    nar20_1::NarUtilReadn::readNarseseFile(&mut a.nar, &p.to_str().unwrap().to_string(), &mut quit);
    if !p.exists() {
        ensure!(world(&a.nar) == world(&b.nar), "a missing file changed the reasoner");
        ensure!(quit == was, "a missing file quits");
        return Ok(());
    }
    let mut q = false;
    let mut any = false;
    // random choices can not matter: no babbling, no full steps
    for l in &lines {
        if l == "!peb 1" && lines.iter().any(|x| x == "!spB") {
            // babbling would be random
            return Ok(());
        }
    }
    for l in text.lines() {
        any = true;
        NarInputFacade::input(&mut b.nar, &l.to_string(), &mut q);
        if q {
            break;
        }
    }
    ensure!(!any || quit == q, "the file ends with quit {}, its lines with {}", quit, q);
    // generalisations pick names and places of variables at random
    let plain = |n: &nar20_1::Nar::Nar| {
        let mut w = world(n);
        w.evidence.retain(|k, _| !k.contains('$'));
        for v in w.evidence.values_mut() {
            v.retain(|x| !x.contains('$'));
        }
        w
    };
    let d = plain(&a.nar).diff(&plain(&b.nar));
    ensure!(d.is_empty(), "a file and its lines differ in the {:?}", d);
    ensure!(a.work.try_iter().count() == b.work.try_iter().count(), "a file and its lines differ in the work given to the derivation");
    c.evals += 1;
    c.nontrivial = lines.len() >= 4;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C18",
        vec![
            Part::new("history", "at least four kinds of lines were given to one reasoner", 6000, 120000, history).fresh(),
            Part::new("halves", "perceived evidence was awaited", 150, 3000, halves).fresh(),
            Part::new("acting", "some steps with babbling enabled", 500, 6000, acting).fresh(),
            Part::new("file", "at least four lines", 2500, 50000, file).fresh(),
        ],
    ));
}
