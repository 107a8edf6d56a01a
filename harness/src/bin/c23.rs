#![allow(non_snake_case)]
//! C23 environments are simulated as they should be
use nar20_1::EnvPong3::*;
use nar20_1::NarProc::Op;
use nar20_1::{ProcTicTacToe, Reasoner1Entry};
use std::cell::RefCell;
use std::io::Read;
use std::process::{Command, Stdio};
use std::rc::Rc;
use vh::*;

/// one step of Pong
fn step(s: &mut Src, c: &mut Ctx) -> R {
    let mut rng = rand::thread_rng();
    let mut e = makeEnvState();
    ensure!(e.hits == 0 && e.misses == 0 && e.t == 0 && e.batVX == 0, "a new match starts with {} hits, {} misses at time {}", e.hits, e.misses, e.t);
    ensure!(e.ballX > 0 && e.ballX < e.szX - 1 && e.ballY > 0 && e.ballY < e.szY && e.vX.abs() == 1 && e.vY.abs() == 1 && e.batX >= 0 && e.batX < e.szX, "a new match starts with the ball at {} {}, the bat at {}", e.ballX, e.ballY, e.batX);
    e.verbosity = 0;
    if s.chance(1, 3) {
        e.szX = 4 + s.range(0, 60);
        e.szY = 4 + s.range(0, 30);
        e.ballX = s.range(0, e.szX - 1);
        e.ballY = s.range(1, e.szY - 1);
        e.batWidth = 1 + s.range(0, 9);
        e.batX = s.range(0, e.szX - 1);
        e.vX = if s.bool() { 1 } else { -1 };
        e.vY = if s.bool() { 1 } else { -1 };
    }
    // faster balls and bats
    let fast = s.chance(1, 4);
    if s.chance(1, 4) {
        e.mulVX = s.range(1, 3);
    }
    // a long match before
    if s.chance(1, 3) {
        e.hits = s.range(0, 100000);
        e.misses = s.range(0, 100000);
        e.t = e.hits * 40 + s.range(0, 1000000);
    }
    let env = Rc::new(RefCell::new(e));
    let ops: Vec<Rc<Box<dyn Op>>> = [("^L", 1), ("^R", -1)].iter().map(|(x, d)| Rc::new(Box::new(Reasoner1Entry::OpPong { env: Rc::clone(&env), opDir: *d, selfName: x.to_string() }) as Box<dyn Op>)).collect();
    let mut nar = nar20_1::Nar::createNar();
    let (mut rows, mut moved, mut walls) = (0, false, 0);
    for i in 0..60 + s.usize(200) {
        let (x, y, vx, vy, bat, w, hits, misses, t, sx, sy);
        if s.chance(1, 6) {
            let k = s.usize(2);
            ensure!(ops[k].retName() == ["^L", "^R"][k] && ops[k].isBabbleable(), "the operation is {}", ops[k].retName());
            ops[k].call(&mut nar.procNar, &None, &vec![]);
            ensure!(env.borrow().batVX == [1, -1][k], "{} makes the bat move by {}", ops[k].retName(), env.borrow().batVX);
            moved = true;
        } else if fast && s.chance(1, 6) {
            env.borrow_mut().batVX = s.range(-4, 4);
            moved = true;
        }
        let (bv, mul);
        {
            let e = env.borrow();
            x = e.ballX;
            y = e.ballY;
            vx = e.vX;
            vy = e.vY;
            bat = e.batX;
            bv = e.batVX;
            mul = e.mulVX;
            w = e.batWidth;
            hits = e.hits;
            misses = e.misses;
            t = e.t;
            sx = e.szX;
            sy = e.szY;
        }
        simStep(&mut env.borrow_mut(), &mut rng);
        let e = env.borrow();
        if i < 8 {
            c.line(&format!("ball {} {} -> {} {}, bat {} {:+} -> {}", x, y, e.ballX, e.ballY, bat, bv, e.batX));
        }
        ensure!(e.t == t + 1 && e.szX == sx && e.szY == sy && e.batWidth == w && e.batVX == bv, "time, field or bat changed");
        ensure!(mul > 0 || e.ballX >= 0 && e.ballX < sx && e.ballY >= 1 && e.ballY < sy, "the ball is at {} {} outside of the field {} {}", e.ballX, e.ballY, sx, sy);
        // where the ball has to be
        let nvx = if x <= 0 { 1 } else if x >= sx - 1 { -1 } else { vx };
        let nvy = if y <= 0 { 1 } else if y >= sy - 1 { -1 } else { vy };
        let nx = if (t + 1) % 2 == 1 { x + nvx } else { x } + nvx * mul;
        let ny = y + nvy;
        let row = ny == 0;
        let hit = row && (nx - bat).abs() <= w;
        ensure!(e.hits == hits + hit as i64 && e.misses == misses + (row && !hit) as i64, "ball {} {} bat {} width {}: hits {} -> {}, misses {} -> {}", nx, ny, bat, w, hits, e.hits, misses, e.misses);
        rows += row as u32;
        let spawn = row || nx == 0 || nx >= sx - 1;
        walls += (spawn && !row) as u32;
        ensure!(e.was_ball_spawned == spawn, "a new ball: {}, ball at {} {}", e.was_ball_spawned, nx, ny);
        if spawn {
            ensure!(e.ballY >= sy / 2, "the new ball is at {} {}", e.ballX, e.ballY);
            ensure!(e.vX.abs() == 1 && e.vY == nvy, "the new ball moves by {} {}", e.vX, e.vY);
        } else {
            ensure!((e.ballX, e.ballY, e.vX, e.vY) == (nx, ny, nvx, nvy), "the ball moved from {} {} to {} {}", x, y, e.ballX, e.ballY);
        }
        let nb = (bat + bv * w / 2).min(sx - 1 + w).max(w * 2);
        ensure!(e.batX == nb, "the bat moved from {} by {} to {}, not {}", bat, bv, e.batX, nb);
        c.evals += 1;
    }
    c.nontrivial = rows > 0 && moved && walls > 0;
    Ok(())
}

/// games of tic-tac-toe, judged by what is reported
fn games(s: &mut Src, c: &mut Ctx) -> R {
    let seed = s.below(1 << 40);
    let k = s.usize(2);
    let mut child = Command::new(std::env::current_exe().unwrap()).args(["--ttt", &k.to_string()]).env("VH_SEED", seed.to_string()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let mut text = String::new();
    child.stdout.take().unwrap().read_to_string(&mut text).map_err(|e| e.to_string())?;
    let st = child.wait().map_err(|e| e.to_string())?;
    ensure!(st.success(), "playing failed: {}", text.lines().last().unwrap_or(""));
    let mut board = [' '; 9];
    let mut last: Option<char> = None;
    let mut called: Option<usize> = None;
    let (mut games, mut over) = (0, false);
    let winner = |b: &[char; 9]| -> Vec<char> {
        const L: [[usize; 3]; 8] = [[0, 1, 2], [3, 4, 5], [6, 7, 8], [0, 3, 6], [1, 4, 7], [2, 5, 8], [0, 4, 8], [2, 4, 6]];
        L.iter().filter(|l| b[l[0]] != ' ' && l.iter().all(|i| b[*i] == b[l[0]])).map(|l| b[l[0]]).collect()
    };
    let mut pending: Option<char> = None; // result which has to be reported next
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("CALL ^") {
            called = x.trim().parse().ok();
        } else if let Some(x) = l.strip_prefix("NARS stimulus: ") {
            ensure!(pending.is_none(), "the result {:?} of {:?} is not reported", pending, board);
            if over {
                board = [' '; 9];
                over = false;
                last = None;
            }
            let want: String = board.iter().map(|c| if *c == ' ' { 'S' } else { *c }).collect();
            ensure!(x == want, "{} is perceived, the board is {}", x, want);
        } else if l.starts_with("Gamestate") {
            ensure!(pending.is_none(), "the result {:?} of {:?} is not reported", pending, board);
            if over {
                board = [' '; 9];
                over = false;
                last = None;
            }
            let cells: Vec<char> = l.split('[').nth(1).and_then(|x| x.split(']').next()).map(|x| x.split('\'').skip(1).step_by(2).map(|y| y.chars().next().unwrap_or('?')).collect()).unwrap_or_default();
            ensure!(cells.len() == 9, "{:?}", l);
            let diff: Vec<usize> = (0..9).filter(|i| cells[*i] != board[*i]).collect();
            let who = if last == Some('a') { 'b' } else { 'a' };
            ensure!(diff.len() == 1 && board[diff[0]] == ' ' && cells[diff[0]] == who, "{} moved from {:?} to {:?}", who, board, cells);
            if who == 'a' {
                ensure!(called == Some(diff[0]), "{:?} was decided, {} is done", called, diff[0]);
            }
            called = None;
            board[diff[0]] = who;
            last = Some(who);
            let w = winner(&board);
            if !w.is_empty() {
                pending = Some(w[0]);
            } else if !board.contains(&' ') {
                pending = Some('d');
            }
            c.evals += 1;
        } else if let Some(x) = l.strip_prefix("WINNER: ") {
            ensure!(pending == x.chars().next() && pending != Some('d'), "{} is reported to win {:?}", x, board);
            pending = None;
            over = true;
            games += 1;
            c.line(&format!("{:?} {}", board, l));
        } else if l.starts_with("DRAW!") {
            ensure!(pending == Some('d'), "{:?} is reported to be a draw", board);
            pending = None;
            over = true;
            games += 1;
            c.line(&format!("{:?} {}", board, l));
        }
    }
    ensure!(pending.is_none() && games == k + 1, "{} games of {} are finished", games, k + 1);
    c.nontrivial = true;
    Ok(())
}

/// a match of Pong played by the reasoner, judged by what is reported
fn play(s: &mut Src, c: &mut Ctx) -> R {
    let seed = s.below(1 << 40);
    let mut child = Command::new(std::env::current_exe().unwrap()).args(["--pong", "0"]).env("VH_SEED", seed.to_string()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let mut text = String::new();
    child.stdout.take().unwrap().read_to_string(&mut text).map_err(|e| e.to_string())?;
    let st = child.wait().map_err(|e| e.to_string())?;
    ensure!(st.success(), "playing failed: {}", text.lines().last().unwrap_or(""));
    let e = makeEnvState();
    let (sx, w) = (e.szX, e.batWidth);
    let (mut ball, mut bat, mut bv, mut vx) = (e.ballX, e.batX, e.batVX, Some(e.vX));
    let (mut hits, mut misses, mut t) = (0i64, 0i64, 0i64);
    let (mut seen, mut spawned, mut called, mut steps) = (false, false, 0, 0);
    let mut good: Option<bool> = None;
    let mut last = None;
    let field = |l: &str, k: &str| -> Option<i64> { l.split_whitespace().find_map(|x| x.strip_prefix(k)).and_then(|x| x.parse().ok()) };
    for l in text.lines() {
        if l.starts_with("0-1-x") && l.contains("ballX=") {
            ensure!(!seen, "the ball is perceived twice: {}", l);
            let (x, b, d) = (field(l, "ballX=").ok_or(l)?, field(l, "batX=").ok_or(l)?, field(l, "diff=").ok_or(l)?);
            if steps > 0 && !spawned {
                let dx = x - ball;
                let want = if t % 2 == 1 { if ball <= 0 { Some(1) } else if ball >= sx - 1 { Some(-1) } else { vx } } else { Some(0) };
                ensure!(want.map_or(dx.abs() == 1, |y| y == dx), "the ball moved from {} to {} in step {}", ball, x, t);
                if t % 2 == 1 {
                    vx = Some(dx);
                }
            }
            if steps == 0 {
                ensure!(x == ball, "the match starts with the ball at {}", x);
            }
            ensure!(b == bat, "the bat is at {}, not {} (speed {})", b, bat, bv);
            ball = x;
            ensure!(d == x - b, "{}", l);
            let k = if d.abs() <= w { "0-1-xc" } else if d < 0 { "0-1-xl" } else { "0-1-xr" };
            ensure!(l.split_whitespace().next() == Some(k), "{} is perceived, it should be {}", l, k);
            seen = true;
            called = 0;
            spawned = false;
            good = None;
            steps += 1;
            c.evals += 1;
        } else if let Some(x) = l.strip_prefix("CALL ^") {
            called += 1;
            ensure!(seen && called == 1 && (x == "L" || x == "R"), "{}, {} before", l, called);
            bv = if x == "L" { 1 } else { -1 };
        } else if l == "env: good" {
            good = Some(true);
        } else if l == "env: bad" {
            good = Some(false);
        } else if l == "env: respawn ball" {
            spawned = true;
        } else if l.starts_with("PONG") {
            ensure!(seen, "a step without perception: {}", l);
            seen = false;
            t += 1;
            // where the ball came to before it started again
            let v = if ball <= 0 { Some(1) } else if ball >= sx - 1 { Some(-1) } else { vx };
            let nx = if t % 2 == 1 { v.map(|v| ball + v) } else { Some(ball) };
            if let (Some(g), Some(nx)) = (good, nx) {
                ensure!(g == ((nx - bat).abs() <= w), "the ball at {} and the bat at {} are reported as {}", nx, bat, g);
            }
            ensure!(good.is_none() || spawned, "no new ball after the ball came to the bat");
            if spawned && good.is_none() {
                ensure!(nx.map_or(true, |n| n == 0 || n >= sx - 1), "a new ball, the old one is at {:?}", nx);
            }
            if !spawned {
                ensure!(nx.map_or(true, |n| n != 0 && n < sx - 1), "no new ball, the old one is at {:?}", nx);
            } else {
                vx = None;
            }
            hits += (good == Some(true)) as i64;
            misses += (good == Some(false)) as i64;
            bat = (bat + bv * w / 2).min(sx - 1 + w).max(w * 2);
            ensure!(field(l, "Hits=") == Some(hits) && field(l, "misses=") == Some(misses) && field(l, "time=") == Some(t), "{}: there were {} hits and {} misses at {}", l, hits, misses, t);
        } else if l.starts_with("[i] env hits=") {
            last = Some(l.to_string());
        } else if let Some(x) = l.strip_prefix("RATIO ") {
            let r: f64 = x.parse().map_err(|_| l.to_string())?;
            ensure!((r - hits as f64 / (hits + misses) as f64).abs() < 1e-9, "the ratio of {} hits and {} misses is {}", hits, misses, r);
            c.nontrivial = hits > 0 && misses > 0;
        }
    }
    let last = last.ok_or("the result is not reported")?;
    c.line(&last);
    ensure!(field(&last, "hits=") == Some(hits) && field(&last, "misses=") == Some(misses), "{}: there were {} hits and {} misses", last, hits, misses);
    ensure!(steps == 5001 && t == 5001, "{} steps were played", steps);
    Ok(())
}

/// the stress test of the memory
fn chaos(s: &mut Src, c: &mut Ctx) -> R {
    let seed = s.below(1 << 40);
    let mut child = Command::new(std::env::current_exe().unwrap()).args(["--chaos", "0"]).env("VH_SEED", seed.to_string()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let mut text = String::new();
    child.stdout.take().unwrap().read_to_string(&mut text).map_err(|e| e.to_string())?;
    let st = child.wait().map_err(|e| e.to_string())?;
    ensure!(st.success(), "the stress test failed: {}", text.lines().last().unwrap_or(""));
    let k: Option<i64> = text.lines().filter_map(|l| l.strip_prefix("nConcepts=")).last().and_then(|x| x.trim().parse().ok());
    c.line(&format!("concepts: {:?}", k));
    ensure!(k.map_or(false, |k| k > 100 && k <= 1200), "{:?} concepts are known after the stress test", k);
    c.nontrivial = true;
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--ttt" {
        getrandom::verif_reseed(std::env::var("VH_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1));
        ProcTicTacToe::run(a[2].parse().unwrap());
        return;
    }
    if a.len() == 3 && a[1] == "--chaos" {
        getrandom::verif_reseed(std::env::var("VH_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1));
        nar20_1::ProcChaosEntry::procChaosEntry();
        return;
    }
    if a.len() == 3 && a[1] == "--pong" {
        getrandom::verif_reseed(std::env::var("VH_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1));
        println!("RATIO {}", Reasoner1Entry::reasoner1Entry());
        return;
    }
    main_prop(Prop::new(
        "C23",
        vec![
            Part::new("pong", "the bat moved, the ball came to the bat and to a wall", 3000, 100000, step).fresh(),
            Part::new("match", "there were hits and misses", 4, 60, play).hang(400),
            Part::new("chaos", "always", 8, 40, chaos).hang(200),
            Part::new("games", "always", 32, 400, games).hang(200),
        ],
    ));
}
