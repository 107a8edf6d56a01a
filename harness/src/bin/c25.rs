#![allow(non_snake_case)]
//! C25 the server: every client's lines reach the reasoner in order, every message reaches every client once
use std::io::{BufRead, BufReader, Write};
use std::net::{Shutdown, TcpStream};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};
use vh::fac::F;
use vh::*;

const ADDR: &str = "127.0.0.1:2039";
const IDLE: [&str; 5] = ["// nothing", "", "//", " ", "\t"];
struct Server(Child);
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
impl Server {
    fn start(seed: u64) -> Result<Server, String> {
        let c = Command::new(std::env::current_exe().unwrap()).args(["--srv", "0"]).env("VH_SEED", seed.to_string()).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
        Ok(Server(c))
    }
    fn alive(&mut self) -> R {
        match self.0.try_wait() {
            Ok(None) => Ok(()),
            x => Err(format!("the server stopped: {:?}", x)),
        }
    }
}
struct Client {
    s: TcpStream,
    rx: Receiver<String>,
    got: Vec<String>,
    want: Vec<String>,
    /// the line it sends when it only fetches messages
    idle: &'static str,
}
impl Client {
    fn connect() -> Result<Client, String> {
        let t0 = Instant::now();
        let s = loop {
            match TcpStream::connect(ADDR) {
                Ok(s) => break s,
                Err(e) => {
                    if t0.elapsed() > Duration::from_secs(20) {
                        return Err(format!("no connection to the server: {}", e));
                    }
                    std::thread::sleep(Duration::from_millis(2));
                }
            }
        };
        let _ = s.set_nodelay(true);
        let (tx, rx) = channel();
        let r = BufReader::new(s.try_clone().map_err(|e| e.to_string())?);
        std::thread::spawn(move || {
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Ok(Client { s, rx, got: vec![], want: vec![], idle: "// nothing" })
    }
    fn send(&mut self, l: &str) -> R {
        self.s.write_all(format!("{}\n", l).as_bytes()).map_err(|e| format!("the connection is lost: {}", e))
    }
    fn poll(&mut self, ms: u64) -> R {
        self.send(self.idle)?;
        while let Ok(l) = self.rx.recv_timeout(Duration::from_millis(ms)) {
            self.got.push(l);
            if self.got.len() > self.want.len() + 200 {
                break;
            }
        }
        Ok(())
    }
    fn wait(&mut self, step: Option<&str>) -> R {
        let t0 = Instant::now();
        while self.got.len() < self.want.len() {
            if let Some(x) = step {
                self.send(x)?;
            }
            self.poll(2)?;
            if t0.elapsed() > Duration::from_secs(15) {
                return Err(format!("a client got {:?}, not {:?}", self.got, self.want));
            }
        }
        self.same()
    }
    fn same(&self) -> R {
        let norm = |v: &[String]| -> Vec<String> { v.iter().map(|x| x.replace(' ', "")).collect() };
        ensure!(norm(&self.got) == norm(&self.want), "a client got {:?}, not {:?}", self.got, self.want);
        Ok(())
    }
}
fn session(s: &mut Src, c: &mut Ctx) -> R {
    let mut srv = Server::start(s.below(1 << 40))?;
    let mut twin = F::new();
    let mut cl: Vec<Client> = vec![];
    let mut names = 0;
    let k = 4 + s.usize(14);
    let mut told: Vec<String> = vec![];
    let mut asked: Vec<String> = vec![];
    let (mut stepped, mut most, mut answers) = (false, 0, 0);
    // a new client is connected when it got the answer to its first line
    let enter = |cl: &mut Vec<Client>, twin: &mut F, srv: &mut Server, idle: &'static str| -> R {
        cl.push(Client::connect()?);
        srv.alive()?;
        let i = cl.len() - 1;
        cl[i].idle = idle;
        cl[i].send("!dmd")?;
        let m = twin.feed("!dmd").0;
        for x in cl.iter_mut() {
            x.want.extend(m.clone());
            x.wait(None)?;
        }
        Ok(())
    };
    let idle = *s.pick(&IDLE);
    enter(&mut cl, &mut twin, &mut srv, idle)?;
    for _ in 0..k {
        most = most.max(cl.len());
        srv.alive()?;
        let i = s.usize(cl.len());
        match s.usize(10) {
            0 if cl.len() < 4 => {
                c.line("a client comes");
                let idle = *s.pick(&IDLE);
                enter(&mut cl, &mut twin, &mut srv, idle)?;
            }
            1 if cl.len() > 1 => {
                c.line("a client leaves");
                let x = cl.remove(i);
                if s.bool() {
                    let _ = x.s.shutdown(Shutdown::Both);
                }
            }
            2 => {
                // guests which misbehave
                match s.usize(3) {
                    0 => {
                        c.line("a guest says nothing");
                        drop(TcpStream::connect(ADDR));
                    }
                    1 => {
                        c.line("a guest says something which is no text");
                        if let Ok(mut g) = TcpStream::connect(ADDR) {
                            let _ = g.write_all(&[0xff, 0xfe, b'\n', 0xc3, b'\n']);
                        }
                    }
                    _ => {
                        c.line("a guest breaks the connection at once");
                        for _ in 0..8 {
                            reset_guest();
                        }
                    }
                }
                std::thread::sleep(Duration::from_millis(5));
                srv.alive()?;
            }
            3 | 4 => {
                names += 1;
                let mut batch = vec![];
                let long = s.chance(1, 4);
                for j in 0..1 + s.usize(4) {
                    let pad = if long { "_long".repeat(1 + s.usize(60)) } else { String::new() };
                    batch.push(format!("<a{}-{}{} --> b{}-{}>. {{0.{} 0.9}}", names, j, pad, names, j, 1 + s.usize(9)));
                }
                c.line(&format!("{:?}", batch));
                // at once
                let text: String = batch.iter().map(|l| format!("{}\n", l)).collect();
                cl[i].s.write_all(text.as_bytes()).map_err(|e| e.to_string())?;
                for l in &batch {
                    twin.feed(l);
                    told.push(l.split('.').next().unwrap().to_string());
                }
                // known to the next one after the messages are in order
                cl[i].send("!dmd")?;
                let m = twin.feed("!dmd").0;
                for x in cl.iter_mut() {
                    x.want.extend(m.clone());
                    x.wait(None)?;
                }
            }
            5 | 6 => {
                if stepped {
                    continue;
                }
                c.line("!dt");
                cl[i].send("!dt")?;
                let m = twin.feed("!dt").0;
                if m.len() > 40 {
                    break; // only the last 50 messages are kept
                }
                // the order of waiting judgements is not promised
                for x in cl.iter_mut() {
                    let n0 = x.want.len();
                    x.want.extend(m.clone());
                    let t0 = Instant::now();
                    while x.got.len() < x.want.len() && t0.elapsed() < Duration::from_secs(15) {
                        x.poll(2)?;
                    }
                    ensure!(x.got.len() >= n0, "a client got {:?}", x.got);
                    let key = |v: &[String]| {
                        let mut v: Vec<String> = v.iter().map(|x| x.replace(' ', "")).collect();
                        v.sort();
                        v
                    };
                    ensure!(key(&x.got[n0..]) == key(&m), "a client got {:?}, not {:?}", &x.got[n0..], m);
                    x.want = x.got.clone();
                }
                let first = cl[0].got[cl[0].got.len() - m.len()..].to_vec();
                for x in &cl {
                    ensure!(x.got[x.got.len() - m.len()..] == first[..], "clients got the messages in different order");
                }
                // lines of different clients are ordered by what was answered
                cl[i].send("!dmd")?;
                let m = twin.feed("!dmd").0;
                for x in cl.iter_mut() {
                    x.want.extend(m.clone());
                    x.wait(None)?;
                }
            }
            7 => {
                // lines are taken as they are
                let mut m = vec![];
                if s.bool() {
                    let l = *s.pick(&[" !dmd", "!dmd ", "\t!dmd", "!dmd\t", "!dmd\r", "", " ", "!dmd !dmd", "!DMD", "é", "// !dmd", "!dmd\r\r"]);
                    c.line(&format!("{:?}", l));
                    cl[i].send(l)?;
                    m.extend(twin.feed(l).0);
                }
                c.line("!dmd");
                cl[i].send("!dmd")?;
                m.extend(twin.feed("!dmd").0);
                for x in cl.iter_mut() {
                    x.want.extend(m.clone());
                    x.wait(None)?;
                }
            }
            _ => {
                // a question; the answer goes to all
                let temporal = s.chance(1, 4);
                let (q, fact) = if temporal {
                    names += 1;
                    let f = format!("<(c{},^go) =/> d{}>", names, names);
                    cl[i].send(&format!("{}.", f))?;
                    (f.clone(), f)
                } else {
                    let again = if s.chance(1, 3) { asked.last().cloned() } else { None };
                    if again.is_some() {
                        c.label("asked again");
                    }
                    match again.or_else(|| told.pop()) {
                        Some(f) => (f.clone(), f),
                        None => continue,
                    }
                };
                asked.push(fact.clone());
                told.retain(|x| *x != fact);
                stepped = true;
                c.line(&format!("{}?", q));
                let j = s.usize(cl.len());
                cl[i].send(&format!("{}?", q))?;
                twin.feed(&format!("{}?", q));
                // the message itself is judged by its parts
                let mut msg: Option<String> = None;
                let mut first = true;
                for x in 0..cl.len() {
                    let y = (j + x) % cl.len();
                    let n0 = cl[y].want.len();
                    let t0 = Instant::now();
                    while cl[y].got.len() <= n0 {
                        if first {
                            cl[y].send("!s 1")?;
                        }
                        cl[y].poll(2)?;
                        ensure!(t0.elapsed() < Duration::from_secs(15), "{}? is not answered by the server", q);
                    }
                    first = false;
                    let m = cl[y].got[n0].replace(' ', "");
                    let f = fact.replace(' ', "");
                    ensure!(m.contains(&format!("{}?", f)) && m.contains(&format!("{}.", f)), "the answer to {}? is {:?}", q, m);
                    if let Some(o) = &msg {
                        ensure!(*o == m, "clients got the different answers {:?} and {:?}", o, m);
                    }
                    msg = Some(m);
                    let g = cl[y].got[n0].clone();
                    cl[y].want.push(g);
                    cl[y].same()?;
                }
                answers += 1;
            }
        }
    }
    // nothing is sent twice
    for _ in 0..2 {
        for x in cl.iter_mut() {
            x.poll(3)?;
        }
    }
    for x in &cl {
        x.same()?;
    }
    srv.alive()?;
    if answers > 0 {
        c.label("answers");
    }
    c.nontrivial = most > 1;
    Ok(())
}
/// long sessions: more messages than the server keeps, clients which fetch them late
fn long(s: &mut Src, c: &mut Ctx) -> R {
    let mut srv = Server::start(s.below(1 << 40))?;
    let mut twin = F::new();
    let mut cl: Vec<Client> = vec![];
    for i in 0..1 + s.usize(3) {
        cl.push(Client::connect()?);
        cl[i].send("!dmd")?;
        let m = twin.feed("!dmd").0;
        for x in cl.iter_mut() {
            x.want.extend(m.clone());
            x.wait(None)?;
        }
    }
    let total = 30 + s.usize(170);
    let (mut n, mut told) = (0, 0);
    let mut lag = vec![0usize; cl.len()];
    while n < total {
        srv.alive()?;
        let i = s.usize(cl.len());
        // a burst of commands by one client
        let mut m: Vec<String> = vec![];
        for _ in 0..1 + s.usize(12) {
            if s.chance(1, 3) {
                told += 1;
                let l = format!("<a{} --> b{}>.", told, told);
                cl[i].send(&l)?;
                twin.feed(&l);
            }
            let r = twin.feed("!dmd").0;
            if lag.iter().max().unwrap() + m.len() + r.len() > 45 {
                break; // only the last 50 messages are kept for those who are late
            }
            cl[i].send("!dmd")?;
            m.extend(r);
        }
        n += m.len();
        for x in cl.iter_mut() {
            x.want.extend(m.clone());
        }
        for l in lag.iter_mut() {
            *l += m.len();
        }
        cl[i].wait(None)?;
        lag[i] = 0;
        c.line(&format!("client {} commands, {} messages", i, m.len()));
        for j in 0..cl.len() {
            if lag[j] > 30 || s.chance(1, 4) {
                if lag[j] > 0 {
                    c.line(&format!("client {} fetches {} messages", j, lag[j]));
                    c.label("late fetch");
                }
                cl[j].wait(None)?;
                lag[j] = 0;
            }
        }
    }
    for x in cl.iter_mut() {
        x.wait(None)?;
    }
    for x in cl.iter_mut() {
        x.poll(3)?;
        x.same()?;
    }
    srv.alive()?;
    c.nontrivial = n > 50;
    Ok(())
}
/// answers are kept for the clients which fetch them late
fn late(s: &mut Src, c: &mut Ctx) -> R {
    let mut srv = Server::start(s.below(1 << 40))?;
    let mut twin = F::new();
    let mut cl: Vec<Client> = vec![];
    for i in 0..2 + s.usize(2) {
        cl.push(Client::connect()?);
        cl[i].send("!dmd")?;
        let m = twin.feed("!dmd").0;
        for x in cl.iter_mut() {
            x.want.extend(m.clone());
            x.wait(None)?;
        }
    }
    let k = 3 + s.usize(22);
    for i in 0..k {
        cl[0].send(&format!("<a{} --> b{}>.", i, i))?;
    }
    for i in 0..k {
        cl[0].send(&format!("<a{} --> b{}>?", i, i))?;
    }
    c.line(&format!("{} questions, {} clients", k, cl.len()));
    // one client waits for all answers, the other ones are silent
    let n0 = cl[0].want.len();
    let t0 = Instant::now();
    while cl[0].got.len() < n0 + k {
        cl[0].send("!s 1")?;
        cl[0].poll(2)?;
        ensure!(t0.elapsed() < Duration::from_secs(60), "{} of {} questions are answered by the server", cl[0].got.len() - n0, k);
    }
    let got: Vec<String> = cl[0].got[n0..].to_vec();
    for i in 0..k {
        let f = format!("<a{}-->b{}>", i, i);
        let hits = got.iter().map(|m| m.replace(' ', "")).filter(|m| m.contains(&format!("{}?", f)) && m.contains(&format!("{}.", f))).count();
        ensure!(hits == 1, "{}? is answered {} times", f, hits);
    }
    for x in cl.iter_mut() {
        x.want.extend(got.clone());
        x.wait(None)?;
    }
    for x in cl.iter_mut() {
        x.poll(3)?;
        x.same()?;
    }
    srv.alive()?;
    c.nontrivial = k > 8;
    Ok(())
}
/// long messages, and a client with little room which reads them late and slowly
fn slow(s: &mut Src, c: &mut Ctx) -> R {
    use std::io::Read;
    use std::os::unix::io::AsRawFd;
    let mut srv = Server::start(s.below(1 << 40))?;
    let mut twin = F::new();
    let mut a = Client::connect()?;
    let big = s.chance(1, 3);
    let k = if big { 36 + s.usize(5) } else { 1 + s.usize(40) };
    let len = if big { 400 + s.usize(100) } else { 10 + s.usize(450) };
    let many = if big { 30 + s.usize(20) } else { 2 + s.usize(50) };
    c.line(&format!("{} judgements about {} names of {} letters", k, many, len));
    for i in 0..k {
        let l = format!("<({}*x{}) --> b{}>.", vec!["a".repeat(len); many].join("*"), i, i);
        a.send(&l)?;
        twin.feed(&l);
    }
    a.send("!dmd")?;
    a.want.extend(twin.feed("!dmd").0);
    a.wait(None)?;
    let mut b = TcpStream::connect(ADDR).map_err(|e| e.to_string())?;
    let room: i32 = 200000;
    // SOL_SOCKET, SO_RCVBUF
    unsafe {
        setsockopt(b.as_raw_fd(), 1, 8, &room as *const i32 as *const std::ffi::c_void, 4);
    }
    let _ = b.set_read_timeout(Some(Duration::from_secs(10)));
    let tell = |b: &mut TcpStream, x: &str| -> R { b.write_all(format!("{}\n", x).as_bytes()).map_err(|e| format!("the connection is lost: {}", e)) };
    // b is known to the server when its command is done
    tell(&mut b, "!dmd")?;
    a.want.extend(twin.feed("!dmd").0);
    a.wait(None)?;
    let n0 = a.got.len();
    let key = |v: &[String]| {
        let mut v: Vec<String> = v.iter().map(|x| x.replace(' ', "")).collect();
        v.sort();
        v
    };
    for _ in 0..1 + s.usize(16) {
        a.send("!dt")?;
        let want = twin.feed("!dt").0;
        let t0 = Instant::now();
        let n1 = a.got.len();
        while a.got.len() < n1 + want.len() {
            a.poll(2)?;
            ensure!(t0.elapsed() < Duration::from_secs(20), "{} of {} lines came", a.got.len() - n1, want.len());
        }
        ensure!(key(&a.got[n1..]) == key(&want), "a client got {} other lines than the result", want.len());
        // the other one fetches them without reading
        tell(&mut b, "//")?;
        std::thread::sleep(Duration::from_millis(10 + s.below(20)));
    }
    let mut all = a.got[n0 - 1..].join("\n");
    all += "\n";
    // the other one reads, the last 50 are kept for it
    let mut got: Vec<u8> = vec![];
    let mut buf = vec![0u8; 1000 + s.usize(60000)];
    let last = format!("{}\n", a.got[a.got.len() - 1]);
    let t0 = Instant::now();
    while !got.ends_with(last.as_bytes()) && t0.elapsed() < Duration::from_secs(30) {
        tell(&mut b, "//")?;
        match b.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => got.extend(&buf[..n]),
            Err(_) => break,
        }
    }
    let text = String::from_utf8_lossy(&got).to_string();
    let sent: std::collections::HashSet<&str> = all.lines().collect();
    for (i, x) in text.lines().enumerate() {
        ensure!(sent.contains(x), "a client which reads late got as line {} {:?}, which was not sent", i, x);
    }
    ensure!(got.ends_with(last.as_bytes()), "a client which reads late didn't get the last message");
    ensure!(a.got.len() - n0 > 45 || text == all, "a client which reads late got {} letters of {}", text.len(), all.len());
    srv.alive()?;
    c.nontrivial = all.len() > 1000000;
    Ok(())
}
extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const std::ffi::c_void, len: u32) -> i32;
}
/// connects and resets the connection
fn reset_guest() {
    use std::os::unix::io::AsRawFd;
    #[repr(C)]
    struct Linger {
        on: i32,
        secs: i32,
    }
    if let Ok(g) = TcpStream::connect(ADDR) {
        let l = Linger { on: 1, secs: 0 };
        // SOL_SOCKET, SO_LINGER
        unsafe {
            setsockopt(g.as_raw_fd(), 1, 13, &l as *const Linger as *const std::ffi::c_void, 8);
        }
        drop(g);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--srv" {
        getrandom::verif_reseed(std::env::var("VH_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1));
        nar20_1::NarServer::run();
        return;
    }
    main_prop(Prop::new("C25", vec![Part::new("session", "several clients at the same time", 150, 4000, session).procs(1).hang(150), Part::new("long", "more than 50 messages", 20, 600, long).procs(1).hang(150), Part::new("late", "more than 8 answers", 50, 800, late).procs(1).hang(150), Part::new("slow", "more than 1000000 letters", 60, 600, slow).procs(1).hang(150)]));
}
