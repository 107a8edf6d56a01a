#![allow(non_snake_case)]
//! C01 reading Narsese: exactly the sentence that was written, malformed lines rejected
use nar20_1::NarSentence::EnumPunctation;
use nar20_1::NarseseParser::parseNarsese;
use vh::refparse;
use vh::term::*;
use vh::*;

type P = (T, f64, f64, char, bool);

fn real(l: &str) -> Option<P> {
    parseNarsese(&l.to_string()).map(|(t, tv, p, e)| {
        let pc = match p {
            EnumPunctation::JUGEMENT => '.',
            EnumPunctation::QUESTION => '?',
            EnumPunctation::GOAL => '!',
        };
        (from_nar(&t), tv.f, tv.c, pc, e)
    })
}
fn show(p: &Option<P>) -> String {
    match p {
        None => "rejected".to_string(),
        Some((t, f, c, p, e)) => format!("{}{} {{{} {}}} event={}", t.show(), p, f, c, e),
    }
}

fn number(s: &mut Src, max_excl: bool) -> (String, f64) {
    let v = match s.usize(5) {
        0 => 0.9,
        1 => s.usize(10) as f64 / 10.0,
        2 => s.usize(1000) as f64 / 1000.0,
        3 => s.unit(),
        _ => {
            if max_excl {
                0.998
            } else {
                1.0
            }
        }
    };
    let t = match s.usize(3) {
        0 => format!("{}", v),
        1 => format!("{:?}", v),
        _ => format!("{:.6}", v),
    };
    let v2: f64 = t.parse().unwrap();
    if max_excl && v2 >= 1.0 {
        ("0.5".to_string(), 0.5)
    } else {
        (t, v2)
    }
}

/// random name: from the pool, long, or with letters of other scripts
fn rename(s: &mut Src, t: &T) -> T {
    let k = s.usize(8);
    let extra: Vec<String> = (0..4)
        .map(|_| match k {
            5 => "é".repeat(1 + s.usize(3)),
            6 => ["名", "птица", "β2", "Ünï-cödé"][s.usize(4)].to_string(),
            7 => "n".repeat(1 + s.usize(512)),
            _ => String::new(),
        })
        .collect();
    if k < 5 {
        return t.clone();
    }
    t.map(&|x| match x {
        T::Name(nm) => match nm.as_str() {
            "a" => Some(T::Name(extra[0].clone())),
            "b" => Some(T::Name(extra[1].clone())),
            "c" => Some(T::Name(extra[2].clone())),
            _ => None,
        },
        T::Var(c, nm) if nm == "x" => Some(T::Var(*c, extra[3].clone())),
        _ => None,
    })
}

fn gen_line(s: &mut Src) -> (String, P) {
    let g = G { depth: s.usize(6), vars: s.bool(), grammar: true, names: 12 };
    let t = gen_term(s, &g);
    let t = rename(s, &t);
    let mut txt = t.text();
    if s.chance(1, 3) {
        txt = txt.replace("*", ["* ", " *", " * ", "  *  "][s.usize(4)]);
    }
    let p = *s.pick(&['.', '!', '?']);
    let mut l = format!("{}{}", txt, p);
    let (mut f, mut c) = (1.0, 0.9);
    if s.chance(2, 3) {
        let (ft, fv) = number(s, false);
        let (ct, cv) = number(s, true);
        f = fv;
        c = cv;
        l += &format!("{}{{{} {}}}", [" ", "", "  "][s.usize(3)], ft, ct);
    }
    let e = s.bool();
    if e {
        l += " :|:";
    }
    (l, (t, f, c, p, e))
}

fn wellformed(s: &mut Src, c: &mut Ctx) -> R {
    let (l, want) = gen_line(s);
    c.line(&l);
    c.nontrivial = want.0.depth() > 1;
    if !l.is_ascii() {
        c.label("non-ascii");
    }
    if want.4 {
        c.label("event");
    }
    let got = real(&l);
    let want = Some(want);
    ensure!(got == want, "line `{}` is read as {} but means {}", l, show(&got), show(&want));
    // the reference reader agrees with the generator (oracle self-check)
    let r = refparse::line(&l);
    ensure!(r == want, "oracle self-check: reference reader disagrees on `{}`", l);
    Ok(())
}

fn mutate_text(s: &mut Src, l: &str) -> String {
    let mut v: Vec<char> = l.chars().collect();
    let edits = 1 + s.usize(3);
    let toks: Vec<char> = "()<>{}[]!&|*,/12 .?#$-=>^ab:|;%名é\t".chars().collect();
    for _ in 0..edits {
        let len = v.len();
        match s.usize(6) {
            0 if len > 0 => {
                v.remove(s.usize(len));
            }
            1 => {
                let i = s.usize(len + 1);
                v.insert(i, *s.pick(&toks));
            }
            2 if len > 0 => {
                let i = s.usize(len);
                v[i] = *s.pick(&toks);
            }
            3 if len > 1 => {
                let i = s.usize(len);
                let j = s.usize(len);
                v.swap(i, j);
            }
            4 if len > 0 => {
                let i = s.usize(len);
                let j = i + s.usize(len - i) + 1;
                let cut: Vec<char> = v[i..j].to_vec();
                if s.bool() {
                    v.drain(i..j);
                } else {
                    for (k, ch) in cut.into_iter().enumerate() {
                        v.insert(j + k, ch);
                    }
                }
            }
            _ => {
                let t = *s.pick(&[" {1.0 0.9}", " {x y}", " {1.0}", " {1.5 0.9}", " {0.5 1.0}", " {-0.1 0.5}", " {nan 0.5}", " {0.5 inf}", " :|:", ".", " x", "{1.0  0.9}", "}", " {", "{1.0 0.9} "]);
                v.extend(t.chars());
            }
        }
    }
    v.into_iter().collect()
}

fn mutated(s: &mut Src, c: &mut Ctx) -> R {
    let (l0, _) = gen_line(s);
    let l = mutate_text(s, &l0);
    c.line(&l);
    let want = refparse::line(&l);
    let got = real(&l);
    c.label(if want.is_some() { "still well-formed" } else { "malformed" });
    c.nontrivial = want.is_none() && l.len() > 3;
    ensure!(got == want, "line `{}` is read as {} but means {}", l, show(&got), show(&want));
    Ok(())
}

/// junk placed at one of the seams of a well-formed line: before or behind the term, the punctuation, the
/// truth value and the tense, or inside the truth value
fn seams(s: &mut Src, c: &mut Ctx) -> R {
    let g = G { depth: s.usize(4), vars: s.bool(), grammar: true, names: 12 };
    let t = gen_term(s, &g);
    let txt = t.text();
    let p = *s.pick(&[".", "!", "?"]);
    let (ft, _) = number(s, false);
    let (ct, _) = number(s, true);
    let tv = s.bool();
    let ev = s.bool();
    let mut segs: Vec<String> = vec![txt, p.to_string()];
    if tv {
        for x in [" {", &ft, " ", &ct, "}"].iter() {
            segs.push(x.to_string());
        }
    }
    if ev {
        segs.push(" :|:".to_string());
    }
    let k = 1 + s.usize(2);
    for _ in 0..k {
        let junk = match s.usize(4) {
            0 => {
                let n = 1 + s.usize(6);
                let mut j = String::new();
                for _ in 0..n {
                    j.push((32 + s.usize(95)) as u8 as char);
                }
                j
            }
            1 => s.pick(&["//x", "// x", "/", "#c", " #c", ";", "%1.0;0.9%", "%", "..", "::", ":|:", ":\\:", "'", "\"", "\r", "\n", "\t", "\u{0}", "\u{a0}", "\u{2003}", "\u{feff}", "e5", "+", "-", "0", "1", "E-3", " ", "  "]).to_string(),
            2 => {
                let t2 = gen_term(s, &G { depth: 2, vars: false, grammar: true, names: 12 });
                format!("{}{}", [" ", "", "."][s.usize(3)], t2.text())
            }
            _ => {
                let i = s.usize(segs.len());
                segs[i].clone()
            }
        };
        let i = s.usize(segs.len() + 1);
        segs.insert(i, junk);
    }
    let l: String = segs.concat();
    c.line(&l);
    let want = refparse::line(&l);
    let got = real(&l);
    c.label(if want.is_some() { "still well-formed" } else { "malformed" });
    c.nontrivial = want.is_none();
    ensure!(got == want, "line `{}` is read as {} but means {}", l, show(&got), show(&want));
    Ok(())
}

fn soup(s: &mut Src, c: &mut Ctx) -> R {
    let toks = ["a", "b", "^op", "(", ")", "<", ">", "{", "}", "[", "]", " --> ", " <-> ", " ==> ", " =/> ", " <=> ", "*", ",", "&&", "&", "|", " /1 ", " /2 ", "(!", "?x", "#y", "$z", ".", "!", "?", " {1.0 0.9}", " :|:", " ", "é"];
    let k = s.usize(24);
    let mut l = String::new();
    for _ in 0..k {
        l += s.pick(&toks);
    }
    c.line(&l);
    let want = refparse::line(&l);
    let got = real(&l);
    c.nontrivial = k > 2;
    c.label(if want.is_some() { "well-formed" } else { "malformed" });
    ensure!(got == want, "line `{}` is read as {} but means {}", l, show(&got), show(&want));
    Ok(())
}

/// nesting: terms nested up to 100 levels are read, any deeper line ends with an answer in bounded time
fn nesting(s: &mut Src, c: &mut Ctx) -> R {
    let legal = s.bool();
    let lim = if legal { 100 } else if s.bool() { 300 } else { 60000 };
    let d = 1 + s.usize(lim);
    let mixed = s.bool();
    let k0 = s.usize(9);
    let shapes: Vec<usize> = (0..d.min(400)).map(|_| if mixed { s.usize(9) } else { k0 }).collect();
    let mut pre = String::new();
    let mut posts: Vec<&str> = vec![];
    for i in 0..d {
        let (a, b) = match shapes[i % shapes.len()] {
            0 => ("(", ",b)"),
            1 => ("<", " --> b>"),
            2 => ("(", "*b)"),
            3 => ("{", "}"),
            4 => ("[", "]"),
            5 => ("(!", ")"),
            6 => ("(b&&", "&&c&&d)"),
            7 => ("(", "|b)"),
            _ => ("(", " /2 b)"),
        };
        pre += a;
        posts.push(b);
    }
    let truncated = !legal && s.bool();
    let mut l = pre;
    l += "a";
    if !truncated {
        for p in posts.iter().rev() {
            l += p;
        }
    }
    l += ".";
    c.line(&format!("depth {} shapes {:?} truncated {}", d, &shapes[..shapes.len().min(8)], truncated));
    c.nontrivial = d > 8;
    let got = real(&l);
    if legal {
        let want = refparse::line(&l);
        ensure!(want.is_some() && got == want, "a term nested {} levels is read as {}", d, &show(&got).chars().take(300).collect::<String>());
    } else if truncated {
        ensure!(got.is_none(), "an unclosed term of depth {} is accepted", d);
    } else if let Some(g) = got {
        ensure!(Some(g) == refparse::line(&l), "a term nested {} levels is misread", d);
    }
    Ok(())
}

/// wide terms: hundreds of bracketed elements side by side, none of them nested deeply
fn wide(s: &mut Src, c: &mut Ctx) -> R {
    let lim = if s.chance(1, 4) { 1200 } else { 260 };
    let k = 2 + s.usize(lim);
    let (a, sep, b) = *s.pick(&[("(", "&&", ")"), ("{", " ", "}"), ("[", " ", "]"), ("(", ",", ")"), ("(", "*", ")"), ("(", ",", ")"), ("(", "*", ")"), ("(", ",", ")"), ("(", "*", ")")]);
    let one = s.chance(1, 3);
    let shape = s.usize(6);
    let el: Vec<String> = (0..k)
        .map(|i| match if one { shape } else { s.usize(6) } {
            0 => format!("<a{} --> b>", i),
            1 => format!("{{a{}}}", i),
            2 => format!("[a{}]", i),
            3 => format!("(a{}*b)", i),
            4 => format!("(!a{})", i),
            _ => format!("a{}", i),
        })
        .collect();
    let t = format!("{}{}{}", a, el.join(sep), b);
    let l = match s.usize(3) {
        0 => format!("{}.", t),
        1 => format!("<{} --> z>.", t),
        _ => format!("<{} ==> {{z}}>?", t),
    };
    c.line(&format!("{} elements: {}...", k, l.chars().take(60).collect::<String>()));
    c.nontrivial = k > 100;
    let (got, want) = (real(&l), refparse::line(&l));
    ensure!(got == want, "a line of {} elements is read as {} instead of {}", k, &show(&got).chars().take(300).collect::<String>(), &show(&want).chars().take(300).collect::<String>());
    if want.is_some() {
        c.label("read");
    }
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C01",
        vec![
            Part::new("wellformed", "compound term", 1200000, 6000000, wellformed),
            Part::new("mutated", "malformed line of more than 3 bytes", 1200000, 6000000, mutated),
            Part::new("seams", "malformed line", 1200000, 6000000, seams),
            Part::new("soup", "line of at least three tokens", 1200000, 6000000, soup),
            Part::new("nesting", "nested more than 8 levels", 24000, 100000, nesting).hang(30),
            Part::new("wide", "more than 100 elements", 2400, 20000, wide).hang(30),
        ],
    ));
}
