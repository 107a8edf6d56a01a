#![allow(non_snake_case)]
//! C24 simple English is translated by the stored network to relations, which are told to the reasoner
use nar20_1::ModNlpA as nlp;
use vh::fac::*;
use vh::*;

const WORDS: [(&str, &str); 24] = [
    ("Tom", "NNP"), ("Tim", "NNP"), ("John", "NNP"), ("is", "VBZ"), ("can", "MD"), ("are", "VBP"), ("?", "?"), ("to", "PRT_TO"),
    ("of", "IN"), ("the", "DT"), ("what", "WP"), ("and", "CC"), ("fast", "JJ"), ("slow", "JJ"), ("fat", "JJ"), ("thin", "JJ"),
    ("good", "JJ"), ("bad", "JJ"), ("dance", "VB"), ("hunting", "NN"), ("purpose", "NN"), ("food", "NN"), ("Cat", "NN"), ("want", "VBT"),
];
const CODES: [(&str, i64); 17] = [
    ("VBZ", 0), ("JJ", 1), ("NNP", 2), ("CC", 3), (",", 4), ("NN", 5), ("VBP", 6), ("DT", 8), ("PRT_TO", 9), ("VB", 10), ("VBT", 11),
    ("WP", 12), ("?", 13), ("VBG", 14), ("IN", 15), ("PRP", 16), ("MD", 17),
];
const SIGNS: usize = 12;
const ALPHABET: usize = 34;

/// (weights, bias) of the neurons of both layers
type Net = [Vec<(Vec<f64>, f64)>; 2];
fn net(s: &mut Src) -> Net {
    let scale = *s.pick(&[0.15, 0.3, 0.6]);
    let seed = s.below(1 << 50);
    // the many weights come from one choice
    let mut k = 0u64;
    let mut r = move || {
        k += 1;
        (vh::src::mix(seed.wrapping_add(k.wrapping_mul(0x9E3779B97F4A7C15))) >> 11) as f64 / (1u64 << 53) as f64
    };
    let l0 = (0..9).map(|_| ((0..ALPHABET * SIGNS).map(|_| (r() - 0.5) * scale).collect(), (r() - 0.5) * scale)).collect();
    let l1: Vec<(Vec<f64>, f64)> = (0..15).map(|i| ((0..9).map(|_| r() - 0.5).collect(), r() * 0.3 + if [1, 2, 3, 4, 7].contains(&i) { 0.12 } else { 0.0 })).collect();
    [l0, l1]
}
fn save(n: &Net) -> R {
    let e = |x: rusqlite::Error| x.to_string();
    let _ = std::fs::remove_file("nn_nlp0.db");
    let mut c = rusqlite::Connection::open("nn_nlp0.db").map_err(e)?;
    c.execute("create table weights (id integer primary key AUTOINCREMENT, nnid integer not null, layer integer not null, neuronidx integer not null, valueid integer not null, value real not null)", []).map_err(e)?;
    let t = c.transaction().map_err(e)?;
    {
        let mut st = t.prepare("INSERT INTO weights (nnid,layer,neuronidx,valueid,value) values (0,?1,?2,?3,?4)").map_err(e)?;
        for (l, layer) in n.iter().enumerate() {
            for (i, (w, b)) in layer.iter().enumerate() {
                st.execute(rusqlite::params![l as i64, i as i64, -1i64, b]).map_err(e)?;
                for (j, x) in w.iter().enumerate() {
                    st.execute(rusqlite::params![l as i64, i as i64, j as i64, x]).map_err(e)?;
                }
            }
        }
    }
    t.commit().map_err(e)
}
fn encode(codes: &[i64]) -> Vec<f64> {
    let mut r = vec![0.0; ALPHABET * SIGNS];
    for i in 0..SIGNS {
        // the sequence ends at the last place
        let back = SIGNS - 1 - i;
        let code = if back < codes.len() { codes[codes.len() - 1 - back] } else { ALPHABET as i64 - 1 };
        r[i * ALPHABET + code as usize] = 1.0;
    }
    r
}
fn layer(l: &[(Vec<f64>, f64)], x: &[f64]) -> Vec<f64> {
    l.iter().map(|(w, b)| w.iter().zip(x).map(|(a, b)| a * b).sum::<f64>() + b).collect()
}
/// index of the greatest value in 0..1, the first one of equals; None if this is not clear
fn best(v: &[f64]) -> Option<usize> {
    let v: Vec<f64> = v.iter().map(|x| x.max(0.0).min(1.0)).collect();
    let m = v.iter().cloned().fold(0.0, f64::max);
    if m == 0.0 {
        return Some(0);
    }
    let i = v.iter().position(|x| *x == m).unwrap();
    if v.iter().enumerate().any(|(j, x)| j != i && m - x < 1e-9 && !(*x == 1.0 && m == 1.0)) {
        return None;
    }
    Some(i)
}
/// the actions and the relations (head, first, second)
fn reference(n: &Net, words: &[String]) -> Option<(Vec<i64>, Vec<(String, String, String)>)> {
    let mut codes = vec![];
    for w in words {
        let tag = WORDS.iter().find(|x| x.0 == w)?.1;
        codes.push(CODES.iter().find(|x| x.0 == tag)?.1);
    }
    codes.push(7);
    let (mut actions, mut rel) = (vec![], vec![]);
    for _ in 0..10 {
        let a = best(&layer(&n[1], &layer(&n[0], &encode(&codes))))?;
        actions.push(a as i64);
        let w = |i: usize| words.get(i).cloned();
        let r = match a {
            0 => break,
            1 => (w(1), w(0), w(2)),
            2 => (w(3), w(0), w(4)),
            3 => (w(3), w(2), w(4)),
            4 => (Some("want_to".to_string()), w(0), w(3)),
            7 => (w(1), w(0), w(4)),
            _ => (None, None, None),
        };
        if let (Some(h), Some(a), Some(b)) = r {
            rel.push((h, a, b));
        }
        codes.push(18 + a as i64);
    }
    Some((actions, rel))
}
struct Scratch {
    dir: std::path::PathBuf,
    old: std::path::PathBuf,
}
impl Scratch {
    fn new() -> Scratch {
        let dir = std::env::temp_dir().join(format!("vh-c24-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        let old = std::env::current_dir().unwrap();
        std::env::set_current_dir(&dir).unwrap();
        Scratch { dir, old }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.old);
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
fn words(s: &mut Src) -> Vec<String> {
    let k = s.usize(9);
    (0..k).map(|_| if s.chance(1, 2) { s.pick(&WORDS).0 } else { *s.pick(&["Tom", "is", "fat", "and", "Cat", "want", "to", "dance"]) }.to_string()).collect()
}
const STRANGE: [&str; 7] = ["dog", "tom", "IS", "é", "Tom,", "want_to", "-->"];

fn sentences(s: &mut Src, c: &mut Ctx) -> R {
    let _d = Scratch::new();
    let n = net(s);
    let missing = s.chance(1, 20);
    if !missing {
        save(&n)?;
    }
    let (mut f, mut g) = (F::new(), F::new());
    let k = 1 + s.usize(5);
    for _ in 0..k {
        let mut w = words(s);
        if s.chance(1, 8) {
            let i = s.usize(w.len() + 1);
            w.insert(i, s.pick(&STRANGE).to_string());
        }
        let known = w.iter().all(|x| WORDS.iter().any(|y| y.0 == x));
        let r = if known && !missing { reference(&n, &w) } else { None };
        if known && !missing && r.is_none() {
            continue; // two actions of the same strength
        }
        // spacing doesn't matter, a question mark needs none
        let mut text = String::new();
        for x in &w {
            if !(x == "?" && s.bool()) {
                text.push_str(s.pick(&[" ", "  ", "\t"]));
            }
            text.push_str(x);
        }
        let text = text.trim_start_matches(|_| false).to_string();
        let line = format!("!.nlp {}", if text.is_empty() { " " } else { &text });
        c.line(&format!("{:?}", line));
        let before = world(&f.nar);
        if let Some((acts, rel)) = &r {
            let (a, x) = nlp::network_run(&w).map_err(|e| format!("{:?} is refused: {}", w, e))?;
            ensure!(a == *acts, "the actions for {:?} are {:?}, not {:?}", w, a, acts);
            let got: Vec<(String, String, String)> = x.iter().filter(|y| y.args.len() == 2 && !y.isNegated && y.conf == 0.998).map(|y| (y.head.clone(), y.args[0].clone(), y.args[1].clone())).collect();
            ensure!(got == *rel && got.len() == x.len(), "the relations of {:?} by {:?} are {:?}, not {:?}", w, acts, got, rel);
            ensure!(world(&f.nar).diff(&before).is_empty(), "running the network changed the reasoner");
        } else {
            ensure!(nlp::network_run(&w).is_err(), "{:?} is accepted", w);
        }
        let (lines, quit) = f.feed(&line);
        ensure!(lines.is_empty() && !quit, "{:?} returns {:?} {}", line, lines, quit);
        match &r {
            Some((_, rel)) => {
                for (h, a, b) in rel {
                    g.feed(&format!("<({}*{}) --> {}>. {{1.0 0.998}}", a, b, h));
                }
                let d = world(&f.nar).diff(&world(&g.nar));
                ensure!(d.is_empty(), "{:?} with the relations {:?} leaves other {:?} than telling them", line, rel, d);
                c.nontrivial |= !rel.is_empty();
                if rel.len() > 1 {
                    c.label("several relations");
                }
            }
            None => {
                let d = world(&f.nar).diff(&before);
                ensure!(d.is_empty(), "{:?} is not understood but changed the {:?}", line, d);
            }
        }
        c.evals += 1;
    }
    Ok(())
}
/// the parts of the translation
fn parts(s: &mut Src, c: &mut Ctx) -> R {
    let w = words(s);
    let tags = nlp::conv_tokens_to_poss(&w).map_err(|e| format!("{:?} is refused: {}", w, e))?;
    let want: Vec<String> = w.iter().map(|x| WORDS.iter().find(|y| y.0 == x).unwrap().1.to_string()).collect();
    ensure!(tags == want, "{:?} is tagged {:?}", w, tags);
    let tags: Vec<String> = (0..s.usize(14)).map(|_| s.pick(&CODES).0.to_string()).collect();
    let mut codes: Vec<i64> = tags.iter().map(|x| CODES.iter().find(|y| y.0 == x).unwrap().1).collect();
    codes.push(7);
    c.line(&format!("{:?} {:?}", w, tags));
    let got = nlp::prot_pos0(tags.clone());
    ensure!(got == codes, "{:?} is coded {:?}", tags, got);
    for _ in 0..s.usize(9) {
        codes.push(nlp::pos_ret_codes() + s.range(0, 14));
    }
    let got = nlp::conv_seq_to_nninput(&nlp::Seq { seq: codes.clone(), outonehot: -1 });
    let want = encode(&codes);
    ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.0 == *b && a.1 == 0.0), "the sequence {:?} is encoded wrong", codes);
    let v: Vec<f64> = (0..1 + s.usize(15)).map(|_| if s.chance(1, 4) { *s.pick(&[0.0, 1.0, -3.0, 7.0, 0.5]) } else { s.unit() * 1.6 - 0.4 }).collect();
    let got = nlp::calc_max_onehot_idx(&v.iter().map(|x| (*x, 0.3)).collect::<Vec<_>>());
    let m = v.iter().map(|x| x.max(0.0).min(1.0)).fold(0.0, f64::max);
    ensure!(got >= 0 && (got as usize) < v.len() && v[got as usize].max(0.0).min(1.0) == m, "the greatest of {:?} is {}", v, got);
    if let Some(b) = best(&v) {
        ensure!(got == b as i64, "the greatest of {:?} is {}", v, got);
    }
    let len = 1 + s.range(0, 30);
    let i = s.range(0, len - 1);
    let o = nlp::encode_onehot(i, len);
    ensure!(o.len() as i64 == len && o.iter().enumerate().all(|(j, x)| *x == if j as i64 == i { 1.0 } else { 0.0 }), "{} of {} is {:?}", i, len, o);
    let mut seed = s.range(0, 1 << 20);
    let max = 1 + s.range(0, 500);
    for _ in 0..5 {
        let before = seed;
        let x = nlp::rng_genint(&mut seed, max);
        ensure!(x >= 0 && x < max && seed == before + 1, "the number {} below {}", x, max);
        let x = nlp::rng_genfloat(&mut seed);
        ensure!(x >= 0.0 && x < 1.0 && seed == before + 2, "the number {} of 0..1", x);
    }
    c.nontrivial = w.len() > 1 && codes.len() > 2;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C24",
        vec![
            Part::new("sentences", "a relation was extracted", 1600, 60000, sentences).fresh(),
            Part::new("parts", "several words and codes", 20000, 500000, parts),
        ],
    ));
}
