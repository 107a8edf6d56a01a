//! Reference reader for Narsese lines, written from the documented syntax.
use crate::term::*;

pub fn isname(c: char) -> bool {
    c.is_alphanumeric() || c == '-' || c == '_' || c == '^'
}
type P<'a> = Option<(T, &'a str)>;

fn name(i: &str) -> Option<(String, &str)> {
    let mut cnt = 0;
    let mut end = 0;
    for (k, c) in i.char_indices() {
        if !isname(c) || cnt == 512 {
            break;
        }
        cnt += 1;
        end = k + c.len_utf8();
    }
    if cnt == 0 {
        None
    } else {
        Some((i[..end].to_string(), &i[end..]))
    }
}

pub fn term(i: &str, depth: usize) -> P<'_> {
    if depth > 2000 {
        return None;
    }
    let first = i.chars().next()?;
    let rest = &i[first.len_utf8()..];
    match first {
        '{' => {
            let (t, r) = term(rest, depth + 1)?;
            Some((T::Coll(K::SetExt, vec![t]), r.strip_prefix('}')?))
        }
        '[' => {
            let (t, r) = term(rest, depth + 1)?;
            Some((T::Coll(K::SetInt, vec![t]), r.strip_prefix(']')?))
        }
        '?' | '#' | '$' => {
            let (nm, r) = name(rest)?;
            Some((T::Var(first, nm), r))
        }
        '<' => {
            let (a, r) = term(rest, depth + 1)?;
            for c in COPS.iter() {
                if let Some(r2) = r.strip_prefix(&format!(" {} ", c.text())[..]) {
                    let (b, r3) = term(r2, depth + 1)?;
                    return Some((st(*c, &a, &b), r3.strip_prefix('>')?));
                }
            }
            None
        }
        '(' => {
            if let Some(r) = rest.strip_prefix('!') {
                let (t, r) = term(r, depth + 1)?;
                return Some((T::Neg(Box::new(t)), r.strip_prefix(')')?));
            }
            let (a, r) = term(rest, depth + 1)?;
            for (sep, idx) in [(" /1 ", 0usize), (" /2 ", 1)].iter() {
                if let Some(r2) = r.strip_prefix(sep) {
                    let (b, r3) = term(r2, depth + 1)?;
                    return Some((T::Img(Box::new(a), *idx, vec![b]), r3.strip_prefix(')')?));
                }
            }
            for (sep, k, max) in [("&&", K::Conj, 4usize), ("&", K::ExtInt, 2), ("|", K::IntInt, 2), (",", K::Seq, usize::MAX), ("*", K::Prod, usize::MAX)].iter() {
                if r.starts_with(sep) {
                    let mut v = vec![a];
                    let mut r = r;
                    while let Some(r2) = r.strip_prefix(sep) {
                        if v.len() == *max {
                            return None;
                        }
                        let (t, r3) = term(r2, depth + 1)?;
                        v.push(t);
                        r = r3;
                    }
                    return Some((T::Coll(*k, v), r.strip_prefix(')')?));
                }
            }
            None
        }
        _ => {
            let (nm, r) = name(i)?;
            Some((T::Name(nm), r))
        }
    }
}

/// (term, f, c, punctuation, is event)
pub fn line(l: &str) -> Option<(T, f64, f64, char, bool)> {
    let mut s = l.to_string();
    while s.contains("* ") {
        s = s.replace("* ", "*");
    }
    while s.contains(" *") {
        s = s.replace(" *", "*");
    }
    let mut ev = false;
    if s.ends_with(" :|:") {
        ev = true;
        s.truncate(s.len() - 4);
    }
    let (mut f, mut c) = (1.0, 0.9);
    if s.ends_with('}') {
        let idx = s.rfind('{')?;
        let inner = s[idx + 1..s.len() - 1].to_string();
        let w: Vec<&str> = inner.split(' ').collect();
        if w.len() != 2 || idx == 0 {
            return None;
        }
        f = w[0].parse::<f64>().ok()?;
        c = w[1].parse::<f64>().ok()?;
        if !(f >= 0.0 && f <= 1.0 && c >= 0.0 && c < 1.0) {
            return None;
        }
        s.truncate(idx);
    }
    let s = s.trim_end();
    let p = s.chars().last()?;
    if p != '.' && p != '!' && p != '?' {
        return None;
    }
    let body = &s[..s.len() - 1];
    let (t, rest) = term(body, 0)?;
    if !rest.trim().is_empty() {
        return None;
    }
    Some((t, f, c, p, ev))
}
