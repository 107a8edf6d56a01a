#![allow(non_snake_case)]
//! C22 maps, filters and prototype classifiers of the vision modules
use nar20_1::Map2d as m2;
use nar20_1::Map2d::Map2d;
use nar20_1::Tv::Tv;
use nar20_1::{AeraishPerceptionComp as aera, ModVisionB as vb, ModVisionC as vc, ModVisionD as vd, TvVec};
use vh::rules::{close, comp, expect, rev, v, V};
use vh::*;

/// rows of columns
type M = Vec<Vec<f64>>;
fn build(m: &M, w: usize) -> Map2d<f64> {
    let mut r = m2::makeMap2d(m.len() as i32, w as i32);
    for (y, row) in m.iter().enumerate() {
        for (x, p) in row.iter().enumerate() {
            m2::writeAt(&mut r, y as i32, x as i32, *p);
        }
    }
    r
}
fn read(m: &Map2d<f64>) -> M {
    (0..m.h).map(|y| (0..m.w).map(|x| m2::readAt(m, y, x)).collect()).collect()
}
fn at(m: &M, y: i64, x: i64) -> f64 {
    if y < 0 || x < 0 {
        return 0.0;
    }
    m.get(y as usize).and_then(|r| r.get(x as usize)).cloned().unwrap_or(0.0)
}
fn near(a: &M, b: &M) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(p, q)| p.len() == q.len() && p.iter().zip(q).all(|(x, y)| (x - y).abs() <= 1e-9 * (1.0 + x.abs() + y.abs())))
}
fn map(s: &mut Src, h: usize, w: usize) -> M {
    let whole = s.bool();
    (0..h).map(|_| (0..w).map(|_| if whole { s.range(-5, 5) as f64 } else { s.unit() * 4.0 - 2.0 }).collect()).collect()
}
fn size(s: &mut Src) -> (usize, usize) {
    (1 + s.tail(14, 80), 1 + s.tail(14, 80))
}

fn draw(s: &mut Src, c: &mut Ctx) -> R {
    let (h, w) = size(s);
    let mut m = map(s, h, w);
    let mut r = build(&m, w);
    c.line(&format!("{} rows, {} columns", h, w));
    ensure!(r.w as usize == w && r.h as usize == h, "a map of {} rows and {} columns has {} and {}", h, w, r.h, r.w);
    ensure!(near(&read(&r), &m), "what is written is not read: {:?} {:?}", read(&r), m);
    let fresh = read(&m2::makeMap2d(h as i32, w as i32));
    ensure!(fresh.len() == h && fresh.iter().all(|x| x.len() == w && x.iter().all(|y| *y == 0.0)), "a new map is not empty");
    let k = 1 + s.usize(6);
    let mut changed = false;
    for _ in 0..k {
        let (x, y) = (s.range(-4, w as i64 + 4), s.range(-4, h as i64 + 4));
        let val = s.range(6, 90) as f64;
        let before = m.clone();
        let what;
        match s.usize(5) {
            0 => {
                what = format!("writing {} at row {} column {}", val, y, x);
                m2::writeAt(&mut r, y as i32, x as i32, val);
                if y >= 0 && x >= 0 && (y as usize) < h && (x as usize) < w {
                    m[y as usize][x as usize] = val;
                }
            }
            1 => {
                let (bw, bh) = (s.tail(9, 90) as i64, s.tail(9, 90) as i64);
                what = format!("a box of {} columns and {} rows at column {} row {}", bw, bh, x, y);
                m2::map2dDrawBox(&mut r, x as i32, y as i32, bw as i32, bh as i32, val);
                for (j, row) in m.iter_mut().enumerate() {
                    for (i, p) in row.iter_mut().enumerate() {
                        let (i, j) = (i as i64, j as i64);
                        if i >= x && i < x + bw && j >= y && j < y + bh {
                            *p = val;
                        }
                    }
                }
            }
            2 => {
                let q = s.tail(8, 40) as i64;
                what = format!("a circle of radius {} at column {} row {}", q, x, y);
                m2::map2dDrawCircle(&mut r, x as i32, y as i32, q as i32, val);
                for (j, row) in m.iter_mut().enumerate() {
                    for (i, p) in row.iter_mut().enumerate() {
                        let (i, j) = (i as i64 - x, j as i64 - y);
                        if i * i + j * j <= q * q {
                            *p = val;
                        }
                    }
                }
            }
            3 => {
                let (bx, by) = (s.range(-4, w as i64 + 4), s.range(-4, h as i64 + 4));
                if (bx, by) == (x, y) {
                    continue;
                }
                what = format!("a line from column {} row {} to column {} row {}", x, y, bx, by);
                m2::drawLine(&mut r, x as i32, y as i32, bx as i32, by as i32, val);
                let got = read(&r);
                let (dx, dy) = (bx - x, by - y);
                let l2 = dx * dx + dy * dy;
                for j in 0..h {
                    for i in 0..w {
                        let (ox, oy) = (i as i64 - x, j as i64 - y);
                        let dot = ox * dx + oy * dy;
                        let cross = ox * dy - oy * dx;
                        // exact: the foot is between the ends and the distance at most 1.5
                        let between = dot >= 0 && dot <= l2;
                        let on = between && 4 * cross * cross <= 9 * l2;
                        // rounding decides at the borders, except along the axes
                        let edge = dx != 0 && dy != 0 && (dot == 0 || dot == l2 || 4 * cross * cross == 9 * l2);
                        let painted = got[j][i] == val;
                        if edge && (painted || got[j][i] == m[j][i]) {
                            m[j][i] = got[j][i];
                            continue;
                        }
                        if on {
                            m[j][i] = val;
                        }
                    }
                }
            }
            _ => {
                let (sx, sy) = (s.tail(8, 60), s.tail(8, 60));
                what = format!("cutting {} columns and {} rows from column {} row {}", sx, sy, x, y);
                let cut = m2::crop(&r, x as i32, y as i32, sx as i32, sy as i32);
                ensure!(cut.w as usize == sx && cut.h as usize == sy, "{}: size {} {}", what, cut.w, cut.h);
                let want: M = (0..sy as i64).map(|j| (0..sx as i64).map(|i| at(&m, y + j, x + i)).collect()).collect();
                ensure!(near(&read(&cut), &want), "{} of {:?} gives {:?}", what, m, read(&cut));
            }
        }
        c.line(&what);
        ensure!(near(&read(&r), &m), "after {} of {:?} the map is {:?}, not {:?}", what, before, read(&r), m);
        changed |= m != before;
        for _ in 0..3 {
            let (y, x) = (s.range(-3, h as i64 + 3), s.range(-3, w as i64 + 3));
            let g = m2::readAt(&r, y as i32, x as i32);
            ensure!(g == at(&m, y, x), "{} is read at row {} column {} of {:?}", g, y, x, m);
        }
    }
    c.nontrivial = changed;
    Ok(())
}

fn arithmetic(s: &mut Src, c: &mut Ctx) -> R {
    let (h, w) = size(s);
    let (a, b) = (map(s, h, w), map(s, h, w));
    let (ra, rb) = (build(&a, w), build(&b, w));
    c.line(&format!("{:?} {:?}", a, b));
    let zip = |f: &dyn Fn(f64, f64) -> f64| -> M { (0..h).map(|y| (0..w).map(|x| f(a[y][x], b[y][x])).collect()).collect() };
    ensure!(near(&read(&m2::add(&ra, &rb)), &zip(&|x, y| x + y)), "the sum is {:?}", read(&m2::add(&ra, &rb)));
    ensure!(near(&read(&m2::sub(&ra, &rb)), &zip(&|x, y| x - y)), "the difference is {:?}", read(&m2::sub(&ra, &rb)));
    // what is not there counts as zero
    let (h2, w2) = size(s);
    let o = map(s, h2, w2);
    let ro = build(&o, w2);
    let other = |f: &dyn Fn(f64, f64) -> f64| -> M { (0..h).map(|y| (0..w).map(|x| f(a[y][x], at(&o, y as i64, x as i64))).collect()).collect() };
    ensure!(near(&read(&m2::add(&ra, &ro)), &other(&|x, y| x + y)), "the sum with a map of another size is {:?}", read(&m2::add(&ra, &ro)));
    ensure!(near(&read(&m2::sub(&ra, &ro)), &other(&|x, y| x - y)), "the difference to a map of another size is {:?}", read(&m2::sub(&ra, &ro)));
    let k = s.range(1, 9) as f64 * if s.bool() { 0.5 } else { -1.0 };
    ensure!(near(&read(&m2::divScalar(&ra, k)), &zip(&|x, _| x / k)), "the quotient is {:?}", read(&m2::divScalar(&ra, k)));
    let sq: f64 = a.iter().flatten().map(|x| x * x).sum();
    ensure!((m2::distPow2(&ra) - sq).abs() < 1e-9 * (1.0 + sq), "the square is {}", m2::distPow2(&ra));
    let mut cl = m2::clone(&ra);
    ensure!(near(&read(&cl), &a), "the copy is {:?}", read(&cl));
    m2::writeAt(&mut cl, 0, 0, 77.0);
    ensure!(near(&read(&ra), &a) && near(&read(&rb), &b), "the operands changed");
    c.nontrivial = h * w > 1;
    Ok(())
}

fn filters(s: &mut Src, c: &mut Ctx) -> R {
    let (h, w) = size(s);
    let img = map(s, h, w);
    let (kh, kw) = (1 + s.tail(5, 14), 1 + s.tail(5, 14));
    let ker = map(s, kh, kw);
    c.line(&format!("image of {} rows, {} columns; kernel of {} rows, {} columns {:?}", h, w, kh, kw, ker));
    let (ri, rk) = (build(&img, w), build(&ker, kw));
    let full: M = (0..h as i64)
        .map(|y| {
            (0..w as i64)
                .map(|x| {
                    let mut acc = 0.0;
                    for j in 0..kh {
                        for i in 0..kw {
                            acc += ker[j][i] * at(&img, y + j as i64 - (kh / 2) as i64, x + i as i64 - (kw / 2) as i64);
                        }
                    }
                    acc
                })
                .collect()
        })
        .collect();
    let got = read(&vc::convo(&ri, &rk));
    ensure!(near(&got, &full), "the image {:?} is filtered to {:?}, not {:?}", img, got, full);
    // the same inside, nothing at the border
    let inner: M = (0..h)
        .map(|y| {
            (0..w)
                .map(|x| {
                    let (by, bx) = (kh / 2 + 1, kw / 2 + 1);
                    if y >= by && y + by < h && x >= bx && x + bx < w {
                        full[y][x]
                    } else {
                        0.0
                    }
                })
                .collect()
        })
        .collect();
    let got = read(&vc::convWithoutBorder(&ri, &rk));
    ensure!(near(&got, &inner), "the image {:?} is filtered without border to {:?}, not {:?}", img, got, inner);
    c.nontrivial = inner.iter().flatten().any(|x| *x != 0.0) || (kh > 1 && kw > 1 && h > 1 && w > 1);
    // Gabor
    let n = 1 + s.tail(12, 40);
    let (phi, lambda, off, ratio) = (s.unit() * 6.28, 0.1 + s.unit() * if s.chance(1, 8) { 30.0 } else { 2.0 }, s.unit() * 6.28, 0.2 + s.unit() * 2.0);
    let g = read(&vc::generateGaborKernel(n as i32, phi, lambda, off, ratio));
    let sigma = 0.56 * lambda;
    for y in 0..n {
        for x in 0..n {
            let px = 2.0 * (x as f64 - (n / 2) as f64) / n as f64;
            let py = 2.0 * (y as f64 - (n / 2) as f64) / n as f64;
            let (u, t) = (px * phi.cos() + py * phi.sin(), py * phi.cos() - px * phi.sin());
            let want = (-(u * u + (ratio * t).powi(2)) / (2.0 * sigma * sigma)).exp() * (2.0 * std::f64::consts::PI * u / lambda + off).cos();
            ensure!((g[y][x] - want).abs() < 1e-9, "the kernel {} {} {} {} {} is {} at row {} column {}, not {}", n, phi, lambda, off, ratio, g[y][x], y, x, want);
        }
    }
    ensure!(g.len() == n && g.iter().all(|r| r.len() == n), "size of the kernel");
    Ok(())
}

fn tv(x: V) -> Tv {
    Tv { f: x.f, c: x.c }
}
fn of(x: &Tv) -> V {
    v(x.f, x.c)
}
fn vecs(s: &mut Src, c: &mut Ctx) -> R {
    let k = 1 + s.tail(8, 120);
    let gen = |s: &mut Src| -> Vec<V> { (0..k).map(|_| v(*s.pick(&[0.0, 1.0, 0.5, 0.3, 0.81]), if s.chance(1, 8) { 0.0 } else { s.unit() * 0.98 })).collect() };
    let (a, b) = (gen(s), gen(s));
    c.line(&format!("{:?} {:?}", a, b));
    let (ta, tb): (Vec<Tv>, Vec<Tv>) = (a.iter().map(|x| tv(*x)).collect(), b.iter().map(|x| tv(*x)).collect());
    let eq = |g: &[Tv], w: &[V]| g.len() == w.len() && g.iter().zip(w).all(|(x, y)| close(of(x), *y));
    let w: Vec<V> = a.iter().zip(&b).map(|(x, y)| rev(*x, *y)).collect();
    ensure!(eq(&TvVec::revVec(&ta, &tb), &w), "revision of vectors");
    let w: Vec<V> = a.iter().zip(&b).map(|(x, y)| comp(*x, *y)).collect();
    ensure!(eq(&TvVec::compVec(&ta, &tb), &w), "comparison of vectors");
    // pooling: the evidence adds up, whatever the order
    let ws: Vec<f64> = a.iter().map(|x| x.c / (1.0 - x.c)).collect();
    let sum: f64 = ws.iter().sum();
    let f = if sum > 0.0 { a.iter().zip(&ws).map(|(x, w)| x.f * w).sum::<f64>() / sum } else { 0.0 };
    let g = of(&TvVec::foldVec(&ta));
    ensure!(close(g, v(f, sum / (sum + 1.0))), "{:?} is folded to {:?}", a, g);
    // quantisation
    let n = 1 + s.tail(8, 300) as i64;
    let x = match s.usize(4) {
        0 => s.usize(n as usize) as f64 / (n as f64 - 1.0).max(1.0),
        1 => *s.pick(&[0.0, 1.0]),
        _ => s.unit(),
    };
    let conf = 0.01 + s.unit() * 0.9;
    let q = vb::quantisize(x, n);
    let want = (x * (n - 1) as f64).floor() as i64;
    ensure!(q == want && q >= 0 && q < n, "{} is step {} of {}", x, q, n);
    let t = vb::conv_to_tv_vec(x, n, conf);
    ensure!(t.len() as i64 == n && (0..n).all(|i| close(of(&t[i as usize]), v(if i == want { 1.0 } else { 0.0 }, conf))), "{} in {} steps is {:?}", x, n, t.iter().map(of).collect::<Vec<_>>());
    let (h, w) = (1 + s.usize(3), 1 + s.usize(3));
    let img: M = (0..h).map(|_| (0..w).map(|_| s.unit()).collect()).collect();
    let t = vb::conv_img_to_tv_vec(&build(&img, w), n, conf);
    let want: Vec<V> = img.iter().flatten().flat_map(|x| vb::conv_to_tv_vec(*x, n, conf).iter().map(of).collect::<Vec<_>>()).collect();
    ensure!(eq(&t, &want), "the image {:?} in {} steps", img, n);
    // attention is limited to the first ones
    let items: Vec<aera::PerceptItem<usize>> = (0..s.tail(7, 200)).map(|i| aera::PerceptItem { dat: i, salience: 0.5, novelity: 0.5 }).collect();
    let max = s.tail(8, 200);
    let l = aera::limit(&items, max);
    ensure!(l.iter().map(|x| x.dat).collect::<Vec<_>>() == (0..items.len().min(max)).collect::<Vec<_>>(), "{} items limited to {}", items.len(), max);
    c.nontrivial = k > 1;
    Ok(())
}

/// which one is chosen, if the choice is clear
fn choose(sims: &[f64]) -> Option<Option<usize>> {
    let best = sims.iter().cloned().fold(f64::MIN, f64::max);
    if sims.is_empty() || best < 0.5 - 1e-9 {
        return Some(None);
    }
    if best < 0.5 + 1e-9 || sims.iter().filter(|x| **x > best - 1e-9).count() > 1 {
        return None;
    }
    sims.iter().position(|x| *x == best).map(Some)
}
fn evidential(s: &mut Src, c: &mut Ctx) -> R {
    let (ch, dim) = (1 + s.tail(3, 7), 2 + s.tail(5, 24));
    let n = 2 + s.tail(3, 20) as i64;
    let mut cls = vb::PrototypeClassifier { prototypes: vec![], n_quantize: n, stimulus_conf: 0.05 };
    let mut model: Vec<(Vec<Vec<V>>, i64)> = vec![];
    let kinds: Vec<Vec<Vec<f64>>> = (0..1 + s.tail(4, 30)).map(|_| (0..ch).map(|_| (0..dim).map(|_| s.unit()).collect()).collect()).collect();
    let k = 1 + s.tail(14, 70);
    let (mut matched, mut fresh) = (0, 0);
    for t in 0..k as i64 {
        let base = &kinds[s.usize(kinds.len())];
        let conf = *s.pick(&[0.05, 0.1, 0.3]);
        let img: Vec<Vec<f64>> = base.iter().map(|x| x.iter().map(|y| if s.chance(1, 6) { s.unit() } else { *y }).collect()).collect();
        let stim: Vec<Vec<V>> = img.iter().map(|x| x.iter().flat_map(|y| { let q = (y * (n - 1) as f64) as i64; (0..n).map(move |i| v(if i == q { 1.0 } else { 0.0 }, conf)) }).collect()).collect();
        let st: Vec<vb::Channel> = stim.iter().map(|x| vb::Channel { v: x.iter().map(|y| tv(*y)).collect() }).collect();
        let add = s.chance(3, 4);
        let sims: Vec<f64> = model
            .iter()
            .map(|(p, _)| {
                let mut r = v(0.0, 0.0);
                for (a, b) in stim.iter().zip(p) {
                    for (x, y) in a.iter().zip(b) {
                        r = rev(r, comp(*x, *y));
                    }
                }
                expect(r)
            })
            .collect();
        let got = vb::calc_sims(&st, &cls);
        ensure!(got.len() == sims.len() && got.iter().zip(&sims).all(|(x, y)| (x - y).abs() < 1e-9), "the similarities are {:?}, not {:?}", got, sims);
        let want = choose(&sims);
        let mx = vb::classify_max(&got);
        let r = vb::classify(&mut cls, &st, t, add);
        c.line(&format!("{:?} add={} -> {:?}", sims, add, r));
        let hit = match want {
            Some(x) => x,
            None => mx.map(|x| x.0),
        };
        ensure!(mx.map(|x| x.0) == hit && mx.map_or(true, |x| x.1 == got[x.0]), "the best of {:?} is {:?}", got, mx);
        ensure!(hit.map_or(true, |i| sims[i] >= 0.5 - 1e-9 && sims.iter().all(|x| *x <= sims[i] + 1e-9)), "the best of {:?} is {:?}", sims, hit);
        let expect = hit.or(if add { Some(model.len()) } else { None });
        ensure!(r == expect, "{:?} is chosen of {:?}, not {:?}", r, sims, expect);
        if add {
            match hit {
                Some(i) => {
                    matched += 1;
                    model[i].1 = t;
                    for (a, b) in stim.iter().zip(model[i].0.iter_mut()) {
                        for (x, y) in a.iter().zip(b.iter_mut()) {
                            *y = rev(*y, *x);
                        }
                    }
                }
                None => {
                    fresh += 1;
                    model.push((stim, t));
                }
            }
        }
        ensure!(cls.prototypes.len() == model.len(), "{} prototypes, not {}", cls.prototypes.len(), model.len());
        for (i, (p, t)) in model.iter().enumerate() {
            let q = &cls.prototypes[i];
            ensure!(q.last_use_time == *t, "prototype {} was used at {}, not {}", i, q.last_use_time, t);
            ensure!(q.channels.len() == p.len() && q.channels.iter().zip(p).all(|(x, y)| x.v.len() == y.len() && x.v.iter().zip(y).all(|(a, b)| close(of(a), *b))), "prototype {} has the wrong evidence", i);
        }
    }
    c.nontrivial = matched > 0 && fresh > 1;
    Ok(())
}
fn realv(s: &mut Src, c: &mut Ctx) -> R {
    let (ch, h, w) = (1 + s.tail(3, 7), 1 + s.tail(3, 8), 1 + s.tail(3, 8));
    let mut cls = vd::RealPrototypeClassifier { prototypes: vec![] };
    // sum of what was seen, number, time
    let mut model: Vec<(Vec<M>, i64, i64)> = vec![];
    let kinds: Vec<Vec<M>> = (0..1 + s.tail(4, 30)).map(|_| (0..ch).map(|_| map(s, h, w)).collect()).collect();
    let k = 1 + s.tail(14, 70);
    let (mut matched, mut fresh) = (0, 0);
    for t in 0..k as i64 {
        let base = kinds[s.usize(kinds.len())].clone();
        let noise = *s.pick(&[0.0, 0.2, 0.6]);
        let stim: Vec<M> = base.iter().map(|m| m.iter().map(|r| r.iter().map(|x| x + noise * (s.unit() - 0.5)).collect()).collect()).collect();
        let st: Vec<vd::Channel> = stim.iter().map(|m| vd::Channel { v: build(m, w) }).collect();
        let add = s.chance(3, 4);
        let sims: Vec<f64> = model
            .iter()
            .map(|(p, n, _)| {
                let mut d = 0.0;
                for (a, b) in stim.iter().zip(p) {
                    for (x, y) in a.iter().flatten().zip(b.iter().flatten()) {
                        d += (x - y / *n as f64).powi(2);
                    }
                }
                (-0.5 * d).exp()
            })
            .collect();
        let got = vd::calc_sims(&st, &cls);
        ensure!(got.len() == sims.len() && got.iter().zip(&sims).all(|(x, y)| (x - y).abs() < 1e-9), "the similarities are {:?}, not {:?}", got, sims);
        let want = choose(&sims);
        let mx = vd::classify_max(&got);
        let r = vd::classify(&mut cls, &st, t, add);
        c.line(&format!("{:?} add={} -> {:?}", sims, add, r));
        let hit = match want {
            Some(x) => x,
            None => mx.map(|x| x.0),
        };
        ensure!(mx.map(|x| x.0) == hit && mx.map_or(true, |x| x.1 == got[x.0]), "the best of {:?} is {:?}", got, mx);
        ensure!(hit.map_or(true, |i| sims[i] >= 0.5 - 1e-9 && sims.iter().all(|x| *x <= sims[i] + 1e-9)), "the best of {:?} is {:?}", sims, hit);
        let expect = hit.or(if add { Some(model.len()) } else { None });
        ensure!(r == expect, "{:?} is chosen of {:?}, not {:?}", r, sims, expect);
        if add {
            match hit {
                Some(i) => {
                    matched += 1;
                    model[i].1 += 1;
                    model[i].2 = t;
                    for (a, b) in stim.iter().zip(model[i].0.iter_mut()) {
                        for (x, y) in a.iter().flatten().zip(b.iter_mut().flatten()) {
                            *y += *x;
                        }
                    }
                }
                None => {
                    fresh += 1;
                    model.push((stim, 1, t));
                }
            }
        }
        ensure!(cls.prototypes.len() == model.len(), "{} prototypes, not {}", cls.prototypes.len(), model.len());
        for (i, (p, n, t)) in model.iter().enumerate() {
            let q = &cls.prototypes[i];
            ensure!(q.last_use_time == *t && q.evidence_count == *n, "prototype {} was used at {} and seen {} times, not {} and {}", i, q.last_use_time, q.evidence_count, t, n);
            ensure!(q.channels.len() == p.len() && q.channels.iter().zip(p).all(|(x, y)| near(&read(&x.v), y)), "prototype {} is not the sum of what was seen", i);
        }
    }
    c.nontrivial = matched > 0 && fresh > 1;
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C22",
        vec![
            Part::new("draw", "something was drawn inside the map", 320000, 1000000, draw),
            Part::new("arithmetic", "more than one pixel", 160000, 300000, arithmetic),
            Part::new("filters", "the kernel has two dimensions or an inner pixel is filtered", 160000, 300000, filters),
            Part::new("vectors", "more than one component", 320000, 1000000, vecs),
            Part::new("evidential", "a prototype was revised and two were made", 80000, 200000, evidential),
            Part::new("real", "a prototype was revised and two were made", 80000, 200000, realv),
        ],
    ));
}
