#![allow(non_snake_case)]
//! C21 values and derivatives of the networks and of automatic differentiation are right
use nar20_1::ad;
use nar20_1::ad::Ad;
use nar20_1::mlutils;
use nar20_1::Nn;
use nar20_1::ModNlpA;
use vh::*;

/// an expression over earlier nodes; derivatives of the reference are collected backwards
#[derive(Debug, Clone)]
enum N {
    In(f64, f64),
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    Div(usize, usize),
    Exp(usize),
    Dot(Vec<usize>, Vec<usize>),
    Relu(usize),
    Sig(usize),
    Neuron(Vec<usize>, Vec<usize>, usize, u32),
}
fn sig(x: f64) -> f64 {
    1.0 / (1.0 + (-x).exp())
}
fn value(n: &N, v: &[f64]) -> f64 {
    let dot = |a: &[usize], b: &[usize]| -> f64 { a.iter().zip(b).map(|(i, j)| v[*i] * v[*j]).sum() };
    match n {
        N::In(r, _) => *r,
        N::Add(a, b) => v[*a] + v[*b],
        N::Sub(a, b) => v[*a] - v[*b],
        N::Mul(a, b) => v[*a] * v[*b],
        N::Div(a, b) => v[*a] / v[*b],
        N::Exp(a) => v[*a].exp(),
        N::Dot(a, b) => dot(a, b),
        N::Relu(a) => v[*a].max(0.0),
        N::Sig(a) => sig(v[*a]),
        N::Neuron(a, w, b, act) => {
            let x = dot(a, w) + v[*b];
            if *act == 0 {
                x.max(0.0)
            } else {
                sig(x)
            }
        }
    }
}
/// d(out)/d(each input), by adjoints
fn adjoints(ns: &[N], v: &[f64], out: usize, all: bool) -> Vec<f64> {
    // or the sum of all contributions without their signs
    let q = |x: f64| if all { x.abs() } else { x };
    let mut g = vec![0.0; ns.len()];
    g[out] = 1.0;
    for i in (0..=out).rev() {
        let k = g[i];
        if k == 0.0 {
            continue;
        }
        match &ns[i] {
            N::In(..) => {}
            N::Add(a, b) => {
                g[*a] += q(k);
                g[*b] += q(k);
            }
            N::Sub(a, b) => {
                g[*a] += q(k);
                g[*b] += q(-k);
            }
            N::Mul(a, b) => {
                g[*a] += q(k * v[*b]);
                g[*b] += q(k * v[*a]);
            }
            N::Div(a, b) => {
                g[*a] += q(k / v[*b]);
                g[*b] += q(-k * v[i] / v[*b]);
            }
            N::Exp(a) => g[*a] += q(k * v[i]),
            N::Dot(a, b) => {
                for (x, y) in a.iter().zip(b) {
                    g[*x] += q(k * v[*y]);
                    g[*y] += q(k * v[*x]);
                }
            }
            N::Relu(a) => {
                if v[*a] > 0.0 {
                    g[*a] += q(k)
                }
            }
            N::Sig(a) => g[*a] += q(k * v[i] * sig(-v[*a])),
            N::Neuron(a, w, b, act) => {
                let x: f64 = a.iter().zip(w).map(|(i, j)| v[*i] * v[*j]).sum::<f64>() + v[*b];
                let s = if *act == 0 {
                    if x > 0.0 {
                        1.0
                    } else {
                        0.0
                    }
                } else {
                    sig(x) * sig(-x)
                };
                for (x, y) in a.iter().zip(w) {
                    g[*x] += q(k * s * v[*y]);
                    g[*y] += q(k * s * v[*x]);
                }
                g[*b] += q(k * s);
            }
        }
    }
    g
}
fn real(s: &mut Src) -> f64 {
    match s.usize(6) {
        0 => *s.pick(&[0.0, 1.0, -1.0, 0.5, 2.0, -3.0]),
        1 => (s.unit() - 0.5) * *s.pick(&[0.01, 60.0, 400.0]),
        _ => (s.unit() - 0.5) * *s.pick(&[1.0, 4.0, 12.0]),
    }
}
fn same(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs() + b.abs() + scale)
}
fn expressions(s: &mut Src, c: &mut Ctx) -> R {
    let inputs = 1 + s.usize(5);
    let mut ns: Vec<N> = vec![];
    let mut v: Vec<f64> = vec![];
    let mut d: Vec<Ad> = vec![];
    // one input varies, or a direction
    let one = s.usize(inputs);
    let direction = s.chance(1, 3);
    for i in 0..inputs {
        let r = real(s);
        let dd = if direction { real(s) } else if i == one { 1.0 } else { 0.0 };
        ns.push(N::In(r, dd));
        v.push(r);
        d.push(Ad { r, d: dd });
    }
    let k = 1 + s.usize(10);
    let mut kinds = std::collections::BTreeSet::new();
    for _ in 0..k {
        let l = ns.len();
        let pick = |s: &mut Src| if s.bool() { l - 1 - s.usize(l.min(3)) } else { s.usize(l) };
        let (a, b) = (pick(s), pick(s));
        let kind = s.usize(9);
        let n = match kind {
            0 => N::Add(a, b),
            1 => N::Sub(a, b),
            2 => N::Mul(a, b),
            3 => N::Div(a, b),
            4 => N::Exp(a),
            5 | 6 => {
                let m = 1 + s.tail(4, 40);
                let x: Vec<usize> = (0..m).map(|_| pick(s)).collect();
                let y: Vec<usize> = (0..m).map(|_| pick(s)).collect();
                if kind == 5 {
                    N::Dot(x, y)
                } else {
                    N::Neuron(x, y, b, s.usize(3) as u32)
                }
            }
            7 => N::Relu(a),
            _ => N::Sig(a),
        };
        // stay where the functions are smooth and of moderate size
        let x = value(&n, &v);
        let ok = match &n {
            N::Div(_, b) => v[*b].abs() > if *b < inputs { 1e-4 } else { 0.05 },
            N::Exp(a) => v[*a] < 8.0,
            N::Sig(a) => v[*a].abs() < 5000.0,
            N::Relu(a) => v[*a].abs() > 1e-6,
            N::Neuron(p, w, b, act) => {
                let x: f64 = p.iter().zip(w).map(|(i, j)| v[*i] * v[*j]).sum::<f64>() + v[*b];
                x.abs() < 5000.0 && (*act != 0 || x.abs() > 1e-6)
            }
            _ => true,
        };
        if !ok || !x.is_finite() || x.abs() > 1e4 {
            continue;
        }
        let g = |i: &usize| d[*i].clone();
        let r = match &n {
            N::In(..) => unreachable!(),
            N::Add(a, b) => ad::add(&d[*a], &d[*b]),
            N::Sub(a, b) => ad::sub(&d[*a], &d[*b]),
            N::Mul(a, b) => ad::mul(&d[*a], &d[*b]),
            N::Div(a, b) => ad::div(&d[*a], &d[*b]),
            N::Exp(a) => ad::exp(&d[*a]),
            N::Dot(a, b) => ad::dot(&a.iter().map(g).collect::<Vec<_>>(), &b.iter().map(g).collect::<Vec<_>>()),
            N::Relu(a) => ad::reluAct(&d[*a]),
            N::Sig(a) => ad::sigmoidAct(&d[*a]),
            N::Neuron(a, w, b, act) => ad::calc(&a.iter().map(g).collect::<Vec<_>>(), &ad::Neuron { weights: w.iter().map(g).collect(), bias: d[*b].clone(), act: *act }),
        };
        c.line(&format!("{} = {:?}", ns.len(), n));
        kinds.insert(kind);
        ns.push(n);
        v.push(x);
        d.push(r);
        let i = ns.len() - 1;
        let adj = adjoints(&ns, &v, i, false);
        let total = adjoints(&ns, &v, i, true);
        let mut want = 0.0;
        let mut scale = 0.0;
        for (j, n) in ns.iter().enumerate() {
            if let N::In(_, dd) = n {
                want += adj[j] * dd;
                scale += (total[j] * dd).abs();
            }
        }
        if !want.is_finite() || want.abs() > 1e7 || scale > 1e7 {
            // too steep to compare: drop the node
            ns.pop();
            v.pop();
            d.pop();
            continue;
        }
        let big = adj.iter().map(|x| x.abs()).fold(0.0, f64::max) * 1e-3 + scale;
        ensure!(same(d[i].r, v[i], 0.0), "node {} {:?} of {:?} has the value {}, not {}", i, ns[i], ns, d[i].r, v[i]);
        ensure!(same(d[i].d, want, big), "node {} {:?} of {:?} has the derivative {}, not {}", i, ns[i], ns, d[i].d, want);
        c.evals += 1;
    }
    c.nontrivial = kinds.len() >= 2;
    Ok(())
}

/// the network built from parameters
fn network(s: &mut Src, c: &mut Ctx) -> R {
    let nin = 1 + s.tail(5, 40);
    let n0 = 1 + s.tail(4, 16);
    let n1 = 1 + s.tail(4, 12);
    let start = s.usize(4);
    let act0 = s.usize(2) as u32;
    let need = n0 * (nin + 1) + n1 * (n0 + 1);
    let params: Vec<f64> = (0..start + need + s.usize(4)).map(|_| (s.unit() - 0.5) * 2.0).collect();
    let diff = if s.chance(1, 5) { None } else { Some(start + s.usize(need)) };
    let mut at = start as i64;
    let nn = Nn::buildNnFromParameters(&mut at, &params, nin as i64, act0, n0 as i64, n1 as i64, diff);
    c.line(&format!("{} inputs, {} and {} neurons, activation {}, parameters from {}, derivative of {:?}", nin, n0, n1, act0, start, diff));
    ensure!(at as usize == start + need, "{} parameters are used, {} are needed", at as usize - start, need);
    ensure!(nn.neuronsLayer0.len() == n0 && nn.neuronsLayer1.len() == n1, "{} and {} neurons", nn.neuronsLayer0.len(), nn.neuronsLayer1.len());
    let x: Vec<f64> = (0..nin).map(|_| real(s)).collect();
    // reference: the output as a function of a change of the varied weight or bias
    let eval = |e: f64| -> Vec<f64> {
        let mut p = start;
        let mut layer = |inp: &[f64], n: usize, boost: f64, act: u32| -> Vec<f64> {
            let mut out = vec![];
            for _ in 0..n {
                let mut a = 0.0;
                for i in inp {
                    a += i * (params[p] + if diff == Some(p) { e } else { 0.0 });
                    p += 1;
                }
                a += params[p] * boost + if diff == Some(p) { e } else { 0.0 };
                p += 1;
                out.push(if act == 0 { a.max(0.0) } else { sig(a) });
            }
            out
        };
        let h = layer(&x, n0, 15.0, act0);
        layer(&h, n1, 8.0, 1)
    };
    let inp: Vec<Ad> = x.iter().map(|r| Ad { r: *r, d: 0.0 }).collect();
    let h: Vec<Ad> = nn.neuronsLayer0.iter().map(|n| ad::calc(&inp, n)).collect();
    let o: Vec<Ad> = nn.neuronsLayer1.iter().map(|n| ad::calc(&h, n)).collect();
    let want = eval(0.0);
    let e = 1e-5;
    let (lo, hi) = (eval(-e), eval(e));
    for i in 0..n1 {
        ensure!(same(o[i].r, want[i], 0.0), "output {} is {}, not {}", i, o[i].r, want[i]);
        let num = (hi[i] - lo[i]) / (2.0 * e);
        // a kink between both points
        let one_sided = ((hi[i] - want[i]) / e, (want[i] - lo[i]) / e);
        if (one_sided.0 - one_sided.1).abs() > 1e-2 {
            continue;
        }
        ensure!((o[i].d - num).abs() < 1e-4 * (1.0 + num.abs()), "the derivative of output {} is {}, not {}", i, o[i].d, num);
        c.nontrivial |= num.abs() > 1e-3;
    }
    Ok(())
}

/// the linear network of the language module, with derivatives
fn linear(s: &mut Src, c: &mut Ctx) -> R {
    let (ni, n0, n1) = (1 + s.tail(6, 70), 1 + s.tail(4, 20), 1 + s.tail(4, 20));
    let dual = |s: &mut Src| (real(s), if s.chance(1, 3) { real(s) } else { 0.0 });
    let mut layer = |s: &mut Src, n: usize, m: usize| ModNlpA::Layer {
        neurons: (0..n).map(|_| ModNlpA::WeightBias { weights: (0..m).map(|_| dual(s)).collect(), bias: dual(s) }).collect(),
    };
    let nn = ModNlpA::NeuralNetwork { layers: vec![layer(s, n0, ni), layer(s, n1, n0)] };
    let x: Vec<(f64, f64)> = (0..ni).map(|_| dual(s)).collect();
    c.line(&format!("{} inputs, {} and {} neurons", ni, n0, n1));
    let out = ModNlpA::forward(&nn, &x);
    // the output at a distance e along the derivatives is a polynomial of degree 3
    let eval = |e: f64| -> Vec<f64> {
        let at = |p: &(f64, f64)| p.0 + e * p.1;
        let mut v: Vec<f64> = x.iter().map(at).collect();
        for l in &nn.layers {
            v = l.neurons.iter().map(|n| n.weights.iter().zip(&v).map(|(w, y)| at(w) * y).sum::<f64>() + at(&n.bias)).collect();
        }
        v
    };
    ensure!(out.len() == n1, "{} outputs of {} neurons", out.len(), n1);
    let (v0, p1, m1, p2, m2) = (eval(0.0), eval(1.0), eval(-1.0), eval(2.0), eval(-2.0));
    for i in 0..n1 {
        // exact for polynomials of degree 4
        let d = (8.0 * (p1[i] - m1[i]) - (p2[i] - m2[i])) / 12.0;
        let scale = p2[i].abs() + m2[i].abs() + p1[i].abs();
        ensure!(same(out[i].0, v0[i], 1000.0), "output {} is {}, not {}", i, out[i].0, v0[i]);
        ensure!((out[i].1 - d).abs() < 1e-9 * (1.0 + scale + d.abs()), "the derivative of output {} is {}, not {}", i, out[i].1, d);
        c.nontrivial |= d.abs() > 1e-3;
    }
    Ok(())
}

/// vectors
fn vectors(s: &mut Src, c: &mut Ctx) -> R {
    let n = 1 + s.tail(8, 300);
    // of every magnitude
    let (ka, kb) = (*s.pick(&[1.0, 1.0, 1e-3, 1e4, 1e7]), *s.pick(&[1.0, 1.0, 1e-3, 1e4, 1e7]));
    let a: Vec<f64> = (0..n).map(|_| ka * real(s)).collect();
    let b: Vec<f64> = (0..n).map(|_| kb * real(s)).collect();
    let w = real(s);
    c.line(&format!("{:?} {:?} {}", a, b, w));
    let eq = |x: Vec<f64>, y: Vec<f64>, what: &str| -> R {
        ensure!(x.len() == n && x.iter().zip(&y).all(|(p, q)| same(*p, *q, 10.0 * (ka + kb) * (1.0 + w.abs()))), "{} of {:?}, {:?}, {} is {:?}", what, a, b, w, x);
        Ok(())
    };
    eq(mlutils::vecAdd(&a, &b), (0..n).map(|i| a[i] + b[i]).collect(), "the sum")?;
    eq(mlutils::vecAddScale(&a, &b, w), (0..n).map(|i| a[i] + w * b[i]).collect(), "the scaled sum")?;
    eq(mlutils::vecScale(&a, w), (0..n).map(|i| a[i] * w).collect(), "the multiple")?;
    let mut dot = 0.0;
    let (mut la, mut lb) = (0.0, 0.0);
    for i in (0..n).rev() {
        dot += a[i] * b[i];
        la += a[i] * a[i];
        lb += b[i] * b[i];
    }
    ensure!(same(mlutils::vecDot(&a, &b), dot, 100.0 * ka * kb), "the product of {:?}, {:?} is {}", a, b, mlutils::vecDot(&a, &b));
    ensure!(same(mlutils::vecLen(&a), la.sqrt(), 0.0), "the length of {:?} is {}", a, mlutils::vecLen(&a));
    if la > 1e-6 && lb > 1e-6 {
        let sim = mlutils::calcCosineSim(&a, &b);
        ensure!((sim - dot / (la * lb).sqrt()).abs() < 1e-9 && sim.abs() <= 1.0 + 1e-9, "the similarity of {:?}, {:?} is {}", a, b, sim);
        ensure!((mlutils::calcCosineSim(&a, &a) - 1.0).abs() < 1e-9, "{:?} is not like itself", a);
        ensure!((mlutils::calcCosineSim(&b, &a) - sim).abs() < 1e-9, "the similarity is not symmetric");
        c.nontrivial = n >= 2;
    }
    Ok(())
}

fn main() {
    main_prop(Prop::new(
        "C21",
        vec![
            Part::new("expressions", "two kinds of operations are composed", 3000000, 6000000, expressions),
            Part::new("network", "an output depends on the varied parameter", 600000, 1000000, network),
            Part::new("linear", "an output depends on the varied parameter", 600000, 1000000, linear),
            Part::new("vectors", "two or more components", 500000, 500000, vectors),
        ],
    ));
}
