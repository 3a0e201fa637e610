//! Independent reference for the optimisation problems: objective, gradient, step constants
//! and optimality distances, written from the definitions with plain loops in f64.
use crate::spec::{Algo, Fit, Raw};

/// w is p x t row major (t = 1 for single task); returns X w, n x t row major
pub fn xw(d: &Raw, w: &[f64], t: usize) -> Vec<f64> {
    let mut r = vec![0.0; d.n * t];
    for j in 0..d.p {
        for k in 0..t {
            let c = w[j * t + k];
            if c != 0.0 {
                for i in 0..d.n {
                    r[i * t + k] += d.x[j * d.n + i] * c;
                }
            }
        }
    }
    r
}

pub fn tasks(d: &Raw, a: Algo) -> usize {
    if a.multi() {
        d.t
    } else {
        1
    }
}

fn target(d: &Raw, a: Algo, i: usize, k: usize) -> f64 {
    if a.multi() {
        d.ym[i * d.t + k]
    } else {
        d.y[i]
    }
}

pub fn datafit(d: &Raw, a: Algo, xw: &[f64]) -> f64 {
    let t = tasks(d, a);
    let mut s = 0.0;
    for i in 0..d.n {
        for k in 0..t {
            let (y, z) = (target(d, a, i, k), xw[i * t + k]);
            if a.logistic() {
                let m = -y * z;
                s += if m > 30.0 { m + (-m).exp().ln_1p() } else { m.exp().ln_1p() };
            } else {
                s += (y - z) * (y - z) / 2.0;
            }
        }
    }
    s / d.n as f64
}

pub fn gradient(d: &Raw, a: Algo, xw: &[f64]) -> Vec<f64> {
    let t = tasks(d, a);
    let mut r = vec![0.0; d.n * t];
    for i in 0..d.n {
        for k in 0..t {
            let (y, z) = (target(d, a, i, k), xw[i * t + k]);
            r[i * t + k] = if a.logistic() { -y / (1.0 + (y * z).exp()) } else { z - y };
        }
    }
    let mut g = vec![0.0; d.p * t];
    for j in 0..d.p {
        for k in 0..t {
            let mut s = 0.0;
            for i in 0..d.n {
                s += d.x[j * d.n + i] * r[i * t + k];
            }
            g[j * t + k] = s / d.n as f64;
        }
    }
    g
}

pub fn lipschitz(d: &Raw, a: Algo) -> Vec<f64> {
    (0..d.p)
        .map(|j| {
            let s: f64 = (0..d.n).map(|i| d.x[j * d.n + i] * d.x[j * d.n + i]).sum();
            s / d.n as f64 / if a.logistic() { 4.0 } else { 1.0 }
        })
        .collect()
}

fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}

pub fn penalty(f: &Fit, w: &[f64], t: usize) -> f64 {
    let mut s = 0.0;
    for row in w.chunks(t) {
        let m = norm(row);
        s += if f.algo.mcp() {
            if m < f.alpha * f.gamma {
                f.alpha * m - m * m / (2.0 * f.gamma)
            } else {
                f.gamma * f.alpha * f.alpha / 2.0
            }
        } else if f.algo.enet() {
            f.alpha * (f.l1_ratio * m + (1.0 - f.l1_ratio) * m * m / 2.0)
        } else if f.algo == Algo::L05 {
            f.alpha * m.sqrt()
        } else {
            f.alpha * m
        };
    }
    s
}

pub fn objective(d: &Raw, f: &Fit, w: &[f64]) -> f64 {
    let t = tasks(d, f.algo);
    datafit(d, f.algo, &xw(d, w, t)) + penalty(f, w, t)
}

/// distance of the negative gradient to the subdifferential of the penalty, per feature
pub fn kkt(d: &Raw, f: &Fit, w: &[f64]) -> Vec<f64> {
    let t = tasks(d, f.algo);
    let g = gradient(d, f.algo, &xw(d, w, t));
    let l1 = if f.algo.enet() { f.alpha * f.l1_ratio } else { f.alpha };
    (0..d.p)
        .map(|j| {
            let (gj, wj) = (&g[j * t..(j + 1) * t], &w[j * t..(j + 1) * t]);
            let m = norm(wj);
            if m == 0.0 {
                return if f.algo == Algo::L05 { 0.0 } else { (norm(gj) - l1).max(0.0) };
            }
            let v: Vec<f64> = gj
                .iter()
                .zip(wj)
                .map(|(&g, &w)| {
                    if f.algo.mcp() {
                        if m < f.alpha * f.gamma {
                            g + f.alpha * w / m - w / f.gamma
                        } else {
                            g
                        }
                    } else if f.algo.enet() {
                        g + f.alpha * (f.l1_ratio * w / m + (1.0 - f.l1_ratio) * w)
                    } else {
                        g + f.alpha * w / m
                    }
                })
                .collect();
            norm(&v)
        })
        .collect()
}

pub fn alpha_max(d: &Raw, a: Algo) -> f64 {
    let t = tasks(d, a);
    let g = gradient(d, a, &vec![0.0; d.n * t]);
    g.chunks(t.max(1)).map(norm).fold(0.0, f64::max)
}
