//! Monitor of the conversation between a solver and its components (all in harness mode):
//! injects the planned component faults and checks the consistency of what the solver passes.
use crate::oracle;
use crate::prng::{mix, Rng};
use crate::spec::{CompFault, Fit, MonOut, Raw};

pub struct Mon {
    pub out: MonOut,
    fit: Fit,
    d: Raw,
    t: usize,
    lip: Vec<f64>,
    check: bool,
    inited: bool,
    calls: [u64; 8],
    cur_xw: Vec<f64>,
    cur_hash: u64,
    grad_at: Vec<u64>,
    grad_val: Vec<f64>,
    last_j: usize,
    vals_w: Vec<Vec<f64>>,
    vals_xw: Vec<Vec<f64>>,
    max_xw: f64,
    conv_w: Option<Vec<f64>>,
    eps: f64,
    last_off: (f64, f64),
    pass: Vec<u64>,
}

pub const T_GRAD: usize = 0;
pub const T_PROX: usize = 1;
pub const T_DFV: usize = 2;
pub const T_PENV: usize = 3;
pub const T_KKT: usize = 4;
pub const T_STEP: usize = 5;
const NAMES: [&str; 6] = ["grad", "prox", "dfvalue", "penvalue", "kkt", "step"];

fn hash(v: &[f64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in v {
        h = mix(h ^ x.to_bits());
    }
    h
}

pub fn apply(f: &CompFault, call: u64, k: u64, v: f64) -> f64 {
    let mut r = Rng::new(f.seed ^ mix(call) ^ mix(k + 77));
    match f.kind.as_str() {
        "noise" => v + f.val * r.normal(),
        "scale" => v * f.val,
        "neg" => -v,
        "zero" => 0.0,
        "const" => f.val,
        "random" => f.val * r.normal(),
        "nan" => f64::NAN,
        "inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "huge" => 1e300,
        "tiny" => 1e-310,
        _ => v,
    }
}

impl Mon {
    pub fn new(fit: &Fit, d: Raw) -> Mon {
        let t = oracle::tasks(&d, fit.algo);
        let lip = oracle::lipschitz(&d, fit.algo);
        let (n, p) = (d.n, d.p);
        Mon {
            out: MonOut::default(),
            check: fit.mon,
            fit: fit.clone(),
            d,
            t,
            lip,
            inited: false,
            calls: [0; 8],
            cur_xw: vec![0.0; n * t],
            cur_hash: 0,
            grad_at: vec![0; p],
            grad_val: vec![0.0; p * t],
            last_j: usize::MAX,
            vals_w: vec![],
            vals_xw: vec![],
            max_xw: 0.0,
            conv_w: None,
            eps: 1e-9,
            last_off: (0.0, 0.0),
            pass: vec![0; p],
        }
    }
    fn bad(&mut self, what: &str, msg: String) {
        if self.out.violations.len() < 5 {
            self.out.violations.push((what.to_string(), msg));
        }
    }
    /// Passes the values a component answers through the planned faults.
    pub fn fault(&mut self, target: usize, vals: &mut [f64]) {
        let c = self.calls[target];
        self.calls[target] += 1;
        self.out.seq += 1;
        let mut hit = false;
        for f in &self.fit.faults {
            if f.target == NAMES[target] && c >= f.from && c < f.to {
                if f.prob < 1.0 && (mix(f.seed ^ mix(c)) >> 11) as f64 / (1u64 << 53) as f64 >= f.prob {
                    continue;
                }
                hit = true;
                for (k, v) in vals.iter_mut().enumerate() {
                    *v = apply(f, c, k as u64, *v);
                }
            }
        }
        if hit {
            self.out.fault_hits += 1;
            self.out.last_fault_seq = self.out.seq;
        }
    }
    fn need_init(&mut self, who: &str) {
        if self.check && !self.inited {
            self.bad("protocol", format!("{} consulted before the datafit was initialised", who));
        }
    }
    fn see_xw(&mut self, xw: &[f64]) {
        if xw.len() != self.d.n * self.t {
            self.bad("protocol", format!("model fit of length {} passed, expected {}", xw.len(), self.d.n * self.t));
        }
        for v in xw {
            if v.is_finite() && v.abs() > self.max_xw {
                self.max_xw = v.abs();
                if self.max_xw > self.out.max_xw {
                    self.out.max_xw = self.max_xw;
                }
            }
        }
    }
    pub fn init(&mut self) {
        self.inited = true;
        self.out.init_calls += 1;
    }
    fn flush_values(&mut self) {
        if !self.vals_w.is_empty() && !self.vals_xw.is_empty() {
            self.bad("objective", "the datafit and the penalty of one objective were evaluated at different points".into());
        }
        self.vals_w.clear();
        self.vals_xw.clear();
    }
    fn close(&mut self, w: &[f64], xw: &[f64]) -> bool {
        if w.len() != self.d.p * self.t || xw.len() != self.d.n * self.t {
            return false;
        }
        let r = oracle::xw(&self.d, w, self.t);
        let mut scale = self.max_xw;
        for j in 0..self.d.p {
            for k in 0..self.t {
                let c = w[j * self.t + k].abs();
                if c > 0.0 {
                    let m = (self.lip[j] * self.d.n as f64 * if self.fit.algo.logistic() { 4.0 } else { 1.0 }).sqrt();
                    scale = scale.max(c * m);
                }
            }
        }
        let mut worst = 0.0f64;
        for (a, b) in r.iter().zip(xw) {
            if a.is_nan() || b.is_nan() || a.is_infinite() || b.is_infinite() {
                return true; // overflow: nothing to compare
            }
            worst = worst.max((a - b).abs());
        }
        let rel = if scale > 0.0 { worst / scale } else { worst };
        self.last_off = (worst, scale);
        if rel <= self.eps && rel > self.out.worst_xw {
            self.out.worst_xw = rel;
        }
        rel <= self.eps
    }
    /// gradient of feature j delivered (after faults) at model fit xw
    pub fn grad(&mut self, xw: &[f64], j: usize, val: &[f64]) {
        self.out.grad_calls += 1;
        if !self.check {
            for v in xw {
                if v.is_finite() && v.abs() > self.out.max_xw {
                    self.out.max_xw = v.abs();
                }
            }
            return;
        }
        self.need_init("gradient");
        self.see_xw(xw);
        self.flush_values();
        if j >= self.d.p {
            self.bad("protocol", format!("gradient of feature {} of {}", j, self.d.p));
            return;
        }
        let h = hash(xw);
        if h != self.cur_hash {
            self.cur_hash = h;
            self.cur_xw = xw.to_vec();
        }
        self.grad_at[j] = h;
        let t = self.t;
        if val.len() == t {
            self.grad_val[j * t..(j + 1) * t].copy_from_slice(val);
        }
        self.last_j = j;
    }
    pub fn dfvalue(&mut self, xw: &[f64]) {
        self.out.value_calls += 1;
        if !self.check {
            return;
        }
        self.need_init("objective");
        self.see_xw(xw);
        if let Some(i) = (0..self.vals_w.len()).find(|&i| {
            let w = self.vals_w[i].clone();
            self.close(&w, xw)
        }) {
            self.vals_w.remove(i);
        } else {
            self.vals_xw.push(xw.to_vec());
        }
    }
    pub fn penvalue(&mut self, w: &[f64]) {
        if !self.check {
            return;
        }
        if w.len() != self.d.p * self.t {
            self.bad("protocol", format!("penalty value of {} coefficients", w.len()));
            return;
        }
        if let Some(i) = (0..self.vals_xw.len()).find(|&i| {
            let x = self.vals_xw[i].clone();
            self.close(w, &x)
        }) {
            self.vals_xw.remove(i);
        } else {
            self.vals_w.push(w.to_vec());
        }
    }
    pub fn prox(&mut self, len: usize, step: f64) {
        self.out.prox_calls += 1;
        self.conv_w = None;
        self.out.conv = false;
        if !self.check {
            return;
        }
        if len != self.t {
            self.bad("protocol", format!("proximal step on {} values, expected {}", len, self.t));
        }
        let j = self.last_j;
        if j < self.d.p {
            self.pass[j] += 1;
            self.out.max_pass = self.out.max_pass.max(self.pass[j]);
            let l = self.lip[j];
            if (step * l - 1.0).abs() > 1e-9 {
                self.bad("step", format!("proximal step size {:e} for a feature with step constant {:e}", step, l));
            }
        }
    }
    /// value answered by the last proximal step
    pub fn prox_out(&mut self, v: &[f64]) {
        let j = self.last_j;
        if self.check && j < self.d.p {
            let m = (self.lip[j] * self.d.n as f64 * if self.fit.algo.logistic() { 4.0 } else { 1.0 }).sqrt();
            for x in v {
                if x.is_finite() && x.abs() * m > self.max_xw {
                    self.max_xw = x.abs() * m;
                }
            }
        }
    }
    fn check_ws(&mut self, ws: &[usize], who: &str) -> bool {
        let mut seen = vec![false; self.d.p];
        for &j in ws {
            if j >= self.d.p {
                self.bad("protocol", format!("{}: feature {} of {}", who, j, self.d.p));
                return false;
            }
            if seen[j] {
                self.bad("protocol", format!("{}: feature {} repeated in the working set", who, j));
                return false;
            }
            seen[j] = true;
        }
        true
    }
    /// before delivering optimality distances
    pub fn kkt_ask(&mut self, w: &[f64], grads: &[f64], ws: &[usize]) {
        self.out.kkt_calls += 1;
        if !self.check {
            return;
        }
        self.need_init("optimality");
        self.flush_values();
        if w.len() != self.d.p * self.t || grads.len() != ws.len() * self.t {
            self.bad("protocol", format!("optimality check with {} coefficients, {} gradients for {} features", w.len(), grads.len(), ws.len()));
            return;
        }
        if !self.check_ws(ws, "optimality check") {
            return;
        }
        for (i, &j) in ws.iter().enumerate() {
            if self.grad_at[j] != self.cur_hash {
                self.bad("stale", format!("optimality check uses a gradient of feature {} taken at another point", j));
                return;
            }
            for k in 0..self.t {
                let (a, b) = (grads[i * self.t + k], self.grad_val[j * self.t + k]);
                if a.to_bits() != b.to_bits() && (a - b).abs() > 1e-9 * a.abs().max(b.abs()) {
                    self.bad("stale", format!("optimality check of feature {} uses {:e}, the gradient delivered was {:e}", j, a, b));
                    return;
                }
            }
        }
        if !ws.is_empty() {
            let x = self.cur_xw.clone();
            if !self.close(w, &x) {
                let (off, scale) = self.last_off;
                self.bad("model-fit", format!("the model fit passed to the datafit is not the design times the coefficients being judged: off by {:e} at scale {:e}", off, scale));
            }
        }
        for j in 0..self.d.p {
            if self.lip[j] == 0.0 && w[j * self.t..(j + 1) * self.t].iter().any(|&v| v != 0.0) {
                self.bad("zero-column", format!("feature {} has a zero step constant and a non-zero coefficient", j));
            }
        }
    }
    pub fn kkt_answer(&mut self, w: &[f64], n_ws: usize, max: f64) {
        if n_ws == self.d.p {
            self.out.kkt_all_calls += 1;
            self.out.last_kkt_all = max.to_bits();
            self.out.last_kkt_all_seq = self.out.seq;
            self.out.conv = max <= self.fit.tol;
            self.conv_w = if max <= self.fit.tol { Some(w.to_vec()) } else { None };
        }
    }
    pub fn update(&mut self, len: usize, j: usize) {
        self.out.update_calls += 1;
        if !self.check {
            return;
        }
        if j >= self.d.p {
            self.bad("protocol", format!("update of feature {} of {}", j, self.d.p));
        } else if self.lip[j] == 0.0 {
            self.bad("zero-column", format!("update of feature {} whose step constant is zero", j));
        }
        if len != self.d.n * self.t {
            self.bad("protocol", format!("update of a model fit of length {}", len));
        }
    }
    pub fn extrap(&mut self, ws: &[usize], w_acc: &[f64]) {
        self.out.extrap_calls += 1;
        if !self.check {
            return;
        }
        if !self.check_ws(ws, "extrapolation") {
            return;
        }
        if w_acc.len() != self.d.p * self.t {
            self.bad("protocol", format!("extrapolation of {} coefficients", w_acc.len()));
            return;
        }
        for j in 0..self.d.p {
            if w_acc[j * self.t..(j + 1) * self.t].iter().any(|&v| v != 0.0) && !ws.contains(&j) {
                self.bad("protocol", format!("extrapolated coefficients outside the working set (feature {})", j));
                return;
            }
        }
    }
    pub fn end(&mut self, w: &[f64]) {
        if !self.check {
            return;
        }
        self.flush_values();
        if w.len() != self.d.p * self.t {
            self.bad("protocol", format!("{} coefficients returned", w.len()));
            return;
        }
        for j in 0..self.d.p {
            if self.lip[j] == 0.0 && w[j * self.t..(j + 1) * self.t].iter().any(|&v| v != 0.0) {
                self.bad("zero-column", format!("feature {} has a zero step constant and a non-zero coefficient", j));
            }
        }
        if let Some(c) = &self.conv_w {
            if c.iter().zip(w).any(|(a, b)| a.to_bits() != b.to_bits()) {
                self.bad("returned", "the coefficients returned are not those of the successful optimality check".into());
            }
        }
    }
}
