//! Oracles: whether the recorded history of a plan violates its property.
use crate::{exec, gen};
use simrt::oracle;
use simrt::prng::Rng;
use simrt::spec::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
fn viol(class: &str, msg: String) -> Option<Viol> {
    Some(Viol { class: class.into(), msg })
}

#[derive(Default)]
pub struct Ctx {
    memo: BTreeMap<String, OpRes>,
    pub stats: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
}

impl Ctx {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    fn absorb(&mut self, r: &RunRes) {
        let v = serde_json::to_value(&r.stats).unwrap();
        for (k, x) in v.as_object().unwrap() {
            *self.stats.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
        }
        for o in &r.ops {
            if o.kind != "none" {
                self.count(&format!("operations that ended in {}", o.kind), 1);
            }
        }
    }
    pub fn main_run(&mut self, p: &Plan) -> RunRes {
        let r = exec::run(p, false, false);
        self.absorb(&r);
        r
    }
    /// The same fit alone in a fresh process with everything at its default.
    pub fn solo(&mut self, prop: &str, d: &DataSpec, f: &Fit) -> OpRes {
        let mut g = f.clone();
        g.slot = None;
        g.ds = 0;
        let key = format!("{}{}", serde_json::to_string(d).unwrap(), serde_json::to_string(&g).unwrap());
        if let Some(r) = self.memo.get(&key) {
            return r.clone();
        }
        let mut p = gen::blank(prop, 0, 0);
        p.pool.push(d.clone());
        p.tasks.push(vec![Op::Fit(g)]);
        p.mode = "alone".into();
        gen::finish_cap(&mut p);
        let r = self.main_run(&p);
        let mut o = r.ops.first().cloned().unwrap_or_default();
        o.out = r.out;
        if let Some(x) = r.died.or(r.abort) {
            o.kind = "died".into();
            o.msg = x;
        }
        if self.memo.len() > 3000 {
            self.memo.clear();
        }
        self.memo.insert(key, o.clone());
        o
    }
}

/// Every fit of the plan with the data it is given: (task, op, fit, data)
pub fn walk(p: &Plan) -> Vec<(usize, u32, Fit, DataSpec)> {
    let mut pool = p.pool.clone();
    let mut v = vec![];
    for (t, ops) in p.tasks.iter().enumerate() {
        for (i, o) in ops.iter().enumerate() {
            match o {
                Op::Fit(f) | Op::Fork(f) => v.push((t, i as u32, f.clone(), pool[f.ds].clone())),
                Op::Mutate { ds, data } | Op::Rebuild { ds, data } => pool[*ds] = data.clone(),
                _ => {}
            }
        }
    }
    v
}

pub fn coefs(o: &OpRes, d: &DataSpec) -> Vec<f64> {
    o.bits
        .iter()
        .map(|&b| if d.dtype == "f32" { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) })
        .collect()
}

fn describe(t: usize, o: u32, f: &Fit, d: &DataSpec) -> String {
    format!(
        "task {} operation {} ({:?} via {:?}, {} {}, {}x{})",
        t, o, f.algo, f.api, d.storage, d.dtype, d.n, d.p
    )
}

/// Same outcome, same bits?
fn same(a: &OpRes, solo: &OpRes, d: &DataSpec) -> Option<String> {
    if solo.kind == "died" {
        return Some(format!("alone it {}", solo.msg));
    }
    if a.kind != solo.kind {
        return Some(format!("ended in {} ({}), alone in {} ({})", a.kind, a.msg, solo.kind, solo.msg));
    }
    if a.kind == "err" && a.msg != solo.msg {
        return Some(format!("failed with {:?}, alone with {:?}", a.msg, solo.msg));
    }
    if (a.rows, a.cols) != (solo.rows, solo.cols) {
        return Some(format!("returned {}x{} coefficients, alone {}x{}", a.rows, a.cols, solo.rows, solo.cols));
    }
    if a.bits != solo.bits {
        let (x, y) = (coefs(a, d), coefs(solo, d));
        let i = (0..a.bits.len()).find(|&i| a.bits[i] != solo.bits[i]).unwrap();
        return Some(format!("coefficient {} is {:e}, alone it is {:e}", i, x[i], y[i]));
    }
    None
}

fn ended_badly(r: &RunRes) -> Option<Viol> {
    if let Some(x) = &r.died {
        return viol("died", format!("the process was {}", x));
    }
    if let Some(x) = &r.abort {
        let c = if x.starts_with("deadlock") { "deadlock" } else { "hang" };
        return viol(c, x.clone());
    }
    None
}
fn classes(r: &RunRes, cs: &[&str]) -> Option<Viol> {
    r.violations.iter().find(|(c, _)| cs.contains(&c.as_str())).map(|(c, m)| Viol { class: c.clone(), msg: m.clone() })
}

pub struct Eval {
    pub viol: Option<Viol>,
    pub res: RunRes,
    pub nontrivial: bool,
}

pub fn find<'a>(r: &'a RunRes, t: usize, o: u32) -> Option<&'a OpRes> {
    r.ops.iter().find(|x| x.task == t && x.op == o)
}

/// Runs a plan and everything needed to judge it.
pub fn evaluate(p: &Plan, c: &mut Ctx) -> Eval {
    let res = c.main_run(p);
    let (viol, nontrivial) = judge(p, &res, c);
    Eval { viol, res, nontrivial }
}

fn judge(p: &Plan, r: &RunRes, c: &mut Ctx) -> (Option<Viol>, bool) {
    if p.prop == "C05" && p.step_cap == gen::MAX_STEPS && r.abort.as_ref().map_or(false, |a| a.starts_with("step-limit")) {
        c.count("fits stopped by the simulator's own step limit (not judged)", 1);
        return (None, false);
    }
    if let Some(v) = ended_badly(r) {
        return (Some(v), true);
    }
    match p.prop.as_str() {
        "C01" | "C08" => {
            let nt = r.stats.switches > p.tasks.len() as u64 || p.prop == "C08";
            if let Some(v) = classes(r, &["input-write", "input-changed"]) {
                if p.prop == "C01" {
                    return (Some(v), nt);
                }
            }
            (compare_all(p, r, c, false), nt)
        }
        "C02" => {
            let crashed = r.ops.iter().any(|o| o.kind == "crash" || o.kind == "panic" || o.kind == "err");
            if let Some(v) = classes(r, &["input-write", "input-changed"]) {
                return (Some(v), crashed);
            }
            (compare_all(p, r, c, true), crashed)
        }
        "C03" => {
            let hit = r.stats.wf_err + r.stats.wf_short + r.stats.wf_zero + r.stats.wf_stall > 0;
            for (t, o, f, d) in walk(p) {
                let x = match find(r, t, o) {
                    Some(x) => x.clone(),
                    None => continue,
                };
                if !f.verbose {
                    if x.counts.writes > 0 {
                        return (viol("silent", format!("{} wrote although verbosity is off", describe(t, o, &f, &d))), hit);
                    }
                }
                let quiet = c.solo(&p.prop, &d, &Fit { verbose: false, ..f.clone() });
                if let Some(m) = same(&x, &quiet, &d) {
                    return (viol("output", format!("{} with a failing output {}", describe(t, o, &f, &d), m)), hit);
                }
                let loud = c.solo(&p.prop, &d, &Fit { verbose: true, ..f.clone() });
                if let Some(m) = same(&loud, &quiet, &d) {
                    return (viol("verbose", format!("{} with a working output {}", describe(t, o, &f, &d), m)), hit);
                }
            }
            (None, hit)
        }
        "C04" => c04(p, r),
        "C05" => c05(p, r, c),
        "C06" => c06(p, r),
        "C07" => {
            let nt = r.ops.iter().any(|o| o.mon.kkt_calls > 1 && o.mon.prox_calls > 0);
            (classes(r, &["protocol", "stale", "model-fit", "zero-column", "step", "returned", "objective"]), nt)
        }
        "C10" => c10(p, r),
        "C13" => c13(p, r, c),
        "C16" => {
            let nt = r.stats.nested_fits > 0;
            if let Some(v) = classes(r, &["input-write", "input-changed"]) {
                return (Some(v), nt);
            }
            for n in &p.nests {
                let x = match find(r, n.task, n.id) {
                    Some(x) if x.kind != "crash" => x.clone(),
                    _ => continue,
                };
                let d = &p.pool[n.fit.ds];
                let s = c.solo(&p.prop, d, &n.fit);
                if let Some(m) = same(&x, &s, d) {
                    return (viol("inner-differs", format!("{}, started from call {} of a component of operation {}, {}", describe(n.task, n.id, &n.fit, d), n.n, n.op, m)), nt);
                }
            }
            (compare_all(p, r, c, true), nt)
        }
        "C14" => {
            let nt = r.stats.forks_mid_fit > 0;
            for (t, o, f, d) in walk(p) {
                if let Some(x) = find(r, t, o).filter(|x| x.kind == "died") {
                    let class = if x.msg.starts_with("deadlock") { "fork-deadlock" } else { "fork-died" };
                    return (viol(class, format!("{} in a forked process: {}", describe(t, o, &f, &d), x.msg)), nt);
                }
            }
            if let Some(v) = classes(r, &["input-write", "input-changed", "fork-twice"]) {
                return (Some(v), nt);
            }
            (compare_all(p, r, c, true), nt)
        }
        _ => (None, false),
    }
}

fn compare_all(p: &Plan, r: &RunRes, c: &mut Ctx, crashes: bool) -> Option<Viol> {
    for (t, o, f, d) in walk(p) {
        let x = match find(r, t, o) {
            Some(x) => x.clone(),
            None => return viol("lost", format!("{} never ended", describe(t, o, &f, &d))),
        };
        if crashes && x.kind == "crash" {
            continue;
        }
        let s = c.solo(&p.prop, &d, &f);
        if let Some(m) = same(&x, &s, &d) {
            return viol("differs", format!("{} {}", describe(t, o, &f, &d), m));
        }
    }
    None
}

fn c04(p: &Plan, r: &RunRes) -> (Option<Viol>, bool) {
    let mut best: Option<(f64, u32, usize)> = None;
    let mut null = 0.0;
    let mut strict = 0;
    for (t, o, f, d) in walk(p) {
        let x = match find(r, t, o) {
            Some(x) => x,
            None => continue,
        };
        if x.kind != "ok" {
            return (viol("failed", format!("{} ended in {}: {}", describe(t, o, &f, &d), x.kind, x.msg)), true);
        }
        let w = coefs(x, &d);
        let raw = generate(&d);
        if w.iter().any(|v| !v.is_finite()) {
            return (viol("not-finite", format!("{}: coefficients {:?}", describe(t, o, &f, &d), w)), true);
        }
        let obj = oracle::objective(&raw, &f, &w);
        if best.is_none() {
            null = oracle::objective(&raw, &f, &vec![0.0; w.len()]);
        }
        let slack = if d.flavor & FL_Y_TINY != 0 { 1e-5 * null.abs() } else { 1e-12 * null.abs() };
        if !(obj <= null + slack) {
            return (
                viol("worse-than-null", format!("{} with {} iterations of {} epochs: objective {:e}, null {:e}", describe(t, o, &f, &d), f.iters, f.epochs, obj, null)),
                true,
            );
        }
        if let Some((b, bi, be)) = best {
            if !(obj <= b + slack) {
                return (
                    viol(
                        "budget",
                        format!(
                            "{}: objective {:e} after {} iterations of {} epochs, {:e} after {} of {}",
                            describe(t, o, &f, &d),
                            obj,
                            f.iters,
                            f.epochs,
                            b,
                            bi,
                            be
                        ),
                    ),
                    true,
                );
            }
            if obj < b {
                strict += 1;
            }
        }
        best = Some((obj, f.iters as u32, f.epochs));
    }
    (None, strict >= 2)
}

fn c05(p: &Plan, r: &RunRes, c: &mut Ctx) -> (Option<Viol>, bool) {
    let (t, o, f, d) = walk(p).remove(0);
    let x = match find(r, t, o) {
        Some(x) => x,
        None => return (None, false),
    };
    let must = p.mode.contains("converges");
    if x.kind != "ok" {
        if must || p.mode == "clean-certificate" {
            return (viol("failed", format!("{} ended in {}: {}", describe(t, o, &f, &d), x.kind, x.msg)), true);
        }
        return (None, false);
    }
    let w = coefs(x, &d);
    let raw = generate(&d);
    let kkt = oracle::kkt(&raw, &f, &w);
    let worst = kkt.iter().cloned().fold(0.0, |a: f64, b| if b.is_nan() { f64::NAN } else { a.max(b) });
    let lip = oracle::lipschitz(&raw, f.algo);
    let lmax = lip.iter().cloned().fold(0.0, f64::max).sqrt();
    let ymax = raw.y.iter().chain(&raw.ym).fold(0.0f64, |a, b| a.max(b.abs()));
    let eps = if d.dtype == "f32" { 2e-6 } else { 1e-14 };
    // rounding of the incrementally updated model fit and of the gradient
    let wmax = w.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    let scale = x.mon.max_xw.max(ymax) * lmax.max(1e-300) + wmax * lmax * lmax + f.alpha;
    let slack = eps * scale * 300.0;
    let wrapped = f.api == Api::Wrapped;
    let mut clean_end = true;
    let mut ended = !wrapped;
    if wrapped {
        let last = f64::from_bits(x.mon.last_kkt_all);
        let quiet = x.mon.last_fault_seq == 0 || x.mon.last_fault_seq + (d.p as u64 + 1) < x.mon.last_kkt_all_seq;
        // not judged when a wrong answer came after or during the last check over all features
        clean_end = quiet && f.faults.iter().all(|k| k.to < u64::MAX) && x.mon.last_fault_seq < x.mon.last_kkt_all_seq;
        ended = x.mon.kkt_all_calls > 0 && last <= f.tol && x.mon.conv;
    }
    let faulted = x.mon.fault_hits > 0;
    if !clean_end {
        c.count("fits whose last optimality check was itself faulty (not judged)", 1);
        return (None, false);
    }
    // values so large that rounding or saturation forbids coming back are not judged
    let lost = slack > 0.1 * f.tol || (f.algo.logistic() && x.mon.max_xw > 30.0);
    if faulted && lost && !ended {
        c.count("fits whose wrong answers drove them beyond recovery in floating point (not judged)", 1);
        return (None, false);
    }
    if must && wrapped && !ended {
        return (
            viol("no-convergence", format!("{} did not end within {} iterations of {} epochs, distance {:e}, tolerance {:e}", describe(t, o, &f, &d), f.iters, f.epochs, worst, f.tol)),
            true,
        );
    }
    if must || ended {
        if !(worst <= f.tol * (1.0 + 1e-6) + slack) {
            return (
                viol("not-optimal", format!("{}: optimality distance {:e}, tolerance {:e} (rounding allowance {:e})", describe(t, o, &f, &d), worst, f.tol, slack)),
                true,
            );
        }
        c.count("fits that ended before their budget and were certified optimal", 1);
        return (None, faulted || !p.mode.starts_with("transient"));
    }
    (None, false)
}

fn c06(p: &Plan, r: &RunRes) -> (Option<Viol>, bool) {
    let (t, o, f, d) = walk(p).remove(0);
    let hurt = !d.corrupt.is_empty() || r.stats.component_faults > 0;
    if let Some(v) = classes(r, &["memory", "input-write", "input-changed"]) {
        return (Some(v), hurt);
    }
    let x = match find(r, t, o) {
        Some(x) => x,
        None => return (viol("lost", "the fit never ended".into()), hurt),
    };
    // a sparse matrix of another length describes another number of columns
    let cols = d.corrupt.iter().filter(|c| c.what == "ptrlen").fold(d.p, |p, c| if c.kind == "cut" && p > 0 { p - 1 } else { p + 1 });
    if f.api == Api::Wrapped {
        let passes = (f.iters as u64).saturating_mul(f.epochs as u64).min(1 << 40);
        let p_ = cols as u64;
        if x.mon.prox_calls > passes * p_ || x.mon.update_calls > passes * p_ {
            return (
                viol("budget", format!("{}: {} proximal steps and {} updates with {} features, {} iterations of {} epochs", describe(t, o, &f, &d), x.mon.prox_calls, x.mon.update_calls, p_, f.iters, f.epochs)),
                hurt,
            );
        }
        let checks = (f.iters as u64).saturating_mul(f.epochs as u64 / 10 + 2).min(1 << 40) + 2;
        if x.mon.grad_calls > 2 * (passes * p_ + checks * p_) || x.mon.kkt_calls > 2 * checks {
            return (
                viol("budget", format!("{}: {} gradients and {} optimality checks with {} features, {} iterations of {} epochs", describe(t, o, &f, &d), x.mon.grad_calls, x.mon.kkt_calls, p_, f.iters, f.epochs)),
                hurt,
            );
        }
    }
    // memory follows the problem's size, not the budget
    let (n, p_, t_, k) = (d.n as u64, d.p as u64, (if f.algo.multi() { d.t } else { 1 }) as u64, f.k as u64);
    let room = n * p_ + n * t_ + p_ * t_ * (k + 2) + k * k + n + p_ + t_ + k;
    if x.counts.peak > 200 * room + (16 << 10) {
        return (
            viol("room", format!("{}: {} bytes in use at once with {} iterations of {} epochs, more than any multiple of its arrays", describe(t, o, &f, &d), x.counts.peak, f.iters, f.epochs)),
            hurt,
        );
    }
    match x.kind.as_str() {
        "ok" => {
            let want = (cols, if f.algo.multi() { d.t } else { 1 });
            if (x.rows, x.cols) != want || x.bits.len() != want.0 * want.1 {
                return (viol("shape", format!("{}: {}x{} coefficients", describe(t, o, &f, &d), x.rows, x.cols)), hurt);
            }
            (None, hurt)
        }
        "panic" | "err" => (None, hurt),
        k => (viol("ending", format!("{}: ended in {}", describe(t, o, &f, &d), k)), hurt),
    }
}

fn c10(p: &Plan, r: &RunRes) -> (Option<Viol>, bool) {
    let n = r.rounds_live.len();
    if n < 4 {
        return (None, false);
    }
    let half = n / 2;
    let warm = r.rounds_live[..half].iter().map(|x| x.0).max().unwrap();
    let warmb = r.rounds_live[..half].iter().map(|x| x.1).max().unwrap();
    // Threads the fits start give their own memory back a little after they end, so the least of the
    // last rounds counts.
    let last = &r.rounds_live[n - (n / 4).max(3.min(n / 2))..];
    let end = last.iter().map(|x| x.0).min().unwrap();
    let endb = last.iter().map(|x| x.1).min().unwrap();
    if end > warm || endb > warmb {
        return (
            viol(
                "retained",
                format!(
                    "after {} rounds of the same fits {} bytes in {} blocks are retained, at most {} bytes in {} blocks after {}: {:?}",
                    n,
                    end,
                    endb,
                    warm,
                    warmb,
                    half,
                    r.rounds_live.iter().map(|x| x.0).collect::<Vec<_>>()
                ),
            ),
            true,
        );
    }
    let _ = p;
    (None, true)
}

/// The output is an interleaving of whole lines, each fit's being those it writes alone.
fn c13(p: &Plan, r: &RunRes, c: &mut Ctx) -> (Option<Viol>, bool) {
    struct W {
        t: usize,
        o: u32,
        lines: Vec<String>,
        from: u64,
        to: u64,
        cut: bool,
        what: String,
    }
    let mut ws: Vec<W> = vec![];
    for (t, o, f, d) in walk(p) {
        let x = match find(r, t, o) {
            Some(x) => x,
            None => return (viol("lost", format!("{} never ended", describe(t, o, &f, &d))), true),
        };
        let s = c.solo(&p.prop, &d, &f);
        let what = describe(t, o, &f, &d);
        if s.kind == "died" {
            return (viol("differs", format!("{} alone {}", what, s.msg)), true);
        }
        if !s.out.is_empty() && !s.out.ends_with('\n') {
            return (viol("partial", format!("{} alone leaves a line unfinished", what)), true);
        }
        if !f.verbose && !s.out.is_empty() {
            return (viol("silent", format!("{} writes although verbosity is off", what)), true);
        }
        ws.push(W {
            t,
            o,
            lines: s.out.lines().map(|l| l.to_string()).collect(),
            from: x.counts.out.0,
            to: x.counts.out.1,
            cut: x.kind == "crash",
            what,
        });
    }
    if r.out.len() >= 1 << 18 {
        c.count("runs with too much output (not judged)", 1);
        return (None, false);
    }
    if !r.out.is_empty() && !r.out.ends_with('\n') {
        return (viol("partial", format!("the output ends in an unfinished line: {:?}", r.out.lines().last())), true);
    }
    // states: how many lines of each fit have been accounted for
    let mut states: std::collections::BTreeSet<Vec<u32>> = [vec![0u32; ws.len()]].into_iter().collect();
    let mut at = 0u64;
    let mut n = 0u64;
    let mut mixed = 0u64;
    let mut last = usize::MAX;
    for l in r.out.split_inclusive('\n') {
        let (s, e) = (at, at + l.len() as u64);
        at = e;
        n += 1;
        let text = &l[..l.len() - 1];
        let mut next = std::collections::BTreeSet::new();
        for st in &states {
            for (k, w) in ws.iter().enumerate() {
                if w.from <= s && e <= w.to && w.lines.get(st[k] as usize).map_or(false, |x| x == text) {
                    let mut q = st.clone();
                    q[k] += 1;
                    next.insert(q);
                    if w.t != last {
                        mixed += 1;
                        last = w.t;
                    }
                }
            }
        }
        if next.is_empty() {
            let open: Vec<String> = ws.iter().filter(|w| w.from <= s && e <= w.to).map(|w| format!("task {} operation {}", w.t, w.o)).collect();
            return (viol("line", format!("line {} of the output, {:?}, is not the next line of any fit running then ({})", n, text, open.join(", "))), true);
        }
        states = next;
        if states.len() > 5000 {
            c.count("runs with ambiguous output (not judged)", 1);
            return (None, false);
        }
    }
    c.count("lines of output", n);
    c.count("changes of the writing task", mixed);
    let full = |st: &Vec<u32>| ws.iter().enumerate().find(|(k, w)| !w.cut && (st[*k] as usize) < w.lines.len());
    if states.iter().all(|st| full(st).is_some()) {
        let st = states.iter().next().unwrap();
        let (k, w) = full(st).unwrap();
        return (viol("missing", format!("{} had written {} of its {} lines when it ended", w.what, st[k], w.lines.len())), true);
    }
    let faults = r.stats.wf_short + r.stats.wf_err + r.stats.wf_stall > 0;
    (None, n > 0 && (mixed > ws.len() as u64 || faults || ws.iter().any(|w| w.cut)))
}

/// Generates and evaluates the case of an index. Returns the plan with its evaluation.
pub fn case(prop: &str, seed: u64, index: u64, c: &mut Ctx) -> (Plan, Eval) {
    let mut r: Rng = gen::rng(prop, seed, index);
    let mut p = gen::blank(prop, seed, index);
    let mut inner = vec![];
    match prop {
        "C01" => gen::c01(&mut r, &mut p),
        "C02" => gen::c02(&mut r, &mut p),
        "C03" => gen::c03(&mut r, &mut p),
        "C04" => gen::c04(&mut r, &mut p),
        "C05" => gen::c05(&mut r, &mut p),
        "C06" => gen::c06(&mut r, &mut p),
        "C07" => gen::c07(&mut r, &mut p),
        "C08" => gen::c08(&mut r, &mut p, index % 40 == 7),
        "C10" => gen::c10(&mut r, &mut p),
        "C13" => gen::c13(&mut r, &mut p),
        "C14" => gen::c14(&mut r, &mut p),
        "C16" => inner = gen::c16(&mut r, &mut p),
        _ => panic!("unknown property {}", prop),
    }
    gen::finish_cap(&mut p);
    let needs = p.tasks.len() > 1 || prop == "C02" || prop == "C13" || prop == "C16" || (prop == "C10" && r.chance(0.6));
    if needs {
        let mut lens: gen::Lens = p.tasks.iter().map(|t| vec![(0, 0, 0, 0); t.len()]).collect();
        let mut counts: Vec<Vec<(u64, u64)>> = p.tasks.iter().map(|t| vec![(0, 0); t.len()]).collect();
        for (t, o, f, d) in walk(&p) {
            let s = c.solo(prop, &d, &f);
            lens[t][o as usize] = (s.counts.mem, s.counts.shared_n, s.counts.alloc_n, s.counts.out_n);
            counts[t][o as usize] = (s.counts.arith, s.counts.seam);
        }
        if prop == "C02" || prop == "C10" || (prop == "C13" && r.chance(0.3)) || (prop == "C14" && r.chance(0.2)) {
            gen::c02_crashes(&mut r, &mut p, &counts);
        }
        let m = gen::preempts(&mut r, &mut p, &lens);
        if prop == "C16" {
            let of = |o: OpRes| (o.counts.seam, o.counts.arith, o.counts.mem);
            let inner: Vec<_> = inner.into_iter().map(|f| (f.clone(), of(c.solo(prop, &p.pool[f.ds], &f)))).collect();
            let outer: Vec<Vec<gen::Calls>> = (0..p.tasks.len()).map(|t| (0..counts[t].len()).map(|o| (counts[t][o].1, counts[t][o].0, lens[t][o].0)).collect()).collect();
            gen::c16_nests(&mut r, &mut p, &inner, &outer);
            gen::finish_cap(&mut p);
        }
        p.mode = format!("{}/{}", p.mode, m);
    }
    let e = evaluate(&p, c);
    c.count(&format!("mode {}", p.mode), 1);
    (p, e)
}
