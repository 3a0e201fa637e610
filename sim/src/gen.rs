//! Seeded generation of plans. Everything a run does follows from (seed, property, index).
use simrt::oracle;
use simrt::prng::{hash_str, mix, Rng};
use simrt::sched::{Crash, Env, Preempt, Wr, WriteFaults};
use simrt::spec::*;

pub fn rng(prop: &str, seed: u64, index: u64) -> Rng {
    Rng::new(mix(seed ^ hash_str(prop)) ^ mix(index.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xabcdef))
}

#[derive(Clone, Copy)]
pub struct Size {
    pub n: (usize, usize),
    pub p: (usize, usize),
    pub t: (usize, usize),
}
pub const TINY: Size = Size { n: (1, 6), p: (1, 5), t: (1, 3) };
pub const SMALL: Size = Size { n: (3, 12), p: (1, 10), t: (1, 3) };
pub const MEDIUM: Size = Size { n: (10, 40), p: (10, 40), t: (1, 4) };
pub const WIDE: Size = Size { n: (4, 16), p: (17, 72), t: (1, 6) };
pub const TALL: Size = Size { n: (65, 140), p: (2, 12), t: (1, 3) };

/// One of the given sizes, or now and then a wide or a tall problem.
pub fn size(r: &mut Rng, of: &[Size]) -> Size {
    match r.below(96) {
        0..=7 => WIDE,
        8..=11 => TALL,
        12 => Size { n: (4, 10), p: (130, 300), t: (1, 12) },
        13 => Size { n: (200, 600), p: (1, 4), t: (1, 2) },
        _ => *r.pick(of),
    }
}

pub fn data(r: &mut Rng, z: Size, dtypes: &[&str]) -> DataSpec {
    let mut flavor = 0;
    for (f, pr) in [
        (FL_ZERO_COLS, 0.2),
        (FL_DUP_COLS, 0.15),
        (FL_SCALES, 0.2),
        (FL_CORR, 0.2),
        (FL_Y_ZERO, 0.03),
        (FL_EXPL_ZEROS, 0.3),
        (FL_UNSORTED, 0.2),
        (FL_INTEGER, 0.15),
        (FL_SPARSE_TRUE, 0.5),
        (FL_MIRROR, 0.05),
        (FL_Y_SCALED, 0.04),
    ] {
        if r.chance(pr) {
            flavor |= f;
        }
    }
    DataSpec {
        n: r.range(z.n.0, z.n.1),
        p: r.range(z.p.0, z.p.1),
        t: r.range(z.t.0, z.t.1),
        seed: r.u64(),
        storage: r.pick(&["c", "f", "strided", "rev", "view", "csc", "csc"]).to_string(),
        density: *r.pick(&[1.0, 1.0, 0.7, 0.4]),
        flavor,
        dtype: r.pick(dtypes).to_string(),
        labels: r.chance(0.3),
        corrupt: vec![],
    }
}

pub const ALL: [Algo; 10] = [
    Algo::Lasso,
    Algo::Enet,
    Algo::Mcp,
    Algo::L05,
    Algo::LogL1,
    Algo::LogEnet,
    Algo::LogMcp,
    Algo::MtLasso,
    Algo::MtEnet,
    Algo::BlockMcp,
];

pub fn fit(r: &mut Rng, ds: usize, d: &DataSpec, algos: &[Algo], apis: &[Api]) -> Fit {
    let mut algo = *r.pick(algos);
    if algo.logistic() && !d.labels && algos.len() > 3 && r.chance(0.9) {
        algo = *r.pick(&[Algo::Lasso, Algo::Enet, Algo::Mcp, Algo::MtLasso, Algo::MtEnet, Algo::BlockMcp]);
    }
    let mut api = *r.pick(apis);
    if api == Api::Est && !algo.estimator() {
        api = Api::Solver;
    }
    if api == Api::Wrapped && d.dtype != "f64" {
        api = Api::Solver;
    }
    let amax = {
        let raw = generate(&DataSpec { corrupt: vec![], ..d.clone() });
        let a = oracle::alpha_max(&raw, algo);
        if a.is_finite() && a > 0.0 {
            a
        } else {
            1.0
        }
    };
    let frac = *r.pick(&[0.001, 0.01, 0.05, 0.1, 0.2, 0.4, 0.6, 0.9, 1.1]);
    Fit {
        ds,
        algo,
        api,
        alpha: amax * frac * (0.8 + 0.4 * r.f64()),
        gamma: *r.pick(&[1.5, 3.0, 3.0, 10.0, 50.0]),
        l1_ratio: *r.pick(&[0.1, 0.5, 0.9, 1.0]),
        ws: *r.pick(&[1, 2, 3, 10, 10, d.p.max(1), d.p + 5, (d.p / 2).max(1)]),
        iters: if r.chance(0.04) { *r.pick(&[17, 33, 60]) } else { *r.pick(&[1, 2, 3, 5, 10]) },
        epochs: if r.chance(0.04) { *r.pick(&[55, 101, 150]) } else { *r.pick(&[1, 3, 11, 12, 25, 40]) },
        tol: *r.pick(&[1e-2, 1e-4, 1e-6, 1e-9, 0.0]) * if algo.logistic() { 1.0 } else { y_scale(d) },
        k: if r.chance(0.05) { r.range(9, 14) } else { *r.pick(&[1, 2, 3, 5, 5, 5, 8]) },
        accel: r.chance(0.8),
        verbose: r.chance(0.25),
        share: r.chance(0.6),
        slot: if r.chance(0.6) { Some(r.below(2) as u32) } else { None },
        mon: true,
        faults: vec![],
    }
}

pub const MAX_STEPS: u64 = 3_000_000_000;
pub fn step_cap(d: &DataSpec, f: &Fit) -> u64 {
    // a generous multiple of the work the budget allows
    let t = if f.algo.multi() { d.t as u64 } else { 1 };
    let (n, p) = (d.n as u64, d.p as u64);
    let pass = (p + 4) * (n + 12) * (t + 3) * 60 + 4000;
    let acc = ((f.k as u64 + 2).pow(3) + (f.k as u64 + 2).pow(2) * p * t + n * p * t) * 200 + 4000;
    let chk = (p + 4) * (n + 12) * (t + 3) * 100 + 20_000;
    let (it, ep) = ((f.iters as u64).min(1 << 20), (f.epochs as u64).min(1 << 20));
    let work = (it + 1).saturating_mul((ep + 1).saturating_mul(pass + acc)).saturating_add((it + 2).saturating_mul(chk.saturating_mul(ep / 10 + 2)));
    (work.saturating_mul(4).saturating_add(2_000_000)).min(MAX_STEPS)
}

pub fn finish_cap(p: &mut Plan) {
    let mut m = 2_000_000;
    for t in &p.tasks {
        let mut pool = p.pool.clone();
        for o in t {
            match o {
                Op::Fit(f) | Op::Fork(f) => m = m.max(step_cap(&pool[f.ds], f)),
                Op::Mutate { ds, data } | Op::Rebuild { ds, data } => pool[*ds] = data.clone(),
                _ => {}
            }
        }
    }
    for n in &p.nests {
        m = m.max(step_cap(&p.pool[n.fit.ds], &n.fit));
    }
    p.step_cap = m;
}

pub fn env(r: &mut Rng) -> Env {
    let mut jumps = vec![];
    for _ in 0..r.below(3) {
        jumps.push((r.below(12), *r.pick(&[1_000_000_000i64, -1_000_000_000, 3_600_000_000_000, -3_600_000_000_000, 86_400_000_000_000 * 400, 1])));
    }
    Env {
        seed: r.u64(),
        clock0: *r.pick(&[0, 1_000_000_000_000, 1_700_000_000_000_000_000, 4_000_000_000_000_000_000]),
        tick: *r.pick(&[0, 1, 1000, 5_000_000]),
        jumps,
        env_noise: r.chance(0.5),
        ncpu: *r.pick(&[1, 2, 4, 64]),
        reuse: r.pick(&["lifo", "lifo", "fifo", "random", "never"]).to_string(),
        fill: *r.pick(&[0x00, 0xA5, 0xFF, 0x3F, 0x7F]),
        fill_free: r.chance(0.5),
        pad: r.below(64) as usize,
    }
}

pub fn blank(prop: &str, seed: u64, index: u64) -> Plan {
    Plan {
        prop: prop.into(),
        seed,
        index,
        pool: vec![],
        tasks: vec![],
        preempts: vec![],
        crashes: vec![],
        wfaults: vec![],
        env: Env::default(),
        first: 0,
        step_cap: 0,
        rounds: 0,
        mode: String::new(),
        nests: vec![],
    }
}

/// Length of each operation of the plan as measured alone: (steps, shared accesses, allocations)
pub type Lens = Vec<Vec<(u64, u64, u64, u64)>>;

pub fn preempts(r: &mut Rng, p: &mut Plan, lens: &Lens) -> &'static str {
    let nt = p.tasks.len();
    if nt < 2 {
        return "single";
    }
    p.first = r.below(nt as u64) as usize;
    let other = |r: &mut Rng, t: usize| (t + 1 + r.below(nt as u64 - 1) as usize) % nt;
    let ops: Vec<(usize, u32, u64, u64, u64, u64)> = lens
        .iter()
        .enumerate()
        .flat_map(|(t, v)| v.iter().enumerate().filter(|(_, l)| l.0 > 0).map(move |(o, l)| (t, o as u32, l.0, l.1, l.2, l.3)))
        .collect();
    if ops.is_empty() {
        return "single";
    }
    let mode = *r.pick(&["uniform", "uniform", "touch", "touch", "touch", "alloc", "quantum", "burst", "pct", "mixed"]);
    let mut v: Vec<Preempt> = vec![];
    let uniform = |r: &mut Rng, v: &mut Vec<Preempt>, k: u64| {
        for _ in 0..k {
            let o = *r.pick(&ops);
            v.push(Preempt { task: o.0, op: o.1, at: 1 + r.below(o.2), to: other(r, o.0), on: 0 });
        }
    };
    let counted = |r: &mut Rng, v: &mut Vec<Preempt>, on: u8| {
        let pr = *r.pick(&[0.02, 0.1, 0.5, 1.0]);
        for o in &ops {
            let n = if on == 1 { o.3 } else { o.4 };
            // beginnings of operations matter most
            for k in 1..=(n + 2).min(400) {
                if r.chance(pr) {
                    v.push(Preempt { task: o.0, op: o.1, at: k, to: other(r, o.0), on });
                }
            }
            if n > 400 {
                for _ in 0..40 {
                    if r.chance(pr) {
                        v.push(Preempt { task: o.0, op: o.1, at: 1 + r.below(n), to: other(r, o.0), on });
                    }
                }
            }
        }
    };
    let output = |r: &mut Rng, v: &mut Vec<Preempt>| {
        let pr = *r.pick(&[0.05, 0.2, 0.6]);
        for o in &ops {
            for k in 1..=o.5.min(600) {
                if r.chance(pr) {
                    v.push(Preempt { task: o.0, op: o.1, at: k * 8 + r.below(8), to: other(r, o.0), on: 3 });
                }
            }
        }
    };
    if p.prop == "C13" {
        let m = *r.pick(&["output", "output", "output", "output+uniform", "uniform", "output+touch", "alloc"]);
        if m.starts_with("output") {
            output(r, &mut v);
        }
        if m.ends_with("uniform") {
            let k = *r.pick(&[1, 4, 16, 64, 300]);
            uniform(r, &mut v, k);
        }
        if m.ends_with("touch") {
            counted(r, &mut v, 1);
        }
        if m == "alloc" {
            counted(r, &mut v, 2);
        }
        v.sort_by_key(|p| (p.task, p.op, p.on, p.at));
        v.dedup_by_key(|p| (p.task, p.op, p.on, p.at));
        p.preempts = v;
        return m;
    }
    match mode {
        "uniform" => {
            let k = *r.pick(&[1, 2, 4, 16, 64, 300]);
            uniform(r, &mut v, k)
        }
        "touch" => counted(r, &mut v, 1),
        "alloc" => counted(r, &mut v, 2),
        "quantum" => {
            let q = *r.pick(&[7, 31, 101, 503, 2003, 10007, 50021]);
            let mut total = 0;
            for o in &ops {
                let mut at = 1 + r.below(q);
                while at <= o.2 && total < 20_000 {
                    v.push(Preempt { task: o.0, op: o.1, at, to: (o.0 + 1) % nt, on: 0 });
                    at += q;
                    total += 1;
                }
            }
        }
        "burst" => {
            for _ in 0..r.range(1, 4) {
                let o = *r.pick(&ops);
                let s = 1 + r.below(o.2);
                let k = r.range(1, 5) as u64;
                for i in 0..r.range(20, 400) as u64 {
                    v.push(Preempt { task: o.0, op: o.1, at: s + i * k, to: other(r, o.0), on: 0 });
                }
            }
        }
        "pct" => {
            let k = r.range(1, 3) as u64;
            uniform(r, &mut v, k)
        }
        _ => {
            uniform(r, &mut v, 20);
            counted(r, &mut v, 1);
            counted(r, &mut v, 2);
        }
    }
    v.sort_by_key(|p| (p.task, p.op, p.on, p.at));
    v.dedup_by_key(|p| (p.task, p.op, p.on, p.at));
    p.preempts = v;
    mode
}

/// A fit that panics by itself (bad data or settings).
pub fn break_fit(r: &mut Rng, d: &mut DataSpec, f: &mut Fit) {
    match r.below(4) {
        0 => d.corrupt.push(Corrupt { what: "x".into(), at: r.u64() >> 8, kind: "nan".into(), bit: 0 }),
        1 => d.corrupt.push(Corrupt { what: "y".into(), at: r.u64() >> 8, kind: "nan".into(), bit: 0 }),
        2 if d.storage == "csc" => d.corrupt.push(Corrupt { what: "idx".into(), at: r.u64() >> 8, kind: "bit".into(), bit: r.below(31) as u32 }),
        3 if d.storage == "csc" => d.corrupt.push(Corrupt { what: "ptr".into(), at: r.u64() >> 8, kind: "bit".into(), bit: r.below(31) as u32 }),
        _ => {
            f.k = 0;
            f.accel = true;
            f.iters = f.iters.max(1);
            f.epochs = f.epochs.max(1);
        }
    }
}

const APIS: [Api; 5] = [Api::Est, Api::Est, Api::Solver, Api::Wrapped, Api::Wrapped];

pub fn c01(r: &mut Rng, p: &mut Plan) {
    let z = size(r, &[TINY, SMALL, SMALL]);
    for _ in 0..r.range(1, 3) {
        p.pool.push(data(r, z, &["f64", "f64", "f32", "sim"]));
    }
    let template = r.chance(0.3);
    let mut first: Option<Fit> = None;
    let nt = if r.chance(0.03) { r.range(5, 8) } else { r.range(2, 4) };
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(1, 3) {
            let ds = r.below(p.pool.len() as u64) as usize;
            let mut f = fit(r, ds, &p.pool[ds].clone(), &ALL, &APIS);
            if let (true, Some(g)) = (template, &first) {
                // the same problem from several threads, or with one setting changed
                f = g.clone();
                if r.chance(0.3) {
                    f.alpha *= 0.5;
                }
            }
            if r.chance(0.05) {
                let mut d = p.pool[ds].clone();
                break_fit(r, &mut d, &mut f);
                if d != p.pool[ds] {
                    p.pool.push(d);
                    f.ds = p.pool.len() - 1;
                }
            }
            if first.is_none() {
                first = Some(f.clone());
            }
            ops.push(Op::Fit(f));
        }
        p.tasks.push(ops);
    }
    p.env = env(r);
    p.mode = "interleave".into();
}

pub fn c02(r: &mut Rng, p: &mut Plan) {
    let z = size(r, &[TINY, TINY, SMALL]);
    for _ in 0..r.range(1, 2) {
        p.pool.push(data(r, z, &["f64", "f64", "sim", "sim", "f32"]));
    }
    let nt = *r.pick(&[1, 1, 2, 3]);
    for _ in 0..nt {
        let mut ops: Vec<Op> = vec![];
        for k in 0..r.range(2, 5) {
            let ds = r.below(p.pool.len() as u64) as usize;
            let mut f = fit(r, ds, &p.pool[ds].clone(), &ALL, &APIS);
            f.slot = if r.chance(0.9) { Some(0) } else { None };
            f.share = r.chance(0.8);
            if k > 0 && r.chance(0.7) {
                // again exactly what was abandoned, or nearly
                let prev = ops.iter().rev().find_map(|o| if let Op::Fit(g) = o { Some(g.clone()) } else { None }).unwrap();
                f = prev;
                match r.below(6) {
                    0 => f.alpha *= 0.7,
                    1 => f.verbose = !f.verbose,
                    2 => f.accel = !f.accel,
                    _ => {}
                }
            }
            if r.chance(0.1) {
                let mut d = p.pool[f.ds].clone();
                break_fit(r, &mut d, &mut f);
                if d != p.pool[f.ds] {
                    p.pool.push(d);
                    f.ds = p.pool.len() - 1;
                }
            }
            ops.push(Op::Fit(f));
        }
        p.tasks.push(ops);
    }
    p.env = env(r);
    p.mode = "crash".into();
}

pub fn c02_crashes(r: &mut Rng, p: &mut Plan, counts: &[Vec<(u64, u64)>]) {
    // counts: (arithmetic operations, component calls) of each operation alone
    for (t, v) in counts.iter().enumerate() {
        for (o, &(ar, se)) in v.iter().enumerate() {
            let last = o + 1 == v.len();
            if (last && r.chance(0.85)) || r.chance(0.35) {
                continue;
            }
            let arith = ar > 0 && (se == 0 || r.chance(0.7));
            let n = if arith { ar } else { se };
            if n == 0 {
                continue;
            }
            // crash points are spread over the whole operation, its beginning and its end
            let at = match r.below(4) {
                0 => 1 + r.below(n.min(40)),
                1 => n - r.below(n.min(40)),
                _ => 1 + r.below(n),
            };
            p.crashes.push(Crash { task: t, op: o as u32, at: if arith { "arith" } else { "seam" }.into(), n: at });
        }
    }
}

pub fn c03(r: &mut Rng, p: &mut Plan) {
    let z = size(r, &[TINY, SMALL]);
    let nt = *r.pick(&[1, 1, 1, 2, 3]);
    for _ in 0..r.range(1, 2) {
        p.pool.push(data(r, z, &["f64", "f64", "f32", "sim"]));
    }
    for t in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(1, 3) {
            let ds = r.below(p.pool.len() as u64) as usize;
            let mut f = fit(r, ds, &p.pool[ds].clone(), &ALL, &APIS);
            f.verbose = r.chance(0.85);
            ops.push(Op::Fit(f));
        }
        p.tasks.push(ops);
        let errs = [32, 28, 5, 11, 9, 14, 27, 122, 104]; // EPIPE ENOSPC EIO EAGAIN EBADF EFAULT EFBIG EDQUOT ECONNRESET
        let mut w = WriteFaults { task: t, at: vec![], from: None, then: None };
        let kinds = r.range(1, 3);
        for _ in 0..kinds {
            match r.below(7) {
                0 => {
                    w.from = Some(*r.pick(&[0, 0, 1, 2, 5, 20]));
                    w.then = Some(match r.below(5) {
                        0 => Wr::Zero,
                        1 => Wr::Short(1),
                        2 => Wr::Short(3),
                        _ => Wr::Err(*r.pick(&errs)),
                    });
                }
                1 => {
                    let s = r.below(10);
                    for k in 0..r.range(1, 8) as u64 {
                        w.at.push((s + k, Wr::Err(4))); // EINTR
                    }
                }
                2 => {
                    let s = r.below(10);
                    for k in 0..r.range(1, 30) as u64 {
                        w.at.push((s + k, Wr::Short(r.range(1, 5))));
                    }
                }
                3 => w.at.push((r.below(10), Wr::Zero)),
                4 => w.at.push((r.below(10), Wr::Stall(*r.pick(&[1_000, 1_000_000_000, 3_600_000_000_000])))),
                _ => {
                    let s = r.below(12);
                    for k in 0..r.range(1, 4) as u64 {
                        w.at.push((s + k, Wr::Err(*r.pick(&errs))));
                    }
                }
            }
        }
        w.at.sort_by_key(|x| x.0);
        w.at.dedup_by_key(|x| x.0);
        p.wfaults.push(w);
    }
    p.env = env(r);
    p.mode = "output".into();
}

pub fn c13(r: &mut Rng, p: &mut Plan) {
    let z = size(r, &[TINY, SMALL, SMALL]);
    let nt = *r.pick(&[1, 2, 2, 3, 3, 4]);
    for _ in 0..r.range(1, 3) {
        p.pool.push(data(r, z, &["f64", "f64", "f32", "sim"]));
    }
    for t in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(1, 3) {
            let ds = r.below(p.pool.len() as u64) as usize;
            let mut f = fit(r, ds, &p.pool[ds].clone(), &ALL, &APIS);
            f.verbose = r.chance(0.9);
            if r.chance(0.05) {
                let mut d = p.pool[ds].clone();
                break_fit(r, &mut d, &mut f);
                if d != p.pool[ds] {
                    p.pool.push(d);
                    f.ds = p.pool.len() - 1;
                }
            }
            ops.push(Op::Fit(f));
        }
        p.tasks.push(ops);
        // faults that lose nothing
        let mut w = WriteFaults { task: t, at: vec![], from: None, then: None };
        if r.chance(0.5) {
            for _ in 0..r.range(1, 3) {
                let s = r.below(30);
                match r.below(4) {
                    0 => {
                        w.from = Some(s);
                        w.then = Some(Wr::Short(*r.pick(&[1, 2, 7, 20])));
                    }
                    1 => w.at.push((s, Wr::Stall(*r.pick(&[1_000, 1_000_000_000, 3_600_000_000_000])))),
                    2 => (0..r.range(1, 4) as u64).for_each(|k| w.at.push((s + k, Wr::Err(4)))),
                    _ => (0..r.range(1, 30) as u64).for_each(|k| w.at.push((s + k, Wr::Short(r.range(1, 9))))),
                }
            }
        }
        w.at.sort_by_key(|x| x.0);
        w.at.dedup_by_key(|x| x.0);
        p.wfaults.push(w);
    }
    p.env = env(r);
    p.mode = "report".into();
}

pub fn c14(r: &mut Rng, p: &mut Plan) {
    c01(r, p);
    // one task, now and then two, whose fits run in forked processes
    let nf = if p.tasks.len() > 2 && r.chance(0.15) { 2 } else { 1 };
    p.tasks.truncate(4);
    let ops: Vec<Fit> = p.tasks.iter().flatten().filter_map(|o| o.fit().cloned()).collect();
    for t in 0..nf {
        let mut v = vec![];
        for _ in 0..r.range(2, 7) {
            let mut f = r.pick(&ops).clone();
            if r.chance(0.4) {
                f.slot = Some(0);
            }
            f.verbose = false;
            v.push(if r.chance(0.12) { Op::Fit(f) } else { Op::Fork(f) });
        }
        p.tasks[t] = v;
    }
    p.mode = "fork".into();
}

/// One or two tasks, mostly with components of the caller, and a few fits for these to start.
pub fn c16(r: &mut Rng, p: &mut Plan) -> Vec<Fit> {
    c01(r, p);
    p.tasks.truncate(if r.chance(0.8) { 1 } else { 2 });
    let mut inner = vec![];
    for t in 0..p.tasks.len() {
        for o in p.tasks[t].iter_mut() {
            if let Some(f) = o.fit_mut() {
                if f.api != Api::Wrapped && p.pool[f.ds].dtype == "f64" && r.chance(0.7) {
                    f.api = Api::Wrapped;
                }
                if r.chance(0.6) {
                    // the fit itself, or nearly
                    let mut g = f.clone();
                    match r.below(6) {
                        0 => g.alpha *= 0.7,
                        1 => g.ws += 1,
                        2 => g.k += 1,
                        3 => g.accel = !g.accel,
                        _ => {}
                    }
                    inner.push(g);
                }
            }
        }
    }
    for _ in 0..r.range(1, 2) {
        let ds = r.below(p.pool.len() as u64) as usize;
        let mut f = fit(r, ds, &p.pool[ds].clone(), &ALL, &APIS);
        if r.chance(0.08) {
            let mut d = p.pool[ds].clone();
            break_fit(r, &mut d, &mut f);
            if d != p.pool[ds] {
                p.pool.push(d);
                f.ds = p.pool.len() - 1;
            }
        }
        inner.push(f);
    }
    for f in inner.iter_mut() {
        f.slot = None;
        f.iters = f.iters.min(5);
        f.epochs = f.epochs.min(25);
    }
    p.mode = "nested".into();
    inner
}

/// (component calls, arithmetic operations, steps) of a fit alone
pub type Calls = (u64, u64, u64);
pub fn c16_nests(r: &mut Rng, p: &mut Plan, inner: &[(Fit, Calls)], outer: &[Vec<Calls>]) {
    let mut id = simrt::sched::NESTED;
    let mut parents: Vec<(usize, u32, u64)> = vec![];
    for (t, v) in outer.iter().enumerate() {
        for (o, x) in v.iter().enumerate() {
            parents.push((t, o as u32, x.0));
        }
    }
    let top = parents.len();
    let mut k = 0;
    while k < parents.len() && p.nests.len() < 40 {
        let (t, o, calls) = parents[k];
        let deep = k >= top;
        k += 1;
        if calls == 0 || (deep && r.chance(0.7)) {
            continue;
        }
        for _ in 0..*r.pick(&[1, 1, 2, 3, 6]) {
            let (f, c) = r.pick(inner);
            // calls of setting up, of the first epochs, and any
            let n = match r.below(4) {
                0 => 1 + r.below(calls.min(12)),
                1 => 1 + r.below(calls.min(80)),
                _ => 1 + r.below(calls),
            };
            p.nests.push(Nest { task: t, op: o, n, id, fit: f.clone() });
            if !deep {
                parents.push((t, id, c.0));
            }
            if r.chance(0.1) {
                if c.1 > 0 && r.chance(0.5) {
                    p.crashes.push(Crash { task: t, op: id, at: "arith".into(), n: 1 + r.below(c.1) });
                } else if c.0 > 0 {
                    p.crashes.push(Crash { task: t, op: id, at: "seam".into(), n: 1 + r.below(c.0) });
                }
            }
            if p.tasks.len() > 1 {
                for _ in 0..r.below(4) {
                    p.preempts.push(Preempt { task: t, op: id, at: 1 + r.below(c.2.max(1)), to: 1 - t, on: 0 });
                }
            }
            id += 1;
        }
    }
}

pub const CONVEX: [Algo; 8] =
    [Algo::Lasso, Algo::Enet, Algo::LogL1, Algo::LogEnet, Algo::MtLasso, Algo::MtEnet, Algo::Mcp, Algo::BlockMcp];

/// gamma large enough for every coordinate problem to be convex
pub fn convex_gamma(r: &mut Rng, d: &DataSpec, f: &mut Fit) {
    if f.algo.mcp() {
        let l = oracle::lipschitz(&generate(d), f.algo);
        let m = l.iter().cloned().filter(|&v| v > 0.0).fold(f64::INFINITY, f64::min);
        let need = if m.is_finite() { 1.0 / m } else { 1.0 };
        f.gamma = (need * *r.pick(&[1.05, 1.5, 3.0, 20.0])).max(1.01);
    }
}

pub fn c04(r: &mut Rng, p: &mut Plan) {
    let z = size(r, &[TINY, SMALL, SMALL, MEDIUM]);
    let mut d = data(r, z, &["f64", "f64", "f64", "sim"]);
    let tiny = r.chance(0.1);
    if tiny {
        d.dtype = r.pick(&["f32", "f32", "f64"]).to_string();
        d.flavor = (d.flavor | FL_Y_TINY) & !FL_SCALES;
        d.labels = false;
    }
    let mut f = if tiny { fit(r, 0, &d, &[Algo::Lasso, Algo::Enet, Algo::MtLasso], &APIS) } else { fit(r, 0, &d, &CONVEX, &APIS) };
    if f.algo.logistic() {
        d.labels = true;
        f.alpha = oracle::alpha_max(&generate(&d), f.algo).max(1e-3) * *r.pick(&[0.01, 0.1, 0.5, 0.9]);
    }
    if f.algo.mcp() && d.flavor & FL_SCALES != 0 {
        d.flavor &= !FL_SCALES;
    }
    convex_gamma(r, &d, &mut f);
    if !tiny {
        no_threshold(r, &mut d, &mut f);
    }
    f.verbose = false;
    f.tol = if tiny { 0.0 } else { *r.pick(&[0.0, 1e-12, 1e-9, 1e-6, 1e-3]) };
    f.accel = r.chance(0.85);
    f.k = *r.pick(&[1, 2, 3, 4, 5, 5, 5, 6, 8]);
    f.mon = false;
    let mut ops = vec![];
    if r.chance(0.5) {
        f.epochs = *r.pick(&[1, 2, 5, 7, 11, 13, 30]);
        for it in 0..=r.range(3, 14) {
            let mut g = f.clone();
            g.iters = it;
            ops.push(Op::Fit(g));
        }
        p.mode = "iterations".into();
    } else {
        f.iters = 1;
        let n = r.range(5, 40);
        let s = if r.chance(0.2) { r.below(100) as usize } else { 0 };
        ops.push(Op::Fit(Fit { epochs: 0, ..f.clone() }));
        for e in 0..n {
            let mut g = f.clone();
            g.epochs = s + 1 + e;
            ops.push(Op::Fit(g));
        }
        p.mode = "epochs".into();
    }
    p.pool.push(d);
    p.tasks.push(ops);
    p.env = env(r);
}

pub fn finite_fault(r: &mut Rng, targets: &[&str], horizon: u64, scale: f64) -> CompFault {
    let target = r.pick(targets).to_string();
    let from = if r.chance(0.4) { 0 } else { r.below(horizon) };
    let kind = *r.pick(&["noise", "scale", "neg", "zero", "const", "random"]);
    let val = match kind {
        "scale" => *r.pick(&[0.0, 0.5, 2.0, -1.0, 10.0, -100.0]),
        _ => scale * *r.pick(&[1e-3, 0.1, 1.0, 10.0, -1.0, 100.0]),
    };
    CompFault {
        target,
        from,
        to: from + 1 + r.below(horizon / 2 + 1),
        kind: kind.into(),
        val,
        prob: *r.pick(&[1.0, 1.0, 0.3, 0.05]),
        seed: r.u64(),
    }
}

/// Now and then a penalty without its threshold, on data some features of which have nothing to explain.
fn no_threshold(r: &mut Rng, d: &mut DataSpec, f: &mut Fit) {
    if f.algo.logistic() || f.algo.mcp() || !r.chance(0.12) {
        return;
    }
    if f.algo.enet() && r.chance(0.7) {
        f.l1_ratio = 0.0;
    } else {
        f.alpha = 0.0;
    }
    if r.chance(0.7) {
        d.flavor |= FL_Y_PART;
        d.flavor &= !(FL_MIRROR | FL_DUP_COLS);
    }
}

/// A problem on which coordinate descent converges fast.
pub fn good_problem(r: &mut Rng, dtypes: &[&str], apis: &[Api]) -> (DataSpec, Fit) {
    let p_ = if r.chance(0.1) { r.range(17, 50) } else { r.range(1, 14) };
    let mut d = DataSpec {
        n: p_ * 3 + r.range(6, 20),
        p: p_,
        t: r.range(1, 3),
        seed: r.u64(),
        storage: r.pick(&["c", "f", "strided", "rev", "view", "csc", "csc"]).to_string(),
        density: *r.pick(&[1.0, 1.0, 0.8]),
        flavor: *r.pick(&[0, 0, FL_SPARSE_TRUE, FL_ZERO_COLS, FL_EXPL_ZEROS | FL_UNSORTED, FL_SPARSE_TRUE | FL_ZERO_COLS, FL_MIRROR, FL_INTEGER, FL_ORTHO, FL_Y_SCALED]),
        dtype: r.pick(dtypes).to_string(),
        labels: false,
        corrupt: vec![],
    };
    let algos = [
        Algo::Lasso,
        Algo::Enet,
        Algo::Mcp,
        Algo::LogL1,
        Algo::LogEnet,
        Algo::MtLasso,
        Algo::MtEnet,
        Algo::BlockMcp,
    ];
    let algo = *r.pick(&algos);
    d.labels = algo.logistic();
    let mut f = fit(r, 0, &d, &[algo], apis);
    if algo.logistic() {
        d.flavor &= !FL_Y_SCALED;
    }
    let ys = y_scale(&d);
    let amax = oracle::alpha_max(&generate(&d), f.algo).max(1e-3 * ys);
    f.alpha = amax * if algo.logistic() { *r.pick(&[0.1, 0.2, 0.5, 0.8, 1.2]) } else { *r.pick(&[0.02, 0.1, 0.2, 0.5, 0.9, 1.0, 1.2]) };
    convex_gamma(r, &d, &mut f);
    if f.algo.mcp() {
        f.gamma *= 3.0;
    }
    f.iters = 200;
    f.epochs = 300;
    f.tol = *r.pick(&[1e-4, 1e-6, 1e-8]);
    if d.dtype == "f32" {
        f.tol = *r.pick(&[1e-3, 3e-3, 1e-2]);
    }
    f.tol *= ys;
    f.k = *r.pick(&[1, 2, 3, 5, 5, 5, 7]);
    f.ws = *r.pick(&[1, 2, 5, 10, 10, d.p, d.p + 3]);
    f.verbose = false;
    f.mon = false;
    (d, f)
}

pub fn c05(r: &mut Rng, p: &mut Plan) {
    let kind = r.below(10);
    if kind < 3 {
        let (mut d, mut f) = good_problem(r, &["f64", "f64", "f32", "sim"], &[Api::Est, Api::Est, Api::Solver]);
        no_threshold(r, &mut d, &mut f);
        p.mode = "clean-converges".into();
        p.pool.push(d);
        p.tasks.push(vec![Op::Fit(f)]);
    } else if kind < 5 {
        // anything, no fault: a fit that reports optimality is optimal
        let z = size(r, &[TINY, SMALL, MEDIUM]);
        let mut d = data(r, z, &["f64"]);
        let mut f = fit(r, 0, &d, &CONVEX, &[Api::Wrapped]);
        if f.algo.logistic() {
            d.labels = true;
        }
        convex_gamma(r, &d, &mut f);
        no_threshold(r, &mut d, &mut f);
        f.iters = 20;
        f.epochs = *r.pick(&[20, 50, 100, 200]);
        f.tol = *r.pick(&[1e-3, 1e-5, 1e-7]) * if f.algo.logistic() { 1.0 } else { y_scale(&d) };
        f.mon = false;
        f.verbose = false;
        p.mode = "clean-certificate".into();
        p.pool.push(d);
        p.tasks.push(vec![Op::Fit(f)]);
    } else {
        let (mut d, mut f) = good_problem(r, &["f64"], &[Api::Wrapped]);
        let hard = r.chance(0.3);
        if hard {
            d.flavor |= *r.pick(&[FL_CORR, FL_SCALES, FL_DUP_COLS]);
            convex_gamma(r, &d, &mut f);
            f.iters = 30;
            f.epochs = 200;
        }
        let n = r.range(1, 3);
        let horizon = *r.pick(&[5, 30, 200, 1000]);
        for _ in 0..n {
            let sc = y_scale(&d);
            f.faults.push(finite_fault(r, &["grad", "prox", "dfvalue", "penvalue", "kkt"], horizon, sc));
        }
        p.mode = if hard { "transient-certificate" } else { "transient-converges" }.into();
        p.pool.push(d);
        p.tasks.push(vec![Op::Fit(f)]);
    }
    p.env = env(r);
}

pub fn c06(r: &mut Rng, p: &mut Plan) {
    if r.chance(0.01) {
        // an easy fit with a budget that nothing could be kept for
        let (d, mut f) = loop {
            let (d, f) = good_problem(r, &["f64"], &[Api::Est, Api::Solver, Api::Wrapped]);
            if matches!(f.algo, Algo::Lasso | Algo::Enet | Algo::MtLasso | Algo::MtEnet) && d.p <= 14 {
                break (d, f);
            }
        };
        f.tol = 1e-2 * y_scale(&d);
        f.ws = d.p.max(f.ws);
        f.iters = *r.pick(&[usize::MAX, 1 << 40, 1 << 30]);
        f.epochs = *r.pick(&[usize::MAX, usize::MAX - 1, 1 << 40, 1 << 30]);
        p.pool.push(d);
        p.tasks.push(vec![Op::Fit(f)]);
        p.env = env(r);
        p.mode = "huge-budget".into();
        return;
    }
    let long = r.chance(0.0015);
    let z = if long { Size { n: (1, 3), p: (1, 3), t: (1, 2) } } else { size(r, &[TINY, SMALL, Size { n: (1, 3), p: (1, 3), t: (1, 2) }, MEDIUM]) };
    let mut d = data(r, z, &["f64", "f64", "f32", "sim"]);
    if r.chance(0.1) {
        d.flavor |= FL_DUP_ENTRIES;
    }
    let mut f = fit(r, 0, &d, &ALL, &[Api::Est, Api::Solver, Api::Wrapped, Api::Wrapped]);
    f.mon = false;
    f.iters = *r.pick(&[0, 1, 2, 4, 6]);
    f.epochs = *r.pick(&[0, 1, 7, 12, 21, 40]);
    f.ws = *r.pick(&[0, 1, 2, 10, d.p, d.p + 1, 1000, usize::MAX]);
    f.k = *r.pick(&[0, 1, 2, 3, 5, 9, 30]);
    f.tol = *r.pick(&[0.0, 1e-6, -1.0, 1e300, 1e-300, NAN_SETTING]);
    f.verbose = r.chance(0.2);
    if r.chance(0.25) {
        f.alpha = *r.pick(&[0.0, 1e300, 1e-300, -1.0, 1e30, NAN_SETTING]);
    }
    if r.chance(0.25) {
        f.gamma = *r.pick(&[0.0, 1.0, 1e300, 1e-300, -2.0, 0.5, NAN_SETTING]);
    }
    if r.chance(0.2) {
        f.l1_ratio = *r.pick(&[0.0, 1.0, -1.0, 2.0, 1e300, NAN_SETTING]);
    }
    if r.chance(0.75) {
        for _ in 0..r.range(1, 3) {
            let csc = d.storage == "csc";
            let what = if csc { *r.pick(&["x", "y", "idx", "idx", "ptr", "ptr"]) } else { *r.pick(&["x", "x", "y"]) };
            let kind = *r.pick(&["nan", "inf", "-inf", "huge", "big", "tiny", "bit", "bit", "zero", "neg"]);
            let bit = if what == "idx" || what == "ptr" {
                if r.chance(0.5) { r.below(5) as u32 } else { r.below(32) as u32 }
            } else {
                r.below(64) as u32
            };
            d.corrupt.push(Corrupt { what: what.into(), at: r.u64() >> 8, kind: kind.into(), bit });
        }
        if r.chance(0.04) {
            let what = if d.storage == "csc" { *r.pick(&["ylen", "xlen", "idxlen", "ptrlen"]) } else { "ylen" };
            d.corrupt.push(Corrupt { what: what.into(), at: 0, kind: r.pick(&["cut", "more"]).to_string(), bit: 0 });
        }
    }
    if f.api == Api::Wrapped && d.dtype == "f64" {
        for _ in 0..r.range(1, 3) {
            let persistent = r.chance(0.6);
            let from = if r.chance(0.5) { 0 } else { r.below(60) };
            f.faults.push(CompFault {
                target: r.pick(&["grad", "prox", "dfvalue", "penvalue", "kkt", "kkt", "step"]).to_string(),
                from,
                to: if persistent { u64::MAX } else { from + 1 + r.below(20) },
                kind: r.pick(&["nan", "inf", "-inf", "huge", "tiny", "neg", "zero", "const", "random", "noise", "scale"]).to_string(),
                val: *r.pick(&[1.0, 1e9, -1e9, 1e-9, 1e150, 2.0]),
                prob: *r.pick(&[1.0, 1.0, 0.2]),
                seed: r.u64(),
            });
        }
    }
    if d.corrupt.is_empty() && f.faults.is_empty() && f.tol == 1e300 && f.alpha.abs() < 1e100 && f.gamma.abs() < 1e100 && f.l1_ratio.abs() < 1e100 {
        // met at the first check
        f.iters = usize::MAX;
        f.epochs = *r.pick(&[usize::MAX, usize::MAX - 1, 1 << 40]);
    } else if long {
        // a large budget spent to the end: what is kept per pass or per check shows
        f.tol = -1.0;
        f.k = *r.pick(&[1, 2, 5]);
        let (a, b) = *r.pick(&[(1, 20_000), (1, 60_000), (2, 8_000), (10_000, 1), (3_000, 8), (1_500, 25)]);
        f.iters = a;
        f.epochs = b;
        f.verbose = false;
    }
    p.pool.push(d);
    p.tasks.push(vec![Op::Fit(f)]);
    p.env = env(r);
    p.mode = "persistent".into();
}

pub fn c07(r: &mut Rng, p: &mut Plan) {
    let z = size(r, &[TINY, SMALL, SMALL, MEDIUM]);
    let nt = *r.pick(&[1, 1, 1, 2]);
    for _ in 0..r.range(1, 2) {
        p.pool.push(data(r, z, &["f64"]));
    }
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(1, 3) {
            let ds = r.below(p.pool.len() as u64) as usize;
            let mut f = fit(r, ds, &p.pool[ds].clone(), &ALL, &[Api::Wrapped]);
            f.mon = true;
            let ys = if f.algo.logistic() { 1.0 } else { y_scale(&p.pool[ds]) };
            f.tol = ys * *r.pick(&[1e-1, 1e-2, 1e-4, 1e-6, 0.0]);
            if r.chance(0.5) {
                for _ in 0..r.range(1, 2) {
                    let mut c = finite_fault(r, &["grad", "prox", "dfvalue", "penvalue", "kkt"], 300, ys);
                    if r.chance(0.3) {
                        c.to = u64::MAX;
                        c.prob = 0.1;
                    }
                    f.faults.push(c);
                }
            }
            ops.push(Op::Fit(f));
        }
        p.tasks.push(ops);
    }
    p.env = env(r);
    p.mode = "consistency".into();
}

pub fn c08(r: &mut Rng, p: &mut Plan, long: bool) {
    let z = size(r, &[TINY, TINY, SMALL]);
    if long {
        // a long history of tiny fits, then fits like any other
        p.pool.push(data(r, TINY, &["f64"]));
        p.pool.push(data(r, TINY, &["f64", "f32", "sim"]));
        let mut ops = vec![];
        for k in 0..r.range(300, 1500) {
            let ds = r.below(2) as usize;
            let d = p.pool[ds].clone();
            let mut f = fit(r, ds, &d, &ALL, &[Api::Est, Api::Solver]);
            f.iters = f.iters.min(3);
            f.epochs = *r.pick(&[1, 2, 8]);
            f.verbose = r.chance(0.02);
            // settings that were rarely or never seen before
            f.share = r.chance(0.2);
            let _ = k;
            ops.push(Op::Fit(f));
        }
        p.tasks.push(ops);
        p.mode = "long-history".into();
    } else {
        let np = r.range(1, 3);
        for _ in 0..np {
            p.pool.push(data(r, z, &["f64", "f64", "f32", "sim"]));
        }
        let mut cur = p.pool.clone();
        let mut ops = vec![];
        let mut last: Option<Fit> = None;
        for _ in 0..r.range(3, 12) {
            match r.below(10) {
                0 | 1 => {
                    // same shape, other contents, at the same addresses
                    let ds = r.below(np as u64) as usize;
                    let mut d = cur[ds].clone();
                    if d.storage == "csc" {
                        // in place: only the stored values can change
                        let k = r.pick(&["neg", "neg", "swap"]).to_string();
                        d.corrupt.push(Corrupt { what: "x".into(), at: r.u64() >> 8, kind: k.clone(), bit: 0 });
                        if r.chance(0.7) {
                            d.corrupt.push(Corrupt { what: "y".into(), at: r.u64() >> 8, kind: k, bit: 0 });
                        }
                    } else if r.chance(0.4) {
                        d.corrupt.push(Corrupt { what: r.pick(&["x", "y"]).to_string(), at: r.u64() >> 8, kind: r.pick(&["neg", "zero", "swap"]).to_string(), bit: 0 });
                    } else {
                        d.seed = r.u64();
                    }
                    cur[ds] = d.clone();
                    ops.push(Op::Mutate { ds, data: d });
                    if let Some(f) = &last {
                        ops.push(Op::Fit(Fit { ds, ..f.clone() }));
                    }
                }
                2 | 3 => {
                    let ds = r.below(np as u64) as usize;
                    let mut d = data(r, z, &[cur[ds].dtype.as_str()]);
                    if r.chance(0.7) {
                        // same shape: the allocator hands out the same addresses
                        d.n = cur[ds].n;
                        d.p = cur[ds].p;
                        d.t = cur[ds].t;
                        d.storage = cur[ds].storage.clone();
                    }
                    cur[ds] = d.clone();
                    ops.push(Op::Rebuild { ds, data: d });
                    if let Some(f) = &last {
                        ops.push(Op::Fit(Fit { ds, ..f.clone() }));
                    }
                }
                4 => ops.push(Op::DropSlot(r.below(2) as u32)),
                5 if last.is_some() => {
                    let mut f = last.clone().unwrap();
                    match r.below(5) {
                        0 => f.verbose = !f.verbose,
                        1 => f.alpha *= 0.5,
                        2 => f.k += 1,
                        3 => f.tol *= 0.1,
                        _ => {}
                    }
                    ops.push(Op::Fit(f));
                }
                _ => {
                    let ds = r.below(np as u64) as usize;
                    let f = fit(r, ds, &cur[ds], &ALL, &APIS);
                    last = Some(f.clone());
                    ops.push(Op::Fit(f));
                }
            }
        }
        p.tasks.push(ops);
        if r.chance(0.3) {
            // an unrelated task on its own data, running before or in between
            let ds = p.pool.len();
            let d = data(r, z, &["f64", "f32"]);
            p.pool.push(d.clone());
            let mut ops = vec![];
            for _ in 0..r.range(1, 3) {
                ops.push(Op::Fit(fit(r, ds, &d, &ALL, &APIS)));
            }
            p.tasks.push(ops);
        }
        p.mode = "history".into();
    }
    p.env = env(r);
}

pub fn c10(r: &mut Rng, p: &mut Plan) {
    let looped = r.chance(0.5);
    let z = size(r, &[TINY, TINY, SMALL]);
    let nt = if looped { 1 } else { r.range(1, 3) };
    for _ in 0..nt {
        let ds = p.pool.len();
        let d = data(r, z, &["f64", "f64", "f32", "sim"]);
        p.pool.push(d.clone());
        let mut ops = vec![];
        for _ in 0..r.range(1, 4) {
            let mut f = fit(r, ds, &d, &ALL, &APIS);
            f.iters = f.iters.min(4);
            f.epochs = f.epochs.min(16);
            f.mon = false;
            if r.chance(0.15) {
                let mut d2 = d.clone();
                break_fit(r, &mut d2, &mut f);
                if d2 != d {
                    p.pool.push(d2);
                    f.ds = p.pool.len() - 1;
                }
            }
            ops.push(Op::Fit(f));
            if r.chance(0.3) {
                let mut e = d.clone();
                e.seed = r.u64();
                ops.push(Op::Rebuild { ds, data: e });
            }
            if r.chance(0.2) {
                ops.push(Op::DropSlot(0));
            }
        }
        p.tasks.push(ops);
    }
    p.rounds = if looped { r.range(20, 150) } else { r.range(6, 24) };
    p.mode = if looped { "rounds-loop" } else { "rounds-threads" }.into();
    p.env = env(r);
    if p.env.reuse == "never" {
        p.env.reuse = "lifo".into();
    }
}
