//! Minimisation of a violating plan: removes tasks, operations, preemptions and faults and
//! simplifies what is left, as long as a violation of the same class remains.
use crate::check::{self, Ctx};
use crate::{exec, gen, Replay};
use simrt::sched::Env;
use simrt::spec::*;
use std::time::Instant;

struct M {
    ctx: Ctx,
    class: String,
    best: Plan,
    evals: u32,
    kept: u32,
    t0: Instant,
}

impl M {
    fn spent(&self) -> bool {
        self.evals > 600 || self.t0.elapsed().as_secs() > 60
    }
    fn try_(&mut self, mut p: Plan) -> bool {
        if self.spent() || p.tasks.iter().all(|t| t.is_empty()) || p == self.best {
            return false;
        }
        if !valid(&p) {
            return false;
        }
        self.evals += 1;
        gen::finish_cap(&mut p);
        let e = check::evaluate(&p, &mut self.ctx);
        if e.viol.map_or(false, |v| v.class == self.class) {
            self.best = p;
            self.kept += 1;
            true
        } else {
            false
        }
    }
}

fn valid(p: &Plan) -> bool {
    p.tasks.iter().flatten().any(|o| o.fit().is_some())
        && p.tasks.iter().flatten().all(|o| match o {
            Op::Fit(f) | Op::Fork(f) => f.ds < p.pool.len(),
            Op::Mutate { ds, .. } | Op::Rebuild { ds, .. } => *ds < p.pool.len(),
            _ => true,
        })
}

fn drop_task(p: &Plan, t: usize) -> Plan {
    let mut q = p.clone();
    q.tasks.remove(t);
    let map = |x: usize| if x > t && x != usize::MAX { x - 1 } else { x };
    q.preempts.retain(|x| x.task != t && x.to != t);
    for x in q.preempts.iter_mut() {
        x.task = map(x.task);
        x.to = map(x.to);
    }
    q.crashes.retain(|x| x.task != t);
    for x in q.crashes.iter_mut() {
        x.task = map(x.task);
    }
    q.wfaults.retain(|x| x.task != t);
    for x in q.wfaults.iter_mut() {
        x.task = map(x.task);
    }
    q.nests.retain(|x| x.task != t);
    for x in q.nests.iter_mut() {
        x.task = map(x.task);
    }
    q.first = if q.first == t { 0 } else { map(q.first) };
    q
}

fn drop_ops(p: &Plan, t: usize, a: usize, b: usize) -> Plan {
    let mut q = p.clone();
    q.tasks[t].drain(a..b);
    let n = (b - a) as u32;
    let (a, b) = (a as u32, b as u32);
    q.preempts.retain(|x| x.task != t || x.op < a || x.op >= b);
    q.crashes.retain(|x| x.task != t || x.op < a || x.op >= b);
    let nested = simrt::sched::NESTED;
    q.nests.retain(|x| x.task != t || x.op < a || x.op >= b);
    for x in q.nests.iter_mut().filter(|x| x.task == t && x.op >= b && x.op < nested) {
        x.op -= n;
    }
    for x in q.preempts.iter_mut().filter(|x| x.task == t && x.op >= b && x.op < nested) {
        x.op -= n;
    }
    for x in q.crashes.iter_mut().filter(|x| x.task == t && x.op >= b && x.op < nested) {
        x.op -= n;
    }
    q
}

/// removes chunks of a list as long as the violation stays
fn ddmin<T: Clone>(m: &mut M, get: impl Fn(&Plan) -> Vec<T>, set: impl Fn(&mut Plan, Vec<T>)) {
    let mut v = get(&m.best);
    if v.is_empty() {
        return;
    }
    let mut q = m.best.clone();
    set(&mut q, vec![]);
    if m.try_(q) {
        return;
    }
    let mut chunk = (v.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < v.len() && !m.spent() {
            let mut u = v.clone();
            u.drain(i..(i + chunk).min(v.len()));
            let mut q = m.best.clone();
            set(&mut q, u.clone());
            if m.try_(q) {
                v = u;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 || m.spent() {
            return;
        }
        chunk /= 2;
    }
}

pub fn minimise(r: Replay) -> Replay {
    let mut r = r;
    let size = |p: &Plan| {
        format!(
            "{} tasks, {} operations, {} nested fits, {} preemptions, {} panics, {} output faults, {} rounds",
            p.tasks.len(),
            p.tasks.iter().map(|t| t.len()).sum::<usize>(),
            p.nests.len(),
            p.preempts.len(),
            p.crashes.len(),
            p.wfaults.iter().map(|w| w.at.len() + w.from.is_some() as usize).sum::<usize>(),
            p.rounds
        )
    };
    let before = size(&r.plan);
    let mut m = M { ctx: Ctx::default(), class: r.class.clone(), best: r.plan.clone(), evals: 0, kept: 0, t0: Instant::now() };
    // does it show at all in a fresh process?
    let e = check::evaluate(&r.plan, &mut m.ctx);
    if e.viol.as_ref().map_or(false, |v| v.class == r.class) {
        for _ in 0..2 {
            let kept = m.kept;
            pass(&mut m);
            if m.kept == kept || m.spent() {
                break;
            }
        }
    }
    let e = check::evaluate(&m.best, &mut m.ctx);
    if let Some(v) = e.viol {
        r.message = v.msg;
        r.class = v.class;
    }
    r.log = e.res.log;
    r.events = e.res.nlog;
    r.trace = exec::run(&m.best, false, true).trace;
    r.minimiser = format!("from {} to {} in {} evaluations", before, size(&m.best), m.evals);
    r.plan = m.best;
    r
}

fn pass(m: &mut M) {
    // whole tasks, then operations
    let mut t = 0;
    while t < m.best.tasks.len() && m.best.tasks.len() > 1 {
        let q = drop_task(&m.best, t);
        if !m.try_(q) {
            t += 1;
        }
    }
    for t in 0..m.best.tasks.len() {
        let mut chunk = (m.best.tasks[t].len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < m.best.tasks[t].len() && !m.spent() {
                let b = (i + chunk).min(m.best.tasks[t].len());
                let q = drop_ops(&m.best, t, i, b);
                if !m.try_(q) {
                    i += chunk;
                }
            }
            if chunk == 1 || m.spent() {
                break;
            }
            chunk /= 2;
        }
    }
    ddmin(m, |p| p.nests.clone(), |p, v| p.nests = v);
    ddmin(m, |p| p.preempts.clone(), |p, v| p.preempts = v);
    ddmin(m, |p| p.crashes.clone(), |p, v| p.crashes = v);
    ddmin(m, |p| p.wfaults.clone(), |p, v| p.wfaults = v);
    for k in 0..m.best.wfaults.len() {
        ddmin(m, |p| p.wfaults[k].at.clone(), |p, v| p.wfaults[k].at = v);
    }
    ddmin(m, |p| p.env.jumps.clone(), |p, v| p.env.jumps = v);
    // environment back to its default, one thing at a time
    let d = Env::default();
    let q = Plan { env: d.clone(), ..m.best.clone() };
    if !m.try_(q) {
        for k in 0..6 {
            let mut q = m.best.clone();
            match k {
                0 => q.env.clock0 = d.clock0,
                1 => q.env.tick = d.tick,
                2 => q.env.env_noise = false,
                3 => q.env.reuse = d.reuse.clone(),
                4 => {
                    q.env.fill = d.fill;
                    q.env.fill_free = d.fill_free
                }
                _ => q.env.pad = 0,
            }
            m.try_(q);
        }
    }
    if m.best.rounds > 6 {
        let q = Plan { rounds: 6, ..m.best.clone() };
        if !m.try_(q) {
            let q = Plan { rounds: m.best.rounds / 2, ..m.best.clone() };
            m.try_(q);
        }
    }
    // simpler fits and data, where that does not change what is asked of the fit
    let budgeted = matches!(m.best.prop.as_str(), "C04" | "C05");
    for t in 0..m.best.tasks.len() {
        for o in 0..m.best.tasks[t].len() {
            for k in 0..9 {
                if m.spent() {
                    return;
                }
                if budgeted && (4..=8).contains(&k) {
                    continue;
                }
                let mut q = m.best.clone();
                if let Some(f) = q.tasks[t][o].fit_mut() {
                    match k {
                        0 => f.verbose = false,
                        1 => f.slot = None,
                        2 => f.share = false,
                        3 => f.accel = false,
                        4 => f.iters = f.iters.min(1),
                        5 => f.epochs = f.epochs.min(1),
                        6 => f.ws = 10,
                        7 => f.k = 5,
                        _ => f.tol = 1e-6,
                    }
                }
                if q != m.best {
                    m.try_(q);
                }
            }
            let faults = m.best.tasks[t][o].fit().map_or(0, |f| f.faults.len());
            for k in (0..faults).rev() {
                let mut q = m.best.clone();
                if let Some(f) = q.tasks[t][o].fit_mut() {
                    f.faults.remove(k);
                }
                m.try_(q);
            }
        }
    }
    for n in 0..m.best.nests.len() {
        for k in 0..5 {
            let mut q = m.best.clone();
            let f = &mut q.nests[n].fit;
            match k {
                0 => f.verbose = false,
                1 => f.share = false,
                2 => f.accel = false,
                3 => f.iters = f.iters.min(1),
                _ => f.epochs = f.epochs.min(1),
            }
            m.try_(q);
        }
    }
    // simpler data
    if budgeted {
        return;
    }
    for d in 0..m.best.pool.len() {
        ddmin(m, |p| p.pool[d].corrupt.clone(), |p, v| p.pool[d].corrupt = v);
        for k in 0..6 {
            let mut q = m.best.clone();
            {
                let s = &mut q.pool[d];
                match k {
                    0 => s.flavor = 0,
                    1 => s.density = 1.0,
                    2 => s.storage = "c".into(),
                    3 => s.p = (s.p / 2).max(1),
                    4 => s.n = (s.n / 2).max(2),
                    _ => s.t = 1,
                }
            }
            // operations that modify a dataset in place need the same shape
            let reshaped = q.tasks.iter().flatten().any(|o| matches!(o, Op::Mutate { .. } | Op::Rebuild { .. }));
            if q != m.best && !reshaped {
                m.try_(q);
            }
        }
    }
}
