//! Deterministic scheduler: real threads, exactly one of which runs at any instant. Who runs
//! next is decided by the plan at counted points (memory accesses and basic blocks of the
//! instrumented code, allocations, system calls, component calls).
use crate::arena;
use crate::prng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Runnable,
    Futex(usize),
    Join(usize),
    Done,
    /// a thread of the parent process, which a forked process does not have
    Gone,
}

/// One planned preemption: during operation `op` of task `task`, run `to`
/// on = 0: at step `at`; 1: before the `at`-th access to memory shared with other
/// operations; 2: before the `at`-th allocation or release of memory.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Preempt {
    pub task: usize,
    pub op: u32,
    pub at: u64,
    pub to: usize,
    #[serde(default)]
    pub on: u8,
}

/// A planned unwinding: at the n-th arithmetic operation or component call of an operation.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Crash {
    pub task: usize,
    pub op: u32,
    /// "arith" or "seam"
    pub at: String,
    pub n: u64,
}

/// Outcome of one write call of a task
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Wr {
    Ok,
    Short(usize),
    Zero,
    Err(i32),
    Stall(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct WriteFaults {
    pub task: usize,
    /// explicit outcomes by index of the write call of that task
    pub at: Vec<(u64, Wr)>,
    /// from this write call on, every call gets `then`
    pub from: Option<u64>,
    pub then: Option<Wr>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Env {
    pub seed: u64,
    pub clock0: u64,
    /// ns per step
    pub tick: u64,
    /// (clock read index, jump in ns)
    pub jumps: Vec<(u64, i64)>,
    pub env_noise: bool,
    pub ncpu: usize,
    pub reuse: String,
    pub fill: u8,
    pub fill_free: bool,
    pub pad: usize,
}

impl Default for Env {
    fn default() -> Env {
        Env {
            seed: 1,
            clock0: 1_000_000_000_000,
            tick: 1,
            jumps: vec![],
            env_noise: false,
            ncpu: 1,
            reuse: "lifo".into(),
            fill: 0xA5,
            fill_free: true,
            pad: 0,
        }
    }
}

pub struct Task {
    pub id: usize,
    pub st: St,
    pub baton: AtomicU32,
    pub ready: AtomicU32,
    pub harness: u32,
    pub op: u32,
    pub op_uid: u32,
    pub mem: u64,
    pub next: u64, // next value of mem at which slow() runs
    pub seam: u64,
    pub arith: u64,
    pub crash_seam: u64,
    pub crash_arith: u64,
    pub crashed: u64,
    pub crash_hit: bool,
    pub pre: Vec<(u64, usize)>,
    pub pre_i: usize,
    pub pre_touch: Vec<(u64, usize)>,
    pub pre_alloc: Vec<(u64, usize)>,
    pub pre_out: Vec<(u64, usize)>,
    pub alloc_n: u64,
    pub out_n: u64,
    /// a switch due shortly after an output call
    pub pend: (u64, usize),
    pub out0: u64,
    pub last_switch: u64,
    pub cap: u64,
    pub total_mem: u64,
    pub writes: u64,
    pub op_writes: u64,
    pub live0: u64,
    pub deadline: u64,
    pub timed_out: bool,
    pub in_op: bool,
    pub tid: u64,
    pub spawned_by: usize,
    pub shared: Vec<u64>,
    pub shared_n: u64,
    pub allocs: Vec<u64>,
    pub panic_msg: String,
    /// fits to be started from component calls of this operation: (call, their id)
    pub nests: Vec<(u64, u32)>,
    pub nest_i: usize,
}

#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct Stats {
    pub mem_steps: u64,
    pub seam_calls: u64,
    pub arith_ops: u64,
    pub switches: u64,
    pub planned_hit: u64,
    pub fair_switches: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub entropy_reads: u64,
    pub env_reads: u64,
    pub cpu_reads: u64,
    pub sleeps: u64,
    pub spawned_threads: u64,
    pub writes: u64,
    pub write_bytes: u64,
    pub wf_short: u64,
    pub wf_zero: u64,
    pub wf_err: u64,
    pub wf_stall: u64,
    pub crashes: u64,
    pub component_faults: u64,
    pub allocs: u64,
    pub shared_touches: u64,
    pub sim_ns: u64,
    pub opens: u64,
    pub file_writes: u64,
    #[serde(default)]
    pub forks: u64,
    #[serde(default)]
    pub forks_mid_fit: u64,
    #[serde(default)]
    pub nested_fits: u64,
    #[serde(default)]
    pub nested_in_nested: u64,
}

pub struct World {
    pub tasks: Vec<*mut Task>,
    pub stats: Stats,
    pub now: u64,
    pub env: Env,
    pub rng: Rng,
    pub preempts: Vec<Preempt>,
    pub crashes: Vec<Crash>,
    pub wfaults: Vec<WriteFaults>,
    pub violations: Vec<(String, String)>,
    pub log: u64,
    pub trace: Vec<String>,
    pub nlog: u64,
    pub main: AtomicU32,
    pub finished: Vec<usize>,
    pub step_cap: u64,
    pub abort: Option<String>,
    pub record_shared: bool,
    pub sched_hash: u64,
    pub out: Vec<u8>,
    /// some bytes written now by the harness on behalf of what a fit left in std's buffers
    pub draining: bool,
    pub drained: u64,
    pub disk: crate::sys::Disk,
    /// what getpid says
    pub pid: i32,
    /// (task, operation, component call, id)
    pub nests: Vec<(usize, u32, u64, u32)>,
    pub nest_hook: Option<fn(u32)>,
}

pub static mut CUR: *mut Task = std::ptr::null_mut();
pub static mut W: *mut World = std::ptr::null_mut();

#[inline(always)]
pub fn cur() -> *mut Task {
    unsafe { CUR }
}
pub fn world() -> &'static mut World {
    unsafe { &mut *W }
}
pub fn has_world() -> bool {
    unsafe { !W.is_null() }
}

// ---------------------------------------------------------------- raw futex (not simulated)
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn baton_wait(b: &AtomicU32) {
    while b.load(Ordering::Acquire) == 0 {
        raw6(202, b as *const _ as i64, 128, 0, 0, 0, 0);
    }
    b.store(0, Ordering::Relaxed);
}
unsafe fn baton_post(b: &AtomicU32) {
    b.store(1, Ordering::Release);
    raw6(202, b as *const _ as i64, 129, 1, 0, 0, 0);
}

// ---------------------------------------------------------------- log
pub fn log(kind: &str, a: u64, b: u64) {
    if !has_world() {
        return;
    }
    let w = world();
    let t = cur();
    let (id, op, at) = if t.is_null() { (99, 0, 0) } else { unsafe { ((*t).id as u64, (*t).op, (*t).mem) } };
    let mut h = w.log;
    for x in [id, op as u64, at, a, b] {
        h = mix(h ^ x);
    }
    for c in kind.bytes() {
        h = (h ^ c as u64).wrapping_mul(0x100000001b3);
    }
    w.log = h;
    w.nlog += 1;
    if unsafe { WANT_TRACE } && w.trace.len() < 400 {
        let _g = Harness::new();
        w.trace.push(format!("task {} op {} step {}: {} {} {}", id, op, at, kind, a, b));
    }
}

/// While alive, the current task runs harness code: nothing it does is scheduled or counted.
pub struct Harness;
impl Harness {
    #[inline(never)]
    pub fn new() -> Harness {
        let t = cur();
        if !t.is_null() {
            unsafe { (*t).harness += 1 }
        }
        Harness
    }
}
impl Drop for Harness {
    #[inline(never)]
    fn drop(&mut self) {
        let t = cur();
        if !t.is_null() {
            unsafe { (*t).harness -= 1 }
        }
    }
}

#[cold]
#[inline(never)]
pub fn violation(class: &str, msg: String) {
    if !has_world() {
        return;
    }
    let _h = Harness::new();
    let w = world();
    if w.violations.len() < 20 {
        let t = cur();
        let s = if t.is_null() { String::new() } else { unsafe { format!("task {} op {}: ", (*t).id, (*t).op) } };
        w.violations.push((class.to_string(), s + &msg));
    }
}

// ---------------------------------------------------------------- points
const FAIR: u64 = 3_000_000;

impl Task {
    fn compute_next(&mut self) {
        let mut n = self.cap;
        if self.pre_i < self.pre.len() {
            n = n.min(self.pre[self.pre_i].0);
        }
        n = n.min(self.last_switch + FAIR).min(self.pend.0);
        self.next = n;
    }
}

#[inline(always)]
pub fn step(a: usize, n: usize, store: bool) {
    unsafe {
        let t = CUR;
        if t.is_null() || (*t).harness != 0 {
            return;
        }
        (*t).mem += 1;
        if n != 0 {
            if arena::contains(a) {
                let tag = arena::check(a, n, store);
                if tag != (*t).op_uid && tag < arena::TAG_INPUT {
                    shared_touch(t);
                }
            } else if a.wrapping_sub(STATIC_LO) < STATIC_LEN {
                shared_touch(t);
            }
        }
        if (*t).mem >= (*t).next {
            slow(t);
        }
    }
}

pub static mut WANT_TRACE: bool = false;
pub static mut STATIC_LO: usize = 0;
pub static mut STATIC_LEN: usize = 0;

#[cold]
#[inline(never)]
unsafe fn shared_touch(t: *mut Task) {
    (*t).shared_n += 1;
    (*W).stats.shared_touches += 1;
    if (*W).record_shared && (*t).shared.len() < 64 {
        let _h = Harness::new();
        (*t).shared.push((*t).mem);
    }
    let n = (*t).shared_n;
    if let Ok(i) = (&(*t).pre_touch).binary_search_by_key(&n, |x| x.0) {
        let to = (&(*t).pre_touch)[i].1;
        planned(t, to);
    }
}

/// A call of the output machinery. Planned switches happen at it or a few steps after it.
#[inline(never)]
pub unsafe fn out_point(t: *mut Task) {
    (*t).out_n += 1;
    let n = (*t).out_n;
    let v: &Vec<(u64, usize)> = &(*t).pre_out;
    let i = v.partition_point(|x| x.0 < n * 8);
    if i < v.len() && v[i].0 / 8 == n {
        let (at, to) = v[i];
        if at % 8 == 0 {
            planned(t, to);
        } else {
            (*t).pend = ((*t).mem + at % 8, to);
            (*t).compute_next();
        }
    }
}

unsafe fn planned(t: *mut Task, to: usize) {
    let w = world();
    if to == usize::MAX {
        if let Some(n) = pick_other(t) {
            w.stats.planned_hit += 1;
            log("preempt", n as u64, 0);
            switch_to(t, n);
        }
        return;
    }
    if to < w.tasks.len() && to != (*t).id && (*w.tasks[to]).st == St::Runnable {
        w.stats.planned_hit += 1;
        log("preempt", to as u64, 0);
        switch_to(t, to);
    }
}

#[cold]
#[inline(never)]
unsafe fn slow(t: *mut Task) {
    if (*t).mem >= (*t).cap {
        let _h = Harness::new();
        abort_run(&format!("step-limit: operation {} of task {} exceeded {} steps", (*t).op, (*t).id, (*t).cap));
    }
    let mut target = None;
    if (*t).pend.0 <= (*t).mem {
        target = Some((*t).pend.1);
        (*t).pend = (u64::MAX, 0);
    }
    while (*t).pre_i < (*t).pre.len() && (&(*t).pre)[(*t).pre_i].0 <= (*t).mem {
        target = Some((&(*t).pre)[(*t).pre_i].1);
        (*t).pre_i += 1;
    }
    if let Some(to) = target {
        (*t).compute_next();
        planned(t, to);
    } else if (*t).mem >= (*t).last_switch + FAIR {
        (*t).last_switch = (*t).mem;
        (*t).compute_next();
        if let Some(n) = pick_other(t) {
            world().stats.fair_switches += 1;
            switch_to(t, n);
        }
    } else {
        (*t).compute_next();
    }
}

unsafe fn pick_other(t: *mut Task) -> Option<usize> {
    let w = world();
    let c = w.tasks.iter().filter(|&&x| (*x).st == St::Runnable && x != t).count();
    if c == 0 {
        return None;
    }
    let k = w.rng.below(c as u64) as usize;
    w.tasks.iter().filter(|&&x| (*x).st == St::Runnable && x != t).nth(k).map(|&x| (*x).id)
}

unsafe fn switch_to(t: *mut Task, to: usize) {
    let w = world();
    let n = w.tasks[to];
    w.stats.switches += 1;
    w.sched_hash = mix(w.sched_hash ^ ((*t).id as u64) << 56 ^ (to as u64) << 48 ^ ((*t).op as u64) << 40 ^ (*t).mem);
    (*n).last_switch = (*n).mem;
    (*n).compute_next();
    CUR = n;
    baton_post(&(*n).baton);
    baton_wait(&(*t).baton);
    // running again: CUR == t
}

/// The current task cannot continue (or yields): run someone else.
pub unsafe fn block(t: *mut Task, st: St, deadline: u64) {
    (*t).st = st;
    (*t).deadline = deadline;
    (*t).timed_out = false;
    loop {
        match pick_other(t) {
            Some(n) => {
                switch_to(t, n);
                if (*t).st == St::Runnable {
                    return;
                }
            }
            None => {
                // advance the virtual clock to the next deadline
                let w = world();
                let d = w
                    .tasks
                    .iter()
                    .filter(|&&x| matches!((*x).st, St::Futex(_)) && (*x).deadline != u64::MAX)
                    .map(|&x| ((*x).deadline, (*x).id))
                    .min();
                match d {
                    Some((when, id)) => {
                        w.now = w.now.max(when);
                        let x = w.tasks[id];
                        (*x).st = St::Runnable;
                        (*x).timed_out = true;
                        if x == t {
                            return;
                        }
                    }
                    None => {
                        let _h = Harness::new();
                        abort_run(&format!(
                        "deadlock: {}",
                        w.tasks
                            .iter()
                            .map(|&x| format!("task {} {:?}", (*x).id, std::mem::discriminant(&(*x).st) == std::mem::discriminant(&St::Done)))
                            .collect::<Vec<_>>()
                            .join(", ")
                        ))
                    }
                }
            }
        }
    }
}

pub unsafe fn yield_now(t: *mut Task) {
    if let Some(n) = pick_other(t) {
        switch_to(t, n);
    }
}

pub unsafe fn sleep_until(t: *mut Task, when: u64) {
    world().stats.sleeps += 1;
    // a futex nobody wakes
    block(t, St::Futex(1), when);
}

/// Ends the run here and now: the main thread reports.
pub unsafe fn abort_run(why: &str) -> ! {
    {
        let _h = Harness::new();
        let w = world();
        if w.abort.is_none() {
            w.abort = Some(why.to_string());
        }
    }
    (*CUR).harness += 1;
    CUR = std::ptr::null_mut();
    baton_post(&world().main);
    loop {
        raw6(34, 0, 0, 0, 0, 0, 0); // pause
    }
}

#[inline(never)]
pub fn alloc_point() {
    unsafe {
        let t = CUR;
        (*W).stats.allocs += 1;
        if (*W).record_shared && (*t).allocs.len() < 256 {
            let _h = Harness::new();
            (*t).allocs.push((*t).mem);
        }
        (*t).alloc_n += 1;
        let n = (*t).alloc_n;
        if let Ok(i) = (&(*t).pre_alloc).binary_search_by_key(&n, |x| x.0) {
            let to = (&(*t).pre_alloc)[i].1;
            planned(t, to);
        }
    }
    step(0, 0, false)
}

pub struct SimCrash;

/// A call of a caller-supplied component: crash point.
#[inline(never)]
pub fn seam(kind: u32) {
    unsafe {
        let t = CUR;
        if t.is_null() || (*t).harness != 0 {
            return;
        }
        (*t).seam += 1;
        (*W).stats.seam_calls += 1;
        let _ = kind;
        step(0, 0, false);
        if (*t).nest_i < (*t).nests.len() && (&(*t).nests)[(*t).nest_i].0 <= (*t).seam && !std::thread::panicking() {
            let id = (&(*t).nests)[(*t).nest_i].1;
            (*t).nest_i += 1;
            nest(t, id);
        }
        if (*t).seam == (*t).crash_seam && !std::thread::panicking() {
            crash(t, 1);
        }
    }
}

/// Runs another fit from within a component call of the current one: the operation under way is
/// put aside and taken up again afterwards.
#[cold]
#[inline(never)]
unsafe fn nest(t: *mut Task, id: u32) {
    let hook = match world().nest_hook {
        Some(h) => h,
        None => return,
    };
    log("nest", id as u64, (*t).seam);
    (*t).harness += 1;
    (*W).stats.nested_fits += 1;
    if (*t).op >= NESTED {
        (*W).stats.nested_in_nested += 1;
    }
    macro_rules! aside {
        ($($f:ident)*) => {
            let s = ($(std::mem::take(&mut (*t).$f),)*);
            let peak = arena::A.peak_bytes;
            hook(id);
            arena::A.peak_bytes = arena::A.peak_bytes.max(peak);
            let ($($f,)*) = s;
            $((*t).$f = $f;)*
        };
    }
    aside!(op op_uid in_op mem seam arith crash_seam crash_arith crash_hit pre pre_i pre_touch pre_alloc pre_out
        alloc_n out_n pend out0 cap op_writes live0 shared shared_n allocs panic_msg nests nest_i);
    (*t).last_switch = (*t).mem;
    (*t).compute_next();
    (*t).harness -= 1;
    log("nest-end", id as u64, (*t).seam);
}

/// Operation numbers from here on are those of fits started by other fits.
pub const NESTED: u32 = 100;

/// A scalar arithmetic operation of the simulated element type: crash point.
#[inline(never)]
pub fn arith() {
    unsafe {
        let t = CUR;
        if t.is_null() || (*t).harness != 0 {
            return;
        }
        (*t).arith += 1;
        if (*t).arith == (*t).crash_arith {
            arith_crash(t);
        }
    }
}
#[cold]
#[inline(never)]
unsafe fn arith_crash(t: *mut Task) {
    if !std::thread::panicking() {
        crash(t, 0);
    }
}

unsafe fn crash(t: *mut Task, k: u64) -> ! {
    (*W).stats.crashes += 1;
    (*t).crashed += 1;
    (*t).crash_hit = true;
    log("crash", k, (*t).seam + (*t).arith);
    let b: Box<dyn std::any::Any + Send> = {
        let _h = Harness::new();
        Box::new(SimCrash)
    };
    std::panic::resume_unwind(b)
}

// ---------------------------------------------------------------- tasks
/// Leaves harness mode for as long as it lives (also when unwinding).
pub struct Sut(());
impl Sut {
    #[inline(never)]
    pub fn enter() -> Sut {
        unsafe { (*CUR).harness -= 1 }
        Sut(())
    }
}
impl Drop for Sut {
    #[inline(never)]
    fn drop(&mut self) {
        unsafe { (*CUR).harness += 1 }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let inner = {
            let t = cur();
            t.is_null() || unsafe { (*t).harness != 0 }
        };
        let _h = Harness::new();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!(" ({}:{})", l.file(), l.line())).unwrap_or_default();
        if inner {
            // the simulator itself is broken
            let s = format!("simulator panic: {}{}\n", m, loc);
            unsafe {
                raw6(1, 2, s.as_ptr() as i64, s.len() as i64, 0, 0, 0);
                raw6(231, 70, 0, 0, 0, 0, 0);
            }
        }
        let t = cur();
        unsafe { (*t).panic_msg = m + &loc };
    }));
}

pub fn take_panic() -> String {
    unsafe { std::mem::take(&mut (*CUR).panic_msg) }
}

/// Empties std's output buffer; returns how many bytes were still in it.
pub fn drain_output() -> u64 {
    use std::io::Write;
    let w = world();
    w.draining = true;
    w.drained = 0;
    let _ = std::io::stdout().flush();
    w.draining = false;
    w.drained
}

/// Forgets the tasks of a finished round; false if the code under test has threads that
/// outlive it.
pub fn reset_tasks() -> bool {
    let w = world();
    if w.tasks.iter().any(|&t| unsafe { (*t).st != St::Done }) {
        return false;
    }
    for &t in w.tasks.iter() {
        unsafe { drop(Box::from_raw(t)) }
    }
    w.tasks.clear();
    true
}

#[inline(never)]
pub fn cur_id() -> usize {
    let t = cur();
    if t.is_null() {
        usize::MAX
    } else {
        unsafe { (*t).id }
    }
}

#[inline(never)]
pub fn op_begin(op: u32) {
    unsafe {
        let t = &mut *CUR;
        let w = world();
        t.op = op;
        t.in_op = true;
        t.op_uid = ((t.id as u32) << 20) | (op + 1);
        t.mem = 0;
        t.seam = 0;
        t.arith = 0;
        t.op_writes = 0;
        t.live0 = crate::arena::A.live_bytes;
        crate::arena::A.peak_bytes = t.live0;
        t.crash_hit = false;
        t.crash_arith = u64::MAX;
        t.crash_seam = u64::MAX;
        for c in &w.crashes {
            if c.task == t.id && c.op == op {
                if c.at == "arith" {
                    t.crash_arith = c.n
                } else {
                    t.crash_seam = c.n
                }
            }
        }
        let sel = |on: u8| -> Vec<(u64, usize)> {
            let mut v: Vec<(u64, usize)> =
                w.preempts.iter().filter(|p| p.task == t.id && p.op == op && p.on == on).map(|p| (p.at, p.to)).collect();
            v.sort();
            v
        };
        let (a, b, c, d) = (sel(0), sel(1), sel(2), sel(3));
        t.pre = a;
        t.pre_touch = b;
        t.pre_alloc = c;
        t.pre_out = d;
        t.out_n = 0;
        t.pend = (u64::MAX, 0);
        t.out0 = w.out.len() as u64;
        t.alloc_n = 0;
        t.pre_i = 0;
        t.last_switch = 0;
        t.cap = w.step_cap;
        t.shared.clear();
        t.allocs.clear();
        t.shared_n = 0;
        t.nests = w.nests.iter().filter(|x| x.0 == t.id && x.1 == op).map(|x| (x.2, x.3)).collect();
        t.nests.sort();
        t.nest_i = 0;
        t.compute_next();
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct OpCounts {
    pub mem: u64,
    pub seam: u64,
    pub arith: u64,
    pub writes: u64,
    pub shared: Vec<u64>,
    pub shared_n: u64,
    pub allocs: Vec<u64>,
    pub alloc_n: u64,
    /// calls of the output machinery, and the part of the output stream the operation spans
    #[serde(default)]
    pub out_n: u64,
    #[serde(default)]
    pub out: (u64, u64),
    pub crash_hit: bool,
    /// most memory allocated at once (of the whole process, when tasks overlap)
    pub peak: u64,
}

#[inline(never)]
pub fn op_end() -> OpCounts {
    unsafe {
        let t = &mut *CUR;
        let w = world();
        t.in_op = false;
        w.stats.mem_steps += t.mem;
        w.stats.arith_ops += t.arith;
        t.total_mem += t.mem;
        OpCounts {
            mem: t.mem,
            seam: t.seam,
            arith: t.arith,
            writes: t.op_writes,
            shared: t.shared.clone(),
            shared_n: t.shared_n,
            allocs: t.allocs.clone(),
            alloc_n: t.alloc_n,
            out_n: t.out_n,
            out: (t.out0, w.out.len() as u64),
            crash_hit: t.crash_hit,
            peak: crate::arena::A.peak_bytes.saturating_sub(t.live0),
        }
    }
}

fn new_task(id: usize) -> *mut Task {
    Box::into_raw(Box::new(Task {
        id,
        st: St::Runnable,
        baton: AtomicU32::new(0),
        ready: AtomicU32::new(0),
        harness: 0,
        op: 0,
        op_uid: (id as u32) << 20,
        mem: 0,
        next: u64::MAX,
        seam: 0,
        arith: 0,
        crash_seam: u64::MAX,
        crash_arith: u64::MAX,
        crashed: 0,
        crash_hit: false,
        pre: vec![],
        pre_i: 0,
        pre_touch: vec![],
        pre_alloc: vec![],
        pre_out: vec![],
        alloc_n: 0,
        out_n: 0,
        pend: (u64::MAX, 0),
        out0: 0,
        last_switch: 0,
        cap: u64::MAX,
        total_mem: 0,
        writes: 0,
        op_writes: 0,
        live0: 0,
        deadline: u64::MAX,
        timed_out: false,
        in_op: false,
        tid: 0,
        spawned_by: usize::MAX,
        shared: vec![],
        shared_n: 0,
        allocs: vec![],
        panic_msg: String::new(),
        nests: vec![],
        nest_i: 0,
    }))
}

pub struct Start {
    task: *mut Task,
    f: Option<Box<dyn FnOnce()>>,
    raw: Option<(extern "C" fn(*mut u8) -> *mut u8, *mut u8)>,
}

extern "C" fn trampoline(p: *mut u8) -> *mut u8 {
    unsafe {
        let mut s = Box::from_raw(p as *mut Start);
        let t = s.task;
        // warm up std's per-thread state before the task is visible
        // (a thread of the code under test sets its own handle)
        if s.f.is_some() {
            let _ = std::thread::current().id();
        }
        let _ = std::panic::catch_unwind(|| std::panic::resume_unwind(Box::new(0u8)));
        baton_post(&(*t).ready);
        baton_wait(&(*t).baton);
        let mut r = std::ptr::null_mut();
        if let Some(f) = s.f.take() {
            (*t).harness += 1;
            f();
        } else if let Some((f, a)) = s.raw.take() {
            (*t).cap = world().step_cap;
            (*t).compute_next();
            r = f(a);
            (*t).harness += 1;
        }
        drop(s);
        world().finished.push((*t).id);
        // keep CUR: thread-local destructors still run as this task, unscheduled
        baton_post(&world().main);
        r
    }
}

/// Creates a task of the simulation. `f` runs in harness mode (use `run_op` inside).
pub fn spawn(f: Box<dyn FnOnce()>) -> usize {
    let w = world();
    let id = w.tasks.len();
    let t = new_task(id);
    w.tasks.push(t);
    let s = Box::into_raw(Box::new(Start { task: t, f: Some(f), raw: None }));
    unsafe {
        (*t).tid = crate::sys::real_pthread_create_at(id, trampoline, s as *mut u8);
        baton_wait(&(*t).ready);
    }
    id
}

/// A thread created by the code under test itself.
pub unsafe fn spawn_raw(f: extern "C" fn(*mut u8) -> *mut u8, a: *mut u8) -> u64 {
    // the new thread prepares itself while nothing else runs
    let _h = Harness::new();
    let w = world();
    let id = w.tasks.len();
    let t = new_task(id);
    (*t).spawned_by = (*CUR).id;
    w.stats.spawned_threads += 1;
    w.tasks.push(t);
    // threads of the code under test: preempted at seeded points
    let mut at = 0;
    for _ in 0..200 {
        let scale = [3, 30, 300, 3000, 30000][w.rng.below(5) as usize];
        at += 1 + w.rng.below(scale);
        (*t).pre.push((at, usize::MAX));
    }
    let s = Box::into_raw(Box::new(Start { task: t, f: None, raw: Some((f, a)) }));
    (*t).tid = crate::sys::real_pthread_create_at(id, trampoline, s as *mut u8);
    baton_wait(&(*t).ready);
    (*t).tid
}

/// Runs all tasks to completion (called by the main thread of the child process).
pub fn run(first: usize) {
    drive(Some(first.min(world().tasks.len() - 1)))
}
fn drive(first: Option<usize>) {
    unsafe {
        let w = world();
        let mut next = first.unwrap_or(0);
        let mut running = first.is_none();
        loop {
            if !running {
                let t = w.tasks[next];
                CUR = t;
                baton_post(&(*t).baton);
            }
            running = false;
            baton_wait(&w.main);
            if w.abort.is_some() {
                return;
            }
            // some task finished
            while let Some(id) = w.finished.pop() {
                let t = w.tasks[id];
                crate::sys::real_pthread_join((*t).tid);
                CUR = std::ptr::null_mut();
                (*t).st = St::Done;
                log("done", id as u64, 0);
                for &x in w.tasks.iter() {
                    if (*x).st == St::Join(id) {
                        (*x).st = St::Runnable;
                    }
                }
            }
            let run: Vec<usize> = w.tasks.iter().filter(|&&x| (*x).st == St::Runnable).map(|&x| (*x).id).collect();
            if run.is_empty() {
                // threads of the code under test may wait for work that never comes, until the
                // process ends
                let over = |x: *mut Task| matches!((*x).st, St::Done | St::Gone) || ((*x).spawned_by != usize::MAX && (*x).deadline == u64::MAX);
                if w.tasks.iter().all(|&x| over(x)) {
                    return;
                }
                let d = w
                    .tasks
                    .iter()
                    .filter(|&&x| matches!((*x).st, St::Futex(_)) && (*x).deadline != u64::MAX)
                    .map(|&x| ((*x).deadline, (*x).id))
                    .min();
                if let Some((when, id)) = d {
                    w.now = w.now.max(when);
                    (*w.tasks[id]).st = St::Runnable;
                    (*w.tasks[id]).timed_out = true;
                    next = id;
                    continue;
                }
                w.abort = Some("deadlock: every remaining task waits forever".into());
                return;
            }
            next = run[w.rng.below(run.len() as u64) as usize];
            w.sched_hash = mix(w.sched_hash ^ next as u64);
        }
    }
}

extern "C" {
    fn fork() -> i32;
}
static mut FORK_FD: i64 = -1;
unsafe fn answer(ok: u8, b: &[u8]) -> ! {
    let mut v = vec![ok];
    v.extend_from_slice(b);
    let mut o = 0;
    while o < v.len() {
        let k = raw6(1, FORK_FD, v.as_ptr().add(o) as i64, (v.len() - o) as i64, 0, 0, 0);
        if k <= 0 {
            break;
        }
        o += k as usize;
    }
    raw6(231, 0, 0, 0, 0, 0, 0);
    loop {}
}
/// Stands in for the main thread, which a forked process does not have.
extern "C" fn forked_main(_: *mut u8) -> *mut u8 {
    drive(None);
    let _h = Harness::new();
    unsafe { answer(0, world().abort.clone().unwrap_or("the forked process stopped".into()).as_bytes()) }
}

/// Runs `f` in a forked process: a copy of this one in which only the current task goes on.
/// `f` returns its answer; Err says why there is none. To be called in harness mode.
pub fn forked(f: &mut dyn FnMut() -> Vec<u8>) -> Result<Vec<u8>, String> {
    unsafe {
        let w = world();
        let t = cur();
        w.stats.forks += 1;
        if w.tasks.iter().any(|&x| x != t && (*x).in_op) {
            w.stats.forks_mid_fit += 1;
        }
        log("fork", w.tasks.iter().filter(|&&x| x != t && (*x).in_op).count() as u64, 0);
        let mut fds = [0i32; 2];
        assert!(raw6(22, fds.as_mut_ptr() as i64, 0, 0, 0, 0, 0) == 0);
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            raw6(3, fds[0] as i64, 0, 0, 0, 0, 0);
            raw6(157, 1, 9, 0, 0, 0, 0);
            FORK_FD = fds[1] as i64;
            for &x in w.tasks.iter() {
                if x != t && (*x).st != St::Done {
                    (*x).st = St::Gone;
                }
            }
            w.main.store(0, Ordering::Relaxed);
            w.pid += w.stats.forks as i32;
            crate::sys::real_pthread_create_at(1000, forked_main, std::ptr::null_mut());
            let b = f();
            answer(1, &b);
        }
        raw6(3, fds[1] as i64, 0, 0, 0, 0, 0);
        let mut buf = vec![];
        let mut tmp = [0u8; 4096];
        loop {
            let k = raw6(0, fds[0] as i64, tmp.as_mut_ptr() as i64, tmp.len() as i64, 0, 0, 0);
            if k == -4 {
                continue;
            }
            if k <= 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..k as usize]);
        }
        raw6(3, fds[0] as i64, 0, 0, 0, 0, 0);
        let mut st = 0i32;
        while raw6(61, pid as i64, &mut st as *mut i32 as i64, 0, 0, 0, 0) == -4 {}
        if st & 0x7f != 0 {
            return Err(format!("killed by signal {}", st & 0x7f));
        }
        if (st >> 8) & 0xff != 0 {
            if (st >> 8) & 0xff == 70 {
                raw6(231, 70, 0, 0, 0, 0, 0);
            }
            return Err(format!("exited with status {}", (st >> 8) & 0xff));
        }
        match buf.split_first() {
            Some((1, b)) => Ok(b.to_vec()),
            Some((_, b)) => Err(String::from_utf8_lossy(b).into_owned()),
            None => Err("no answer".into()),
        }
    }
}

/// Lets another task run, if there is one.
pub fn pass() {
    unsafe { yield_now(cur()) }
}

pub fn init(env: Env, preempts: Vec<Preempt>, crashes: Vec<Crash>, wfaults: Vec<WriteFaults>, step_cap: u64, record: bool) {
    unsafe {
        let reuse = match env.reuse.as_str() {
            "never" => arena::Reuse::Never,
            "fifo" => arena::Reuse::Fifo,
            "random" => arena::Reuse::Random,
            _ => arena::Reuse::Lifo,
        };
        arena::init(reuse, env.fill, env.fill_free, env.pad, env.seed);
        let w = World {
            tasks: Vec::with_capacity(64),
            stats: Stats::default(),
            now: env.clock0,
            rng: Rng::new(env.seed ^ 0x5eed),
            env,
            preempts,
            crashes,
            wfaults,
            violations: vec![],
            log: 0xcbf29ce484222325,
            trace: Vec::with_capacity(512),
            nlog: 0,
            main: AtomicU32::new(0),
            finished: vec![],
            step_cap,
            abort: None,
            record_shared: record,
            sched_hash: 0,
            out: vec![],
            draining: false,
            drained: 0,
            disk: Default::default(),
            pid: 4000,
            nests: vec![],
            nest_hook: None,
        };
        W = Box::into_raw(Box::new(w));
        extern "C" {
            static __data_start: u8;
            static _end: u8;
        }
        STATIC_LO = &raw const __data_start as usize;
        STATIC_LEN = &raw const _end as usize - STATIC_LO;
        crate::sys::resolve();
    }
}
