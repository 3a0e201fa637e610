//! Plans: everything a simulated run does, as data. A plan file is a replay file.
use crate::prng::Rng;
use crate::sched::{Crash, Env, OpCounts, Preempt, Stats, WriteFaults};
use serde::{Deserialize, Serialize};

pub const FL_ZERO_COLS: u32 = 1;
pub const FL_DUP_COLS: u32 = 2;
pub const FL_SCALES: u32 = 4;
pub const FL_CORR: u32 = 8;
pub const FL_Y_ZERO: u32 = 16;
pub const FL_EXPL_ZEROS: u32 = 32;
pub const FL_UNSORTED: u32 = 64;
pub const FL_INTEGER: u32 = 128;
pub const FL_DUP_ENTRIES: u32 = 256;
pub const FL_ORTHO: u32 = 512;
pub const FL_SPARSE_TRUE: u32 = 1024;
/// targets so small that squares of differences of iterates lose their digits
pub const FL_Y_TINY: u32 = 2048;
/// every other sample is the mirror image of the one before: sums over samples vanish
pub const FL_MIRROR: u32 = 4096;
/// targets, and with them coefficients and gradients, far below one: nothing may compare them with an absolute number
pub const FL_Y_SCALED: u32 = 8192;
/// every other feature lives on samples whose targets are zero: its gradient is exactly zero throughout
pub const FL_Y_PART: u32 = 16384;
pub fn y_scale(s: &DataSpec) -> f64 {
    if s.flavor & FL_Y_SCALED == 0 {
        1.0
    } else if s.dtype == "f32" {
        1e-10
    } else {
        1e-20
    }
}

/// Stands for NaN among the settings of a fit (plans are JSON).
pub const NAN_SETTING: f64 = 1.25e307;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Corrupt {
    /// "x", "y", "idx", "ptr": one stored value; "xlen", "ylen", "idxlen", "ptrlen": the length
    pub what: String,
    pub at: u64,
    /// "nan", "inf", "-inf", "huge", "tiny", "bit", "zero", "neg"
    pub kind: String,
    pub bit: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DataSpec {
    pub n: usize,
    pub p: usize,
    pub t: usize,
    pub seed: u64,
    /// "c", "f", "strided", "view", "csc"
    pub storage: String,
    pub density: f64,
    pub flavor: u32,
    /// "f64", "f32", "sim"
    pub dtype: String,
    #[serde(default)]
    pub labels: bool,
    #[serde(default)]
    pub corrupt: Vec<Corrupt>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Algo {
    Lasso,
    Enet,
    Mcp,
    L05,
    LogL1,
    LogEnet,
    LogMcp,
    MtLasso,
    MtEnet,
    BlockMcp,
}
impl Algo {
    pub fn multi(self) -> bool {
        matches!(self, Algo::MtLasso | Algo::MtEnet | Algo::BlockMcp)
    }
    pub fn logistic(self) -> bool {
        matches!(self, Algo::LogL1 | Algo::LogEnet | Algo::LogMcp)
    }
    pub fn estimator(self) -> bool {
        !self.logistic() && self != Algo::L05
    }
    pub fn mcp(self) -> bool {
        matches!(self, Algo::Mcp | Algo::LogMcp | Algo::BlockMcp)
    }
    pub fn enet(self) -> bool {
        matches!(self, Algo::Enet | Algo::LogEnet | Algo::MtEnet)
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Api {
    Est,
    Solver,
    Wrapped,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CompFault {
    /// grad, prox, dfvalue, penvalue, kkt, step
    pub target: String,
    pub from: u64,
    pub to: u64,
    /// noise, scale, neg, zero, const, nan, inf, huge, random
    pub kind: String,
    pub val: f64,
    /// probability that a call in the window is affected
    pub prob: f64,
    pub seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fit {
    pub ds: usize,
    pub algo: Algo,
    pub api: Api,
    pub alpha: f64,
    pub gamma: f64,
    pub l1_ratio: f64,
    pub ws: usize,
    pub iters: usize,
    pub epochs: usize,
    pub tol: f64,
    pub k: usize,
    pub accel: bool,
    pub verbose: bool,
    /// hyper-parameter / penalty / solver objects shared by every operation with equal settings
    pub share: bool,
    /// datafit object reused by the operations of a task that name the same slot
    pub slot: Option<u32>,
    /// access to targets/design matrix goes through wrappers that can crash
    #[serde(default)]
    pub mon: bool,
    #[serde(default)]
    pub faults: Vec<CompFault>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Fit(Fit),
    /// overwrite the contents of a dataset in place (same addresses)
    Mutate { ds: usize, data: DataSpec },
    /// drop a dataset and build another one (the allocator may reuse the addresses)
    Rebuild { ds: usize, data: DataSpec },
    /// forget the datafit object of a slot
    DropSlot(u32),
    /// a fit, run twice in a process forked here
    Fork(Fit),
}
impl Op {
    pub fn fit(&self) -> Option<&Fit> {
        match self {
            Op::Fit(f) | Op::Fork(f) => Some(f),
            _ => None,
        }
    }
    pub fn fit_mut(&mut self) -> Option<&mut Fit> {
        match self {
            Op::Fit(f) | Op::Fork(f) => Some(f),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    pub pool: Vec<DataSpec>,
    pub tasks: Vec<Vec<Op>>,
    #[serde(default)]
    pub preempts: Vec<Preempt>,
    #[serde(default)]
    pub crashes: Vec<Crash>,
    #[serde(default)]
    pub wfaults: Vec<WriteFaults>,
    pub env: Env,
    #[serde(default)]
    pub first: usize,
    pub step_cap: u64,
    /// repeat the whole task program this many times (memory histories)
    #[serde(default)]
    pub rounds: usize,
    /// kind of scenario, for the oracle
    pub mode: String,
    #[serde(default)]
    pub nests: Vec<Nest>,
}

/// A fit that a component starts when it is called for the n-th time by operation `op` of `task`
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Nest {
    pub task: usize,
    pub op: u32,
    pub n: u64,
    /// its own operation number
    pub id: u32,
    pub fit: Fit,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct MonOut {
    pub violations: Vec<(String, String)>,
    pub fault_hits: u64,
    pub grad_calls: u64,
    pub prox_calls: u64,
    pub kkt_calls: u64,
    pub kkt_all_calls: u64,
    pub value_calls: u64,
    pub update_calls: u64,
    pub extrap_calls: u64,
    pub init_calls: u64,
    pub last_kkt_all: u64, // bits of the last delivered maximum over all features
    pub last_fault_seq: u64,
    pub seq: u64,
    pub last_kkt_all_seq: u64,
    pub max_pass: u64,
    pub worst_xw: f64,
    pub max_xw: f64,
    /// the last check over all features met the tolerance and nothing moved since
    pub conv: bool,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct OpRes {
    pub task: usize,
    pub op: u32,
    /// ok, panic, crash, err, none
    pub kind: String,
    pub msg: String,
    pub rows: usize,
    pub cols: usize,
    pub bits: Vec<u64>,
    pub counts: OpCounts,
    pub mon: MonOut,
    pub live: u64,
    pub live_blocks: u64,
    /// what the fit wrote, of fits that were alone
    #[serde(default)]
    pub out: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunRes {
    pub ops: Vec<OpRes>,
    pub violations: Vec<(String, String)>,
    pub stats: Stats,
    pub log: u64,
    pub nlog: u64,
    pub sched_hash: u64,
    pub abort: Option<String>,
    pub trace: Vec<String>,
    pub out_len: u64,
    pub out_hash: u64,
    #[serde(default)]
    pub out: String,
    pub rounds_live: Vec<(u64, u64)>,
    pub final_live: (u64, u64),
    /// set by the parent: the process died
    #[serde(default)]
    pub died: Option<String>,
}

/// What a forked process tells its parent.
#[derive(Serialize, Deserialize)]
pub struct Forked {
    pub op: OpRes,
    pub violations: Vec<(String, String)>,
    pub log: u64,
    pub nlog: u64,
    pub stats: Stats,
    pub now: u64,
    pub trace: Vec<String>,
}

impl Forked {
    pub fn pack(&self) -> Vec<u8> {
        serde_json::to_vec(self).unwrap()
    }
    pub fn unpack(b: Vec<u8>) -> Result<Forked, String> {
        serde_json::from_slice(&b).map_err(|e| e.to_string())
    }
}

// ---------------------------------------------------------------- data
#[derive(Clone, Debug)]
pub struct Raw {
    pub n: usize,
    pub p: usize,
    pub t: usize,
    /// dense, column major
    pub x: Vec<f64>,
    pub data: Vec<f64>,
    pub indices: Vec<i32>,
    pub indptr: Vec<i32>,
    pub y: Vec<f64>,
    /// row major n x t
    pub ym: Vec<f64>,
    pub is_csc: bool,
}

fn corrupt_value(v: f64, c: &Corrupt) -> f64 {
    match c.kind.as_str() {
        "nan" => f64::NAN,
        "inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "huge" => 1e300,
        "big" => 1e30,
        "tiny" => 1e-310,
        "zero" => 0.0,
        "neg" => -v,
        _ => f64::from_bits(v.to_bits() ^ (1u64 << (c.bit % 64))),
    }
}

pub fn generate(s: &DataSpec) -> Raw {
    let mut r = Rng::new(s.seed);
    let (n, p, t) = (s.n, s.p, s.t);
    let f = s.flavor;
    let mut x = vec![0.0; n * p];
    let common: Vec<f64> = (0..n).map(|_| r.normal()).collect();
    for j in 0..p {
        let scale = if f & FL_SCALES != 0 { [0.03, 0.3, 1.0, 3.0, 30.0][r.below(5) as usize] } else { 1.0 };
        let zero = f & FL_ZERO_COLS != 0 && r.chance(0.25);
        let dup = f & FL_DUP_COLS != 0 && j > 0 && r.chance(0.25);
        let src = if dup { r.below(j as u64) as usize } else { 0 };
        for i in 0..n {
            let mut v = r.normal();
            if f & FL_CORR != 0 {
                v = 0.4 * v + 0.9 * common[i];
            }
            if f & FL_INTEGER != 0 {
                v = (v * 1.5).round();
            }
            if f & FL_ORTHO != 0 {
                v = if i % p == j { 1.0 } else { 0.0 };
            }
            let keep = s.density >= 1.0 || r.f64() < s.density;
            v = if zero || !keep { 0.0 } else { v * scale };
            if dup {
                v = x[src * n + i];
            }
            x[j * n + i] = v;
        }
        if f & FL_Y_PART != 0 {
            for i in 0..n {
                if i % 2 != j % 2 {
                    x[j * n + i] = 0.0;
                }
            }
        }
        if f & FL_MIRROR != 0 {
            for i in (1..n).step_by(2) {
                x[j * n + i] = -x[j * n + i - 1];
            }
        }
    }
    let single = s.dtype == "f32";
    let rnd = |v: f64| if single { v as f32 as f64 } else { v };
    for v in x.iter_mut() {
        *v = rnd(*v);
    }
    // targets from a sparse true model plus noise
    let mut ym = vec![0.0; n * t];
    let mut y = vec![0.0; n];
    let dense_true = f & FL_SPARSE_TRUE == 0;
    let mut wt = vec![0.0; p * t.max(1)];
    for j in 0..p {
        if dense_true || r.chance(0.3) {
            for k in 0..t.max(1) {
                wt[j * t.max(1) + k] = r.normal();
            }
        }
    }
    for i in 0..n {
        for k in 0..t.max(1) {
            let mut v = 0.3 * r.normal();
            for j in 0..p {
                v += x[j * n + i] * wt[j * t.max(1) + k];
            }
            if f & FL_Y_ZERO != 0 || f & FL_Y_PART != 0 && i % 2 == 1 {
                v = 0.0;
            }
            if f & FL_Y_TINY != 0 {
                v *= if s.dtype == "f32" { 1e-16 } else { 1e-148 };
            }
            v *= y_scale(s);
            if k == 0 {
                y[i] = v;
            }
            if k < t {
                ym[i * t + k] = rnd(v);
            }
        }
    }
    if s.labels {
        for v in y.iter_mut() {
            *v = if *v >= 0.0 { 1.0 } else { -1.0 };
        }
    }
    for v in y.iter_mut() {
        *v = rnd(*v);
    }
    // sparse storage of the same matrix
    let (mut data, mut indices, mut indptr) = (vec![], vec![], vec![0i32]);
    for j in 0..p {
        let mut col: Vec<(i32, f64)> = vec![];
        for i in 0..n {
            let v = x[j * n + i];
            if v != 0.0 || (f & FL_EXPL_ZEROS != 0 && r.chance(0.3)) {
                col.push((i as i32, v));
            }
        }
        if f & FL_UNSORTED != 0 {
            r.shuffle(&mut col);
        }
        if f & FL_DUP_ENTRIES != 0 && !col.is_empty() && r.chance(0.4) {
            let (i, v) = col[0];
            col[0] = (i, rnd(v * 0.5));
            col.push((i, rnd(v * 0.5)));
        }
        for (i, v) in col {
            indices.push(i);
            data.push(v);
        }
        indptr.push(data.len() as i32);
    }
    let csc = s.storage == "csc";
    for c in &s.corrupt {
        match c.what.as_str() {
            "x" => {
                let v: &mut Vec<f64> = if csc { &mut data } else { &mut x };
                if !v.is_empty() && c.kind == "swap" {
                    let (k, l) = ((c.at % v.len() as u64) as usize, ((c.at >> 20) % v.len() as u64) as usize);
                    v.swap(k, l);
                } else if !v.is_empty() {
                    let k = (c.at % v.len() as u64) as usize;
                    v[k] = rnd(corrupt_value(v[k], c));
                }
            }
            "y" => {
                if n > 0 && c.kind == "swap" {
                    y.swap((c.at % n as u64) as usize, ((c.at >> 20) % n as u64) as usize);
                    if t > 0 {
                        ym.swap((c.at % (n * t) as u64) as usize, ((c.at >> 20) % (n * t) as u64) as usize);
                    }
                } else if n > 0 {
                    let k = (c.at % n as u64) as usize;
                    y[k] = rnd(corrupt_value(y[k], c));
                    if t > 0 {
                        let k = (c.at % (n * t) as u64) as usize;
                        ym[k] = rnd(corrupt_value(ym[k], c));
                    }
                }
            }
            "idx" if !indices.is_empty() => {
                let k = (c.at % indices.len() as u64) as usize;
                indices[k] ^= 1 << (c.bit % 32);
            }
            "ptr" => {
                let k = (c.at % indptr.len() as u64) as usize;
                indptr[k] ^= 1 << (c.bit % 32);
            }
            // arrays whose lengths do not agree
            "ylen" if c.kind == "cut" && !y.is_empty() => {
                y.pop();
                ym.truncate(y.len() * t);
            }
            "ylen" => {
                y.push(1.0);
                ym.extend((0..t).map(|_| 1.0));
            }
            "xlen" if c.kind == "cut" => {
                data.pop();
            }
            "xlen" => data.push(1.0),
            "idxlen" => {
                indices.pop();
            }
            "ptrlen" if c.kind == "cut" && indptr.len() > 1 => {
                indptr.pop();
            }
            "ptrlen" => indptr.push(data.len() as i32),
            _ => {}
        }
    }
    Raw { n, p, t, x, data, indices, indptr, y, ym, is_csc: csc }
}
