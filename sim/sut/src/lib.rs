//! The simulated program: executes a plan against the real library. This crate, the library
//! and ndarray are instrumented, so everything that runs outside of `Harness` is scheduled.
#![allow(static_mut_refs)]
use std::any::Any;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use ndarray::{Array1, Array2, ArrayView1, ArrayView2, Axis, ShapeBuilder};
use simrt::arena::{A, INPUT_MODE};
use simrt::mon::Mon;
use simrt::sched::{self, Sut};
use simrt::spec::*;

use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix};
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::traits::Fit as FitTrait;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, L21};
use sparseglm::penalties::separable::{L1PlusL2, L05, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};

mod comp;
mod simf;
use comp::*;
use simf::SimF;

pub trait El: sparseglm::Float + 'static {
    fn of(v: f64) -> Self;
    fn bits(self) -> u64;
}
impl El for f64 {
    fn of(v: f64) -> f64 {
        v
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
impl El for f32 {
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
impl El for SimF {
    fn of(v: f64) -> SimF {
        SimF(v)
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
}

fn setting(v: f64) -> f64 {
    if v == NAN_SETTING {
        f64::NAN
    } else {
        v
    }
}

// ---------------------------------------------------------------- datasets
type Own<E> = (DatasetBase<Array2<E>, SimT<Array1<E>>>, DatasetBase<Array2<E>, SimT<Array2<E>>>);
type Vw<E> = (
    DatasetBase<ArrayView2<'static, E>, SimT<ArrayView1<'static, E>>>,
    DatasetBase<ArrayView2<'static, E>, SimT<ArrayView2<'static, E>>>,
);
type Sp<E> = (
    DatasetBase<CSCArray<'static, E>, SimT<Array1<E>>>,
    DatasetBase<CSCArray<'static, E>, SimT<Array2<E>>>,
);
enum Kind<E: El> {
    Own(Own<E>),
    View(Vw<E>),
    Csc(Sp<E>),
}
/// A dataset and the buffers it borrows from. Field order: the dataset drops first.
struct Ds<E: El> {
    kind: Kind<E>,
    x: Vec<E>,
    y: Vec<E>,
    ym: Vec<E>,
    idx: Vec<i32>,
    ptr: Vec<i32>,
}
enum AnyDs {
    F64(Box<Ds<f64>>),
    F32(Box<Ds<f32>>),
    Sim(Box<Ds<SimF>>),
}
pub struct Slot {
    spec: DataSpec,
    any: AnyDs,
}

fn strides(s: &DataSpec) -> (usize, usize, usize) {
    // (row stride, column stride, buffer length)
    let (n, p) = (s.n.max(1), s.p.max(1));
    match s.storage.as_str() {
        "f" => (1, n, n * p),
        "strided" => (2 * (2 * p + 1), 2, n * 2 * (2 * p + 1)),
        _ => (p, 1, n * p),
    }
}
fn pos(s: &DataSpec, i: usize, j: usize) -> usize {
    let (sr, sc, _) = strides(s);
    let i = if s.storage == "rev" { s.n - 1 - i } else { i };
    i * sr + j * sc
}
unsafe fn stat<T>(v: &[T]) -> &'static [T] {
    std::slice::from_raw_parts(v.as_ptr(), v.len())
}
fn conv<E: El>(v: &[f64]) -> Vec<E> {
    v.iter().map(|&x| E::of(x)).collect()
}

impl<E: El> Ds<E> {
    fn dense_buffer(s: &DataSpec, raw: &Raw) -> Vec<E> {
        let (_, _, len) = strides(s);
        let mut b = vec![E::of(1e77); len];
        for j in 0..s.p {
            for i in 0..s.n {
                b[pos(s, i, j)] = E::of(raw.x[j * s.n + i]);
            }
        }
        b
    }
    /// Allocates in the input region.
    fn build(s: &DataSpec) -> Box<Ds<E>> {
        let raw = generate(s);
        unsafe {
            INPUT_MODE = 1;
            let (n, p, t) = (s.n, s.p, s.t);
            let y = conv::<E>(&raw.y);
            let ym = conv::<E>(&raw.ym);
            let (mut x, mut idx, mut ptr) = (vec![], vec![], vec![]);
            let a1 = |v: &Vec<E>| Array1::from_vec(v.clone());
            let a2 = |v: &Vec<E>| Array2::from_shape_vec((raw.y.len(), t), v.clone()).unwrap();
            let kind = match s.storage.as_str() {
                "csc" => {
                    x = conv::<E>(&raw.data);
                    idx = raw.indices.clone();
                    ptr = raw.indptr.clone();
                    let c = CSCArray::new(
                        ArrayView1::from(stat(&x)),
                        ArrayView1::from(stat(&idx)),
                        ArrayView1::from(stat(&ptr)),
                    );
                    Kind::Csc((
                        DatasetBase::from((c.clone(), SimT(a1(&y)))),
                        DatasetBase::from((c, SimT(a2(&ym)))),
                    ))
                }
                "c" | "f" => {
                    let b = Ds::<E>::dense_buffer(s, &raw);
                    let mk = |b: Vec<E>| {
                        if s.storage == "f" {
                            Array2::from_shape_vec((n, p).f(), b).unwrap()
                        } else {
                            Array2::from_shape_vec((n, p), b).unwrap()
                        }
                    };
                    Kind::Own((
                        DatasetBase::from((mk(b.clone()), SimT(a1(&y)))),
                        DatasetBase::from((mk(b), SimT(a2(&ym)))),
                    ))
                }
                _ => {
                    x = Ds::<E>::dense_buffer(s, &raw);
                    let (sr, sc, _) = strides(s);
                    let mut v = ArrayView2::from_shape((n, p).strides((sr, sc)), stat(&x)).unwrap();
                    if s.storage == "rev" {
                        v.invert_axis(Axis(0));
                    }
                    Kind::View((
                        DatasetBase::from((v, SimT(ArrayView1::from(stat(&y))))),
                        DatasetBase::from((v, SimT(ArrayView2::from_shape((raw.y.len(), t), stat(&ym)).unwrap()))),
                    ))
                }
            };
            let r = Box::new(Ds { kind, x, y, ym, idx, ptr });
            INPUT_MODE = 0;
            r
        }
    }
    /// Visits every stored input scalar with the value it must have.
    fn each(&mut self, s: &DataSpec, mut f: impl FnMut(*mut E, f64), mut fi: impl FnMut(*mut i32, i32)) {
        let raw = generate(s);
        let mut dense = |p: *mut E| unsafe {
            for j in 0..s.p {
                for i in 0..s.n {
                    f(p.add(pos(s, i, j)), raw.x[j * s.n + i]);
                }
            }
        };
        match &mut self.kind {
            Kind::Own(o) => {
                dense(o.0.design_matrix.as_ptr() as *mut E);
                dense(o.1.design_matrix.as_ptr() as *mut E);
            }
            Kind::View(_) => dense(self.x.as_ptr() as *mut E),
            Kind::Csc(_) => {
                for (k, v) in raw.data.iter().enumerate() {
                    unsafe { f((self.x.as_ptr() as *mut E).add(k), *v) }
                }
                for (k, v) in raw.indices.iter().enumerate() {
                    unsafe { fi((self.idx.as_ptr() as *mut i32).add(k), *v) }
                }
                for (k, v) in raw.indptr.iter().enumerate() {
                    unsafe { fi((self.ptr.as_ptr() as *mut i32).add(k), *v) }
                }
            }
        }
        let (py, pm): (*mut E, *mut E) = match &self.kind {
            Kind::Own(o) => (o.0.targets.0.as_ptr() as *mut E, o.1.targets.0.as_ptr() as *mut E),
            Kind::View(_) => (self.y.as_ptr() as *mut E, self.ym.as_ptr() as *mut E),
            Kind::Csc(o) => (o.0.targets.0.as_ptr() as *mut E, o.1.targets.0.as_ptr() as *mut E),
        };
        for (k, v) in raw.y.iter().enumerate() {
            unsafe { f(py.add(k), *v) }
        }
        for (k, v) in raw.ym.iter().enumerate() {
            unsafe { f(pm.add(k), *v) }
        }
    }
    fn overwrite(&mut self, s: &DataSpec) {
        self.each(s, |p, v| unsafe { *p = E::of(v) }, |p, v| unsafe { *p = v });
    }
    fn intact(&mut self, s: &DataSpec) -> bool {
        let ok = std::cell::Cell::new(true);
        self.each(
            s,
            |p, v| unsafe {
                if (*p).bits() != E::of(v).bits() {
                    ok.set(false)
                }
            },
            |p, v| unsafe {
                if *p != v {
                    ok.set(false)
                }
            },
        );
        ok.get()
    }
}

impl Slot {
    fn build(s: &DataSpec) -> Slot {
        let any = match s.dtype.as_str() {
            "f32" => AnyDs::F32(Ds::build(s)),
            "sim" => AnyDs::Sim(Ds::build(s)),
            _ => AnyDs::F64(Ds::build(s)),
        };
        Slot { spec: s.clone(), any }
    }
    fn overwrite(&mut self, s: &DataSpec) {
        match &mut self.any {
            AnyDs::F64(d) => d.overwrite(s),
            AnyDs::F32(d) => d.overwrite(s),
            AnyDs::Sim(d) => d.overwrite(s),
        }
        self.spec = s.clone();
    }
    fn intact(&mut self) -> bool {
        let s = self.spec.clone();
        match &mut self.any {
            AnyDs::F64(d) => d.intact(&s),
            AnyDs::F32(d) => d.intact(&s),
            AnyDs::Sim(d) => d.intact(&s),
        }
    }
}

// ---------------------------------------------------------------- objects and parameters
enum Coefs<E> {
    V(Array1<E>),
    M(Array2<E>),
}

macro_rules! common {
    ($p:expr, $f:expr, $e:ty) => {
        $p.alpha(<$e as El>::of(setting($f.alpha)))
            .max_iterations($f.iters)
            .max_epochs($f.epochs)
            .ws_start_size($f.ws)
            .tolerance(<$e as El>::of(setting($f.tol)))
            .K($f.k)
            .use_acceleration($f.accel)
            .verbose($f.verbose)
    };
}
fn lasso<E: El>(f: &Fit) -> LassoParams<E> {
    common!(Lasso::<E>::params(), f, E)
}
fn enet<E: El>(f: &Fit) -> ElasticNetParams<E> {
    common!(ElasticNet::<E>::params(), f, E).l1_ratio(E::of(setting(f.l1_ratio)))
}
fn mcp<E: El>(f: &Fit) -> MCParams<E> {
    common!(MCPEstimator::<E>::params(), f, E).gamma(E::of(setting(f.gamma)))
}
fn mtlasso<E: El>(f: &Fit) -> MultiTaskLassoParams<E> {
    common!(MultiTaskLasso::<E>::params(), f, E)
}
fn mtenet<E: El>(f: &Fit) -> MultiTaskElasticNetParams<E> {
    common!(MultiTaskElasticNet::<E>::params(), f, E).l1_ratio(E::of(setting(f.l1_ratio)))
}
fn blockmcp<E: El>(f: &Fit) -> BlockMCParams<E> {
    common!(BlockMCPEstimator::<E>::params(), f, E).gamma(E::of(setting(f.gamma)))
}
fn solver<E: El>(f: &Fit) -> Solver<E> {
    Solver::<E>::new()
        .ws_start_size(f.ws)
        .max_iterations(f.iters)
        .max_epochs(f.epochs)
        .tolerance(E::of(setting(f.tol)))
        .K(f.k)
        .use_acceleration(f.accel)
        .verbose(f.verbose)
}
fn pen<E: El>(f: &Fit) -> PenK<E> {
    let a = E::of(setting(f.alpha));
    match f.algo {
        Algo::Lasso | Algo::LogL1 => PenK::L1(L1::new(a)),
        Algo::Enet | Algo::LogEnet => PenK::Enet(L1PlusL2::new(a, E::of(setting(f.l1_ratio)))),
        Algo::Mcp | Algo::LogMcp => PenK::Mcp(MCP::new(a, E::of(setting(f.gamma)))),
        _ => PenK::L05(L05::new(a)),
    }
}
fn mpen<E: El>(f: &Fit) -> MPenK<E> {
    let a = E::of(setting(f.alpha));
    match f.algo {
        Algo::MtLasso => MPenK::L21(L21::new(a)),
        Algo::MtEnet => MPenK::Enet(BlockL1PlusL2::new(a, E::of(setting(f.l1_ratio)))),
        _ => MPenK::Mcp(BlockMCP::new(a, E::of(setting(f.gamma)))),
    }
}

/// Objects shared by every operation with the same settings, built before the tasks start.
enum Obj<E: El> {
    Lasso(LassoParams<E>),
    Enet(ElasticNetParams<E>),
    Mcp(MCParams<E>),
    MtLasso(MultiTaskLassoParams<E>),
    MtEnet(MultiTaskElasticNetParams<E>),
    BlockMcp(BlockMCParams<E>),
    Single(Solver<E>, PenK<E>),
    Multi(Solver<E>, MPenK<E>),
}
fn obj<E: El>(f: &Fit) -> Obj<E> {
    if f.api == Api::Est {
        match f.algo {
            Algo::Lasso => Obj::Lasso(lasso(f)),
            Algo::Enet => Obj::Enet(enet(f)),
            Algo::Mcp => Obj::Mcp(mcp(f)),
            Algo::MtLasso => Obj::MtLasso(mtlasso(f)),
            Algo::MtEnet => Obj::MtEnet(mtenet(f)),
            _ => Obj::BlockMcp(blockmcp(f)),
        }
    } else if f.algo.multi() {
        Obj::Multi(solver(f), mpen(f))
    } else {
        Obj::Single(solver(f), pen(f))
    }
}
fn key(f: &Fit, dtype: &str) -> String {
    format!(
        "{} {:?} {} {:x} {:x} {:x} {} {} {} {:x} {} {} {}",
        dtype,
        f.algo,
        f.api == Api::Est,
        f.alpha.to_bits(),
        f.gamma.to_bits(),
        f.l1_ratio.to_bits(),
        f.ws,
        f.iters,
        f.epochs,
        f.tol.to_bits(),
        f.k,
        f.accel,
        f.verbose
    )
}

struct Prog {
    pool: Vec<Slot>,
    shared: BTreeMap<String, Box<dyn Any>>,
    /// take what a fit leaves in std's output buffers as written by it
    drain: bool,
}
static mut PROG: *mut Prog = std::ptr::null_mut();
static mut RES: *mut Vec<OpRes> = std::ptr::null_mut();
fn prog() -> &'static mut Prog {
    unsafe { &mut *PROG }
}

// ---------------------------------------------------------------- executing fits
type Slots = BTreeMap<u32, Box<dyn Any>>;

/// The datafit of a slot (or a temporary one).
fn datafit<'a, D: Any>(slots: &'a mut Slots, tmp: &'a mut Option<Box<dyn Any>>, f: &Fit, mk: fn() -> D) -> &'a mut D {
    let b: &'a mut Box<dyn Any> = match f.slot {
        Some(k) => {
            let stale = match slots.get(&k) {
                Some(b) => !b.is::<D>(),
                None => true,
            };
            if stale {
                slots.insert(k, make(mk));
            }
            slots.get_mut(&k).unwrap()
        }
        None => {
            *tmp = Some(make(mk));
            tmp.as_mut().unwrap()
        }
    };
    b.downcast_mut::<D>().unwrap()
}
fn make<D: Any>(mk: fn() -> D) -> Box<dyn Any> {
    let d = {
        let _s = Sut::enter();
        mk()
    };
    Box::new(d)
}

fn err<E>(r: Result<E, EstimatorError>) -> Result<E, String> {
    r.map_err(|e| format!("{}", e))
}

fn single<E: El, DM, T>(ds: &DatasetBase<DM, SimT<T>>, f: &Fit, o: &Obj<E>, df: Option<&mut dyn Any>) -> Result<Coefs<E>, String>
where
    DM: DesignMatrix<Elem = E>,
    T: AsSingleTargets<Elem = E>,
    Quadratic<E>: Datafit<E, DM, SimT<T>>,
    Logistic<E>: Datafit<E, DM, SimT<T>>,
    LassoParams<E>: FitTrait<DM, SimT<T>, EstimatorError, Object = Lasso<E>>,
    ElasticNetParams<E>: FitTrait<DM, SimT<T>, EstimatorError, Object = ElasticNet<E>>,
    MCParams<E>: FitTrait<DM, SimT<T>, EstimatorError, Object = MCPEstimator<E>>,
{
    let _s = Sut::enter();
    Ok(Coefs::V(match o {
        Obj::Lasso(p) => err(p.fit(ds))?.coefficients().to_owned(),
        Obj::Enet(p) => err(p.fit(ds))?.coefficients().to_owned(),
        Obj::Mcp(p) => err(p.fit(ds))?.coefficients().to_owned(),
        Obj::Single(s, pen) => {
            let d = df.unwrap();
            if f.algo.logistic() {
                let d = d.downcast_mut::<Logistic<E>>().unwrap();
                match pen {
                    PenK::L1(q) => s.solve(ds, d, q),
                    PenK::Enet(q) => s.solve(ds, d, q),
                    PenK::Mcp(q) => s.solve(ds, d, q),
                    PenK::L05(_) => unreachable!(),
                }
            } else {
                let d = d.downcast_mut::<Quadratic<E>>().unwrap();
                match pen {
                    PenK::L1(q) => s.solve(ds, d, q),
                    PenK::Enet(q) => s.solve(ds, d, q),
                    PenK::Mcp(q) => s.solve(ds, d, q),
                    PenK::L05(q) => s.solve(ds, d, q),
                }
            }
            .map_err(|e| format!("{:?}", e))?
        }
        _ => unreachable!(),
    }))
}

fn multi<E: El, DM, T>(ds: &DatasetBase<DM, SimT<T>>, o: &Obj<E>, df: Option<&mut dyn Any>) -> Result<Coefs<E>, String>
where
    DM: DesignMatrix<Elem = E>,
    T: AsMultiTargets<Elem = E>,
    QuadraticMultiTask<E>: MultiTaskDatafit<E, DM, SimT<T>>,
    MultiTaskLassoParams<E>: FitTrait<DM, SimT<T>, EstimatorError, Object = MultiTaskLasso<E>>,
    MultiTaskElasticNetParams<E>: FitTrait<DM, SimT<T>, EstimatorError, Object = MultiTaskElasticNet<E>>,
    BlockMCParams<E>: FitTrait<DM, SimT<T>, EstimatorError, Object = BlockMCPEstimator<E>>,
{
    let _s = Sut::enter();
    Ok(Coefs::M(match o {
        Obj::MtLasso(p) => err(p.fit(ds))?.coefficients().to_owned(),
        Obj::MtEnet(p) => err(p.fit(ds))?.coefficients().to_owned(),
        Obj::BlockMcp(p) => err(p.fit(ds))?.coefficients().to_owned(),
        Obj::Multi(s, pen) => {
            let d = df.unwrap().downcast_mut::<QuadraticMultiTask<E>>().unwrap();
            match pen {
                MPenK::L21(q) => s.solve_multi_task(ds, d, q),
                MPenK::Enet(q) => s.solve_multi_task(ds, d, q),
                MPenK::Mcp(q) => s.solve_multi_task(ds, d, q),
            }
            .map_err(|e| format!("{:?}", e))?
        }
        _ => unreachable!(),
    }))
}

fn fit_on<E: El>(d: &Ds<E>, f: &Fit, o: &Obj<E>, slots: &mut Slots, tmp: &mut Option<Box<dyn Any>>) -> Result<Coefs<E>, String> {
    let df: Option<&mut dyn Any> = if f.api == Api::Est {
        None
    } else if f.algo.multi() {
        Some(datafit::<QuadraticMultiTask<E>>(slots, tmp, f, QuadraticMultiTask::new))
    } else if f.algo.logistic() {
        Some(datafit::<Logistic<E>>(slots, tmp, f, Logistic::new))
    } else {
        Some(datafit::<Quadratic<E>>(slots, tmp, f, Quadratic::new))
    };
    if f.algo.multi() {
        match &d.kind {
            Kind::Own(k) => multi(&k.1, o, df),
            Kind::View(k) => multi(&k.1, o, df),
            Kind::Csc(k) => multi(&k.1, o, df),
        }
    } else {
        match &d.kind {
            Kind::Own(k) => single(&k.0, f, o, df),
            Kind::View(k) => single(&k.0, f, o, df),
            Kind::Csc(k) => single(&k.0, f, o, df),
        }
    }
}

fn wrapped(d: &Ds<f64>, f: &Fit, o: &Obj<f64>, slots: &mut Slots, tmp: &mut Option<Box<dyn Any>>, mon: *mut Mon) -> Result<Coefs<f64>, String> {
    let has_step_faults = f.faults.iter().any(|x| x.target == "step");
    fn ws<DM, T>(
        ds: DatasetBase<DM, SimT<T>>,
        t: T,
        s: &Solver<f64>,
        df: &mut SimDF<DfK>,
        p: &SimPen<PenK<f64>>,
        mon: *mut Mon,
    ) -> Result<Coefs<f64>, String>
    where
        DM: DesignMatrix<Elem = f64>,
        T: AsSingleTargets<Elem = f64>,
        Quadratic<f64>: Datafit<f64, DM, SimT<T>>,
        Logistic<f64>: Datafit<f64, DM, SimT<T>>,
    {
        let ds = DatasetBase::new(SimX { ds, mon }, SimT(t));
        let _s = Sut::enter();
        s.solve(&ds, df, p).map(Coefs::V).map_err(|e| format!("{:?}", e))
    }
    fn wm<DM, T>(
        ds: DatasetBase<DM, SimT<T>>,
        t: T,
        s: &Solver<f64>,
        df: &mut SimDF<QuadraticMultiTask<f64>>,
        p: &SimPen<MPenK<f64>>,
        mon: *mut Mon,
    ) -> Result<Coefs<f64>, String>
    where
        DM: DesignMatrix<Elem = f64>,
        T: AsMultiTargets<Elem = f64>,
        QuadraticMultiTask<f64>: MultiTaskDatafit<f64, DM, SimT<T>>,
    {
        let ds = DatasetBase::new(SimX { ds, mon }, SimT(t));
        let _s = Sut::enter();
        s.solve_multi_task(&ds, df, p).map(Coefs::M).map_err(|e| format!("{:?}", e))
    }
    match o {
        Obj::Single(s, p) => {
            let inner = if f.algo.logistic() {
                datafit::<DfK>(slots, tmp, f, || DfK::L(Logistic::new()))
            } else {
                datafit::<DfK>(slots, tmp, f, || DfK::Q(Quadratic::new()))
            };
            if matches!(inner, DfK::L(_)) != f.algo.logistic() {
                *inner = if f.algo.logistic() { DfK::L(Logistic::new()) } else { DfK::Q(Quadratic::new()) };
            }
            let mut df = SimDF { inner, mon, steps: None, has_step_faults };
            let p = SimPen { inner: p, mon };
            match &d.kind {
                Kind::Own(k) => {
                    let (x, y) = (k.0.design_matrix.view(), k.0.targets.0.view());
                    ws(DatasetBase::from((x, SimT(y))), y, s, &mut df, &p, mon)
                }
                Kind::View(k) => {
                    let (x, y) = (k.0.design_matrix, k.0.targets.0);
                    ws(DatasetBase::from((x, SimT(y))), y, s, &mut df, &p, mon)
                }
                Kind::Csc(k) => {
                    let (x, y) = (k.0.design_matrix.clone(), k.0.targets.0.view());
                    ws(DatasetBase::from((x, SimT(y))), y, s, &mut df, &p, mon)
                }
            }
        }
        Obj::Multi(s, p) => {
            let inner = datafit::<QuadraticMultiTask<f64>>(slots, tmp, f, QuadraticMultiTask::new);
            let mut df = SimDF { inner, mon, steps: None, has_step_faults };
            let p = SimPen { inner: p, mon };
            match &d.kind {
                Kind::Own(k) => {
                    let (x, y) = (k.1.design_matrix.view(), k.1.targets.0.view());
                    wm(DatasetBase::from((x, SimT(y))), y, s, &mut df, &p, mon)
                }
                Kind::View(k) => {
                    let (x, y) = (k.1.design_matrix, k.1.targets.0);
                    wm(DatasetBase::from((x, SimT(y))), y, s, &mut df, &p, mon)
                }
                Kind::Csc(k) => {
                    let (x, y) = (k.1.design_matrix.clone(), k.1.targets.0.view());
                    wm(DatasetBase::from((x, SimT(y))), y, s, &mut df, &p, mon)
                }
            }
        }
        _ => unreachable!(),
    }
}

struct Out {
    kind: &'static str,
    msg: String,
    rows: usize,
    cols: usize,
    bits: Vec<u64>,
}

fn finish<E: El>(r: std::thread::Result<Result<Coefs<E>, String>>) -> Out {
    let mut o = Out { kind: "ok", msg: String::new(), rows: 0, cols: 0, bits: vec![] };
    match r {
        Ok(Ok(Coefs::V(w))) => {
            o.rows = w.len();
            o.cols = 1;
            o.bits = w.iter().map(|v| v.bits()).collect();
        }
        Ok(Ok(Coefs::M(w))) => {
            o.rows = w.nrows();
            o.cols = w.ncols();
            o.bits = w.iter().map(|v| v.bits()).collect();
        }
        Ok(Err(e)) => {
            o.kind = "err";
            o.msg = e.clone(); // the original is simulated memory
        }
        Err(p) => {
            if p.is::<sched::SimCrash>() {
                o.kind = "crash";
            } else {
                o.kind = "panic";
                o.msg = sched::take_panic();
            }
        }
    }
    o
}

fn run_el<E: El>(d: &Ds<E>, dtype: &str, f: &Fit, slots: &mut Slots, mon: Option<*mut Mon>) -> Out {
    let mut tmp: Option<Box<dyn Any>> = None;
    let k = key(f, dtype);
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<Coefs<E>, String> {
        let local;
        let o: &Obj<E> = match prog().shared.get(&k) {
            Some(b) if f.share => b.downcast_ref::<Obj<E>>().unwrap(),
            _ => {
                local = {
                    let _s = Sut::enter();
                    obj::<E>(f)
                };
                &local
            }
        };
        if let Some(m) = mon {
            // only f64
            let d = (d as &dyn Any).downcast_ref::<Ds<f64>>().unwrap();
            let o = (o as &dyn Any).downcast_ref::<Obj<f64>>().unwrap();
            let c = wrapped(d, f, o, slots, &mut tmp, m)?;
            let b: Box<dyn Any> = Box::new(c);
            return Ok(*b.downcast::<Coefs<E>>().unwrap());
        }
        fit_on(d, f, o, slots, &mut tmp)
    }));
    finish(r)
}

fn do_fit(f: &Fit, op: u32, slots: &mut Slots) -> OpRes {
    let ds = &mut prog().pool[f.ds];
    let mut mon: Option<Box<Mon>> = if f.api == Api::Wrapped {
        Some(Box::new(Mon::new(f, generate(&ds.spec))))
    } else {
        None
    };
    let mp = mon.as_mut().map(|m| &mut **m as *mut Mon);
    let drain = prog().drain;
    if drain {
        sched::drain_output();
    }
    sched::op_begin(op);
    let out = match &ds.any {
        AnyDs::F64(d) => run_el(d, "f64", f, slots, mp),
        AnyDs::F32(d) => run_el(d, "f32", f, slots, None),
        AnyDs::Sim(d) => run_el(d, "sim", f, slots, None),
    };
    let mut counts = sched::op_end();
    if drain && sched::drain_output() > 0 {
        counts.writes += 1;
    }
    if !prog().pool[f.ds].intact() {
        sched::violation("input-changed", format!("the contents of dataset {} changed", f.ds));
    }
    let mut r = OpRes {
        task: sched::cur_id(),
        op,
        kind: out.kind.into(),
        msg: out.msg,
        rows: out.rows,
        cols: out.cols,
        bits: out.bits,
        counts,
        ..Default::default()
    };
    if let Some(mut m) = mon {
        if r.kind == "ok" {
            let w: Vec<f64> = r.bits.iter().map(|&b| f64::from_bits(b)).collect();
            m.end(&w);
        }
        r.mon = m.out;
        for (c, msg) in &r.mon.violations {
            sched::violation(c, msg.clone());
        }
        sched::world().stats.component_faults += r.mon.fault_hits;
    }
    r
}

static mut NESTS: *mut Vec<Nest> = std::ptr::null_mut();
/// Runs the fit that a component starts.
fn nested(id: u32) {
    unsafe {
        if let Some(n) = (*NESTS).iter().find(|n| n.id == id) {
            let mut slots: Slots = BTreeMap::new();
            let r = do_fit(&n.fit, id, &mut slots);
            drop(slots);
            (*RES).push(r);
        }
    }
}

fn do_op(o: &Op, i: u32, round: u64, slots: &mut Slots) -> OpRes {
    match o {
        Op::Fit(f) => {
            if round > 0 {
                let mut g = f.clone();
                g.alpha *= 1.0 + 0.001 * round as f64;
                g.share = false;
                return do_fit(&g, i, slots);
            }
            do_fit(f, i, slots)
        }
        Op::Mutate { ds, data } => {
            let mut d = data.clone();
            d.seed += round;
            prog().pool[*ds].overwrite(&d);
            OpRes { task: sched::cur_id(), op: i, kind: "none".into(), ..Default::default() }
        }
        Op::Rebuild { ds, data } => {
            let mut d = data.clone();
            d.seed += round;
            let p = prog();
            // free first, so that the new dataset can take the same addresses
            let old = std::mem::replace(&mut p.pool[*ds], Slot { spec: d.clone(), any: AnyDs::F64(Box::new(dummy())) });
            drop(old);
            p.pool[*ds] = Slot::build(&d);
            OpRes { task: sched::cur_id(), op: i, kind: "none".into(), ..Default::default() }
        }
        Op::Fork(f) => {
            let w = sched::world();
            let n0 = w.violations.len();
            let task = sched::cur_id();
            let a = sched::forked(&mut || {
                let r = do_fit(f, i, slots);
                let s = do_fit(f, i, slots);
                let w = sched::world();
                if (r.kind.as_str(), &r.msg, &r.bits) != (s.kind.as_str(), &s.msg, &s.bits) {
                    w.violations.push(("fork-twice".into(), format!("task {} op {}: the same fit ended in {} {} and then in {} {}", task, i, r.kind, r.msg, s.kind, s.msg)));
                }
                let f = Forked { op: r, violations: w.violations[n0..].to_vec(), log: w.log, nlog: w.nlog, stats: w.stats.clone(), now: w.now, trace: w.trace.clone() };
                f.pack()
            });
            let r = match a.and_then(Forked::unpack) {
                Ok(f) => {
                    w.violations.extend(f.violations);
                    w.log = simrt::prng::mix(w.log ^ f.log);
                    w.nlog = f.nlog;
                    w.stats = f.stats;
                    w.now = f.now;
                    w.trace = f.trace;
                    f.op
                }
                Err(e) => OpRes { task, op: i, kind: "died".into(), msg: e, ..Default::default() },
            };
            sched::pass();
            r
        }
        Op::DropSlot(k) => {
            slots.remove(k);
            OpRes { task: sched::cur_id(), op: i, kind: "none".into(), ..Default::default() }
        }
    }
}
fn dummy() -> Ds<f64> {
    Ds {
        kind: Kind::View((
            DatasetBase::from((ArrayView2::from_shape((0, 0), &[]).unwrap(), SimT(ArrayView1::from(&[])))),
            DatasetBase::from((ArrayView2::from_shape((0, 0), &[]).unwrap(), SimT(ArrayView2::from_shape((0, 0), &[]).unwrap()))),
        )),
        x: vec![],
        y: vec![],
        ym: vec![],
        idx: vec![],
        ptr: vec![],
    }
}

fn live() -> (u64, u64) {
    unsafe { (A.live_bytes, A.live_blocks) }
}

/// Runs a plan in this process. To be called once, in a fresh child process.
pub fn run_plan(plan: &Plan, record: bool) -> RunRes {
    sched::init(
        plan.env.clone(),
        plan.preempts.clone(),
        plan.crashes.clone(),
        plan.wfaults.clone(),
        plan.step_cap,
        record,
    );
    sched::install_hook();
    let mut shared: BTreeMap<String, Box<dyn Any>> = BTreeMap::new();
    let pool: Vec<Slot> = plan.pool.iter().map(Slot::build).collect();
    {
        {
            for f in plan.tasks.iter().flatten().filter_map(|o| o.fit()).chain(plan.nests.iter().map(|n| &n.fit)) {
                if f.share {
                    let dt = plan.pool[f.ds].dtype.as_str();
                    let k = key(f, dt);
                    if !shared.contains_key(&k) {
                        unsafe { INPUT_MODE = 2 }
                        let b: Box<dyn Any> = match dt {
                            "f32" => Box::new(obj::<f32>(f)),
                            "sim" => Box::new(obj::<SimF>(f)),
                            _ => Box::new(obj::<f64>(f)),
                        };
                        unsafe { INPUT_MODE = 0 }
                        shared.insert(k, b);
                    }
                }
            }
        }
    }
    unsafe {
        PROG = Box::into_raw(Box::new(Prog { pool, shared, drain: plan.prop == "C03" && plan.tasks.len() == 1 && plan.env.pad % 2 == 0 }));
        RES = Box::into_raw(Box::new(vec![]));
        NESTS = Box::into_raw(Box::new(plan.nests.clone()));
        let w = sched::world();
        w.nests = plan.nests.iter().map(|n| (n.task, n.op, n.n, n.id)).collect();
        w.nest_hook = Some(nested);
        A.protect = true;
    }
    let rounds = plan.rounds.max(1) as u64;
    let looped = plan.mode.contains("loop");
    let mut res = RunRes::default();
    let live_log: *mut Vec<(u64, u64)> = Box::into_raw(Box::new(vec![]));
    for round in 0..rounds {
        for (ti, prog_ops) in plan.tasks.iter().enumerate() {
            let ops = prog_ops.clone();
            let single = plan.tasks.len() == 1;
            let id = sched::spawn(Box::new(move || {
                let n = if looped { rounds } else { 1 };
                let mut slots: Slots = BTreeMap::new();
                for r in 0..n {
                    let rd = if looped { r } else { round };
                    for (i, o) in ops.iter().enumerate() {
                        let mut x = do_op(o, i as u32, rd, &mut slots);
                        let (a, b) = live();
                        x.live = a;
                        x.live_blocks = b;
                        if rd == 0 || rd + 1 == rounds {
                            unsafe { (*RES).push(x) }
                        }
                    }
                    if looped && single {
                        slots.clear();
                        unsafe { (*live_log).push(live()) }
                    }
                }
                drop(slots);
            }));
            debug_assert!(id == ti);
        }
        sched::run(plan.first);
        if sched::world().abort.is_some() || looped {
            break;
        }
        if rounds > 1 {
            unsafe { (*live_log).push(live()) }
            if !sched::reset_tasks() {
                break;
            }
        }
    }
    let w = sched::world();
    if w.abort.is_none() {
        for (i, s) in prog().pool.iter_mut().enumerate() {
            if !s.intact() {
                w.violations.push(("input-changed".into(), format!("the contents of dataset {} changed", i)));
            }
        }
    }
    res.ops = unsafe { std::mem::take(&mut *RES) };
    res.ops.sort_by_key(|o| (o.task, o.op));
    res.violations = w.violations.clone();
    res.stats = w.stats.clone();
    res.stats.sim_ns = w.now.saturating_sub(plan.env.clock0) + w.stats.mem_steps.saturating_mul(plan.env.tick.min(1000));
    res.log = w.log;
    res.nlog = w.nlog;
    res.sched_hash = w.sched_hash;
    res.abort = w.abort.clone();
    res.trace = w.trace.clone();
    if plan.prop == "C13" {
        res.out = String::from_utf8_lossy(&w.out).into_owned();
    }
    res.out_len = w.out.len() as u64;
    res.out_hash = simrt::prng::hash_str(&String::from_utf8_lossy(&w.out));
    res.rounds_live = unsafe { (*live_log).clone() };
    res.final_live = live();
    res
}
