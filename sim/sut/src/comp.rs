//! Caller-supplied components: wrappers around the library's own targets, design matrices,
//! datafits and penalties, where the simulator observes, corrupts or abandons a fit.
use crate::El;
use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
use simrt::mon::{Mon, T_DFV, T_GRAD, T_KKT, T_PENV, T_PROX, T_STEP};
use simrt::sched::{seam, Harness};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::{
    AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix, DesignMatrixType, Error,
};
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};

// ---------------------------------------------------------------- targets
pub struct SimT<T>(pub T);

impl<T: AsMultiTargets> AsMultiTargets for SimT<T> {
    type Elem = T::Elem;
    fn n_samples(&self) -> usize {
        seam(1);
        self.0.n_samples()
    }
    fn n_tasks(&self) -> usize {
        seam(2);
        self.0.n_tasks()
    }
    fn as_multi_tasks(&self) -> ArrayView2<'_, Self::Elem> {
        seam(3);
        self.0.as_multi_tasks()
    }
}
impl<T: AsSingleTargets> AsSingleTargets for SimT<T> {
    fn try_single_target(&self) -> Result<ArrayView1<'_, Self::Elem>, Error> {
        seam(4);
        self.0.try_single_target()
    }
}

// ---------------------------------------------------------------- design matrix
pub struct SimX<DM: DesignMatrix, T: AsMultiTargets> {
    pub ds: DatasetBase<DM, SimT<T>>,
    pub mon: *mut Mon,
}
impl<DM: DesignMatrix, T: AsMultiTargets> SimX<DM, T> {
    #[allow(clippy::mut_from_ref)]
    fn mon(&self) -> &mut Mon {
        unsafe { &mut *self.mon }
    }
}

impl<DM: DesignMatrix<Elem = f64>, T: AsMultiTargets<Elem = f64>> DesignMatrix for SimX<DM, T> {
    type Elem = f64;
    fn n_features(&self) -> usize {
        seam(5);
        self.ds.design_matrix.n_features()
    }
    fn matrix_type(&self) -> DesignMatrixType {
        self.ds.design_matrix.matrix_type()
    }
    fn compute_extrapolated_fit(&self, ws: ArrayView1<usize>, w_acc: &Array1<f64>, n: usize) -> Array1<f64> {
        seam(6);
        {
            let _h = Harness::new();
            self.mon().extrap(&ws.to_vec(), &w_acc.to_vec());
        }
        self.ds.design_matrix.compute_extrapolated_fit(ws, w_acc, n)
    }
    fn compute_extrapolated_fit_multi_task(&self, ws: ArrayView1<usize>, w_acc: &Array2<f64>, n: usize, t: usize) -> Array2<f64> {
        seam(6);
        {
            let _h = Harness::new();
            let v: Vec<f64> = w_acc.iter().cloned().collect();
            self.mon().extrap(&ws.to_vec(), &v);
        }
        self.ds.design_matrix.compute_extrapolated_fit_multi_task(ws, w_acc, n, t)
    }
    fn update_model_fit(&self, xw: &mut Array1<f64>, diff: f64, j: usize) {
        seam(7);
        {
            let _h = Harness::new();
            self.mon().update(xw.len(), j);
        }
        self.ds.design_matrix.update_model_fit(xw, diff, j)
    }
    fn update_model_fit_multi_task(&self, xw: &mut Array2<f64>, diff: ArrayView1<f64>, j: usize) {
        seam(7);
        {
            let _h = Harness::new();
            self.mon().update(xw.len(), j);
        }
        self.ds.design_matrix.update_model_fit_multi_task(xw, diff, j)
    }
}

// ---------------------------------------------------------------- datafits
pub enum DfK {
    Q(Quadratic<f64>),
    L(Logistic<f64>),
}

pub struct SimDF<'s, D> {
    pub inner: &'s mut D,
    pub mon: *mut Mon,
    pub steps: Option<Array1<f64>>,
    pub has_step_faults: bool,
}
impl<'s, D> SimDF<'s, D> {
    #[allow(clippy::mut_from_ref)]
    fn mon(&self) -> &mut Mon {
        unsafe { &mut *self.mon }
    }
}

macro_rules! each {
    ($s:expr, $d:ident => $e:expr) => {
        match &$s {
            DfK::Q($d) => $e,
            DfK::L($d) => $e,
        }
    };
}

impl<'s, DM, T> Datafit<f64, SimX<DM, T>, SimT<T>> for SimDF<'s, DfK>
where
    DM: DesignMatrix<Elem = f64>,
    T: AsSingleTargets<Elem = f64>,
    Quadratic<f64>: Datafit<f64, DM, SimT<T>>,
    Logistic<f64>: Datafit<f64, DM, SimT<T>>,
{
    fn initialize(&mut self, dataset: &DatasetBase<SimX<DM, T>, SimT<T>>) {
        seam(8);
        let ds = &dataset.design_matrix.ds;
        match self.inner {
            DfK::Q(d) => d.initialize(ds),
            DfK::L(d) => d.initialize(ds),
        }
        {
            let _h = Harness::new();
            self.mon().init();
            if self.has_step_faults {
                let mut v: Vec<f64> = match self.inner {
                    DfK::Q(d) => <Quadratic<f64> as Datafit<f64, DM, SimT<T>>>::step_size(d).to_vec(),
                    DfK::L(d) => <Logistic<f64> as Datafit<f64, DM, SimT<T>>>::step_size(d).to_vec(),
                };
                self.mon().fault(T_STEP, &mut v);
                self.steps = Some(Array1::from_vec(v));
            }
        }
        seam(9);
    }
    fn value(&self, dataset: &DatasetBase<SimX<DM, T>, SimT<T>>, xw: ArrayView1<f64>) -> f64 {
        seam(10);
        let v = each!(*self.inner, d => d.value(&dataset.design_matrix.ds, xw));
        let _h = Harness::new();
        self.mon().dfvalue(&xw.to_vec());
        let mut b = [v];
        self.mon().fault(T_DFV, &mut b);
        b[0]
    }
    fn gradient_j(&self, dataset: &DatasetBase<SimX<DM, T>, SimT<T>>, xw: ArrayView1<f64>, j: usize) -> f64 {
        seam(11);
        let v = each!(*self.inner, d => d.gradient_j(&dataset.design_matrix.ds, xw, j));
        let _h = Harness::new();
        let mut b = [v];
        self.mon().fault(T_GRAD, &mut b);
        self.mon().grad(&xw.to_vec(), j, &b);
        b[0]
    }
    fn full_grad(&self, dataset: &DatasetBase<SimX<DM, T>, SimT<T>>, xw: ArrayView1<f64>) -> Array1<f64> {
        seam(12);
        let mut v = each!(*self.inner, d => d.full_grad(&dataset.design_matrix.ds, xw));
        let _h = Harness::new();
        let x = xw.to_vec();
        for (j, g) in v.iter_mut().enumerate() {
            let mut b = [*g];
            self.mon().fault(T_GRAD, &mut b);
            self.mon().grad(&x, j, &b);
            *g = b[0];
        }
        v
    }
    fn step_size(&self) -> ArrayView1<'_, f64> {
        seam(13);
        if let Some(s) = &self.steps {
            return s.view();
        }
        match &*self.inner {
            DfK::Q(d) => <Quadratic<f64> as Datafit<f64, DM, SimT<T>>>::step_size(d),
            DfK::L(d) => <Logistic<f64> as Datafit<f64, DM, SimT<T>>>::step_size(d),
        }
    }
}

impl<'s, DM, T> MultiTaskDatafit<f64, SimX<DM, T>, SimT<T>> for SimDF<'s, QuadraticMultiTask<f64>>
where
    DM: DesignMatrix<Elem = f64>,
    T: AsMultiTargets<Elem = f64>,
    QuadraticMultiTask<f64>: MultiTaskDatafit<f64, DM, SimT<T>>,
{
    fn initialize(&mut self, dataset: &DatasetBase<SimX<DM, T>, SimT<T>>) {
        seam(8);
        self.inner.initialize(&dataset.design_matrix.ds);
        {
            let _h = Harness::new();
            self.mon().init();
            if self.has_step_faults {
                let mut v: Vec<f64> =
                    <QuadraticMultiTask<f64> as MultiTaskDatafit<f64, DM, SimT<T>>>::step_size(self.inner).to_vec();
                self.mon().fault(T_STEP, &mut v);
                self.steps = Some(Array1::from_vec(v));
            }
        }
        seam(9);
    }
    fn value(&self, dataset: &DatasetBase<SimX<DM, T>, SimT<T>>, xw: ArrayView2<f64>) -> f64 {
        seam(10);
        let v = self.inner.value(&dataset.design_matrix.ds, xw);
        let _h = Harness::new();
        let x: Vec<f64> = xw.iter().cloned().collect();
        self.mon().dfvalue(&x);
        let mut b = [v];
        self.mon().fault(T_DFV, &mut b);
        b[0]
    }
    fn gradient_j(&self, dataset: &DatasetBase<SimX<DM, T>, SimT<T>>, xw: ArrayView2<f64>, j: usize) -> Array1<f64> {
        seam(11);
        let mut v = self.inner.gradient_j(&dataset.design_matrix.ds, xw, j);
        let _h = Harness::new();
        let x: Vec<f64> = xw.iter().cloned().collect();
        let mut b = v.to_vec();
        self.mon().fault(T_GRAD, &mut b);
        self.mon().grad(&x, j, &b);
        for (a, c) in v.iter_mut().zip(&b) {
            *a = *c;
        }
        v
    }
    fn full_grad(&self, dataset: &DatasetBase<SimX<DM, T>, SimT<T>>, xw: ArrayView2<f64>) -> Array2<f64> {
        seam(12);
        let mut v = self.inner.full_grad(&dataset.design_matrix.ds, xw);
        let _h = Harness::new();
        let x: Vec<f64> = xw.iter().cloned().collect();
        for (j, mut row) in v.rows_mut().into_iter().enumerate() {
            let mut b = row.to_vec();
            self.mon().fault(T_GRAD, &mut b);
            self.mon().grad(&x, j, &b);
            for (a, c) in row.iter_mut().zip(&b) {
                *a = *c;
            }
        }
        v
    }
    fn step_size(&self) -> ArrayView1<'_, f64> {
        seam(13);
        if let Some(s) = &self.steps {
            return s.view();
        }
        <QuadraticMultiTask<f64> as MultiTaskDatafit<f64, DM, SimT<T>>>::step_size(self.inner)
    }
}

// ---------------------------------------------------------------- penalties
pub enum PenK<E: El> {
    L1(L1<E>),
    Enet(L1PlusL2<E>),
    Mcp(MCP<E>),
    L05(L05<E>),
}
pub enum MPenK<E: El> {
    L21(L21<E>),
    Enet(BlockL1PlusL2<E>),
    Mcp(BlockMCP<E>),
}
pub struct SimPen<'s, P> {
    pub inner: &'s P,
    pub mon: *mut Mon,
}
impl<'s, P> SimPen<'s, P> {
    #[allow(clippy::mut_from_ref)]
    fn mon(&self) -> &mut Mon {
        unsafe { &mut *self.mon }
    }
}
fn kkt_fault(m: &mut Mon, r: &mut (Array1<f64>, f64)) {
    let mut v = r.0.to_vec();
    let before = v.clone();
    m.fault(T_KKT, &mut v);
    if v.iter().zip(&before).any(|(a, b)| a.to_bits() != b.to_bits()) {
        let mut max = f64::NEG_INFINITY;
        for (a, c) in r.0.iter_mut().zip(&v) {
            *a = *c;
            if c.is_nan() || *c > max {
                max = *c;
            }
        }
        r.1 = max;
    }
}
macro_rules! pen {
    ($s:expr, $d:ident => $e:expr) => {
        match $s {
            PenK::L1($d) => $e,
            PenK::Enet($d) => $e,
            PenK::Mcp($d) => $e,
            PenK::L05($d) => $e,
        }
    };
}
macro_rules! mpen {
    ($s:expr, $d:ident => $e:expr) => {
        match $s {
            MPenK::L21($d) => $e,
            MPenK::Enet($d) => $e,
            MPenK::Mcp($d) => $e,
        }
    };
}
impl<'s> Penalty<f64> for SimPen<'s, PenK<f64>> {
    fn value(&self, w: ArrayView1<f64>) -> f64 {
        seam(14);
        let v = pen!(self.inner, d => d.value(w));
        let _h = Harness::new();
        self.mon().penvalue(&w.to_vec());
        let mut b = [v];
        self.mon().fault(T_PENV, &mut b);
        b[0]
    }
    fn prox(&self, value: f64, step: f64) -> f64 {
        seam(15);
        let v = pen!(self.inner, d => d.prox(value, step));
        let _h = Harness::new();
        self.mon().prox(1, step);
        let mut b = [v];
        self.mon().fault(T_PROX, &mut b);
        self.mon().prox_out(&b);
        b[0]
    }
    fn subdiff_distance(&self, w: ArrayView1<f64>, grad: ArrayView1<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        seam(16);
        {
            let _h = Harness::new();
            self.mon().kkt_ask(&w.to_vec(), &grad.to_vec(), &ws.to_vec());
        }
        let mut r = pen!(self.inner, d => d.subdiff_distance(w, grad, ws));
        let _h = Harness::new();
        kkt_fault(self.mon(), &mut r);
        self.mon().kkt_answer(&w.to_vec(), ws.len(), r.1);
        r
    }
}
impl<'s> MultiTaskPenalty<f64> for SimPen<'s, MPenK<f64>> {
    fn value(&self, w: ArrayView2<f64>) -> f64 {
        seam(14);
        let v = mpen!(self.inner, d => d.value(w));
        let _h = Harness::new();
        let x: Vec<f64> = w.iter().cloned().collect();
        self.mon().penvalue(&x);
        let mut b = [v];
        self.mon().fault(T_PENV, &mut b);
        b[0]
    }
    fn prox(&self, value: ArrayView1<f64>, step: f64) -> Array1<f64> {
        seam(15);
        let mut v = mpen!(self.inner, d => d.prox(value, step));
        let _h = Harness::new();
        self.mon().prox(value.len(), step);
        let mut b = v.to_vec();
        self.mon().fault(T_PROX, &mut b);
        self.mon().prox_out(&b);
        for (a, c) in v.iter_mut().zip(&b) {
            *a = *c;
        }
        v
    }
    fn subdiff_distance(&self, w: ArrayView2<f64>, grad: ArrayView2<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        seam(16);
        let wf: Vec<f64>;
        {
            let _h = Harness::new();
            wf = w.iter().cloned().collect();
            let g: Vec<f64> = grad.iter().cloned().collect();
            self.mon().kkt_ask(&wf, &g, &ws.to_vec());
        }
        let mut r = mpen!(self.inner, d => d.subdiff_distance(w, grad, ws));
        let _h = Harness::new();
        kkt_fault(self.mon(), &mut r);
        self.mon().kkt_answer(&wf, ws.len(), r.1);
        drop(wf);
        r
    }
}
