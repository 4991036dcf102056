use crate::arr::Arr;
use crate::cutting_plane::{CutStatus, ParallelCut, SearchSpace, SingleCut, UpdateByCutChoice};
use crate::ell_calc::EllCalc;

#[derive(Debug, Clone)]
pub struct Ell {
    pub no_defer_trick: bool,
    pub mq: Arr,
    pub xc: Arr,
    pub kappa: f64,
    helper: EllCalc,
    pub tsq: f64,
}

impl Ell {
    pub fn new_with_matrix(kappa: f64, mq: Arr, xc: Arr) -> Ell {
        let helper = EllCalc::new(xc.len());
        Ell {
            kappa,
            mq,
            xc,
            helper,
            no_defer_trick: false,
            tsq: 0.0,
        }
    }

    pub fn new(val: Arr, xc: Arr) -> Ell {
        Ell::new_with_matrix(1.0, Arr::from_diag(&val), xc)
    }

    pub fn new_with_scalar(val: f64, xc: Arr) -> Ell {
        Ell::new_with_matrix(val, Arr::eye(xc.len()), xc)
    }

    pub fn from_covariance(cov: Arr, xc: Arr) -> Ell {
        Ell::new_with_matrix(1.0, cov, xc)
    }

    fn update_core<T, F>(&mut self, grad: &Arr, beta: &T, cut_strategy: F) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = Arr>,
        F: FnOnce(&T, f64) -> (CutStatus, (f64, f64, f64)),
    {
        let grad_t = self.mq.dot_mv(grad);
        let omega = grad.dot(&grad_t);

        self.tsq = self.kappa * omega;
        let (status, (rho, sigma, delta)) = cut_strategy(beta, self.tsq);
        if status != CutStatus::Success {
            return status;
        }

        let n = self.xc.len();
        let rho_over_omega = rho / omega;
        for i in 0..n {
            self.xc[i] -= rho_over_omega * grad_t[i];
        }

        let ratio = sigma / omega;
        for i in 0..n {
            let r_qg = ratio * grad_t[i];
            for j in 0..=i {
                let update = r_qg * grad_t[j];
                let idx = i * n + j;
                self.mq.data_mut()[idx] -= update;
                if i != j {
                    self.mq.data_mut()[j * n + i] = self.mq.data()[idx];
                }
            }
        }

        self.kappa *= delta;

        if self.no_defer_trick {
            self.mq *= self.kappa;
            self.kappa = 1.0;
        }
        status
    }
}

impl SearchSpace for Ell {
    type ArrayType = Arr;

    #[inline]
    fn xc(&self) -> Self::ArrayType {
        self.xc.clone()
    }

    #[inline]
    fn tsq(&self) -> f64 {
        self.tsq
    }

    fn update_bias_cut<T>(&mut self, cut: &(Self::ArrayType, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = Self::ArrayType>,
    {
        let (grad, beta) = cut;
        beta.update_bias_cut_by(self, grad)
    }

    fn update_central_cut<T>(&mut self, cut: &(Self::ArrayType, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = Self::ArrayType>,
    {
        let (grad, beta) = cut;
        beta.update_central_cut_by(self, grad)
    }

    fn update_q<T>(&mut self, cut: &(Self::ArrayType, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = Self::ArrayType>,
    {
        let (grad, beta) = cut;
        beta.update_q_by(self, grad)
    }

    fn set_xc(&mut self, x: Self::ArrayType) {
        self.xc = x;
    }
}

trait CutType {
    fn call_bias_cut(&self, helper: &EllCalc, tsq: f64) -> (CutStatus, (f64, f64, f64));
    fn call_central_cut(&self, helper: &EllCalc, tsq: f64) -> (CutStatus, (f64, f64, f64));
    fn call_q_cut(&self, helper: &EllCalc, tsq: f64) -> (CutStatus, (f64, f64, f64));
}

impl CutType for SingleCut {
    fn call_bias_cut(&self, helper: &EllCalc, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        helper.calc_bias_cut(self.0, tsq)
    }
    fn call_central_cut(&self, helper: &EllCalc, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        helper.calc_central_cut(tsq)
    }
    fn call_q_cut(&self, helper: &EllCalc, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        helper.calc_bias_cut_q(self.0, tsq)
    }
}

impl CutType for ParallelCut {
    fn call_bias_cut(&self, helper: &EllCalc, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        helper.calc_single_or_parallel_bias_cut(self, tsq)
    }
    fn call_central_cut(&self, helper: &EllCalc, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        helper.calc_single_or_parallel_central_cut(self, tsq)
    }
    fn call_q_cut(&self, helper: &EllCalc, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        helper.calc_single_or_parallel_q(self, tsq)
    }
}

impl<T: CutType> UpdateByCutChoice<Ell> for T {
    type ArrayType = Arr;

    fn update_bias_cut_by(&self, ellip: &mut Ell, grad: &Self::ArrayType) -> CutStatus {
        let helper = ellip.helper.clone();
        ellip.update_core(grad, self, |beta, tsq| beta.call_bias_cut(&helper, tsq))
    }

    fn update_central_cut_by(&self, ellip: &mut Ell, grad: &Self::ArrayType) -> CutStatus {
        let helper = ellip.helper.clone();
        ellip.update_core(grad, self, |beta, tsq| beta.call_central_cut(&helper, tsq))
    }

    fn update_q_by(&self, ellip: &mut Ell, grad: &Self::ArrayType) -> CutStatus {
        let helper = ellip.helper.clone();
        ellip.update_core(grad, self, |beta, tsq| beta.call_q_cut(&helper, tsq))
    }
}
