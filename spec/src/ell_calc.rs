//! Reference: cut parameters of the ellipsoid method, written from the formulas.
use crate::cutting_plane::{CutStatus, ParallelCut};

#[derive(Debug, Clone)]
pub struct EllCalcCore {
    pub n_f: f64,
    pub n_plus_1: f64,
    pub half_n: f64,
    pub inv_n: f64,
    cst1: f64,
    cst2: f64,
}

impl EllCalcCore {
    pub fn new(n_f: f64) -> EllCalcCore {
        EllCalcCore {
            n_f,
            n_plus_1: n_f + 1.0,
            half_n: n_f / 2.0,
            inv_n: 1.0 / n_f,
            cst1: n_f * n_f / (n_f * n_f - 1.0),
            cst2: 2.0 / (n_f + 1.0),
        }
    }

    /// published legacy formula
    pub fn calc_parallel_bias_cut_fast_old(&self, beta0: f64, beta1: f64, tsq: f64, b0b1: f64, eta: f64) -> (f64, f64, f64) {
        let n = self.n_f;
        let avg = (beta0 + beta1) / 2.0;
        let h = (tsq + b0b1) / 2.0 + n * avg * avg;
        let k = h + (h * h - eta * (n + 1.0) * avg * avg).sqrt();
        let sigma = eta / k;
        let rho = avg * sigma;
        let delta = (tsq + eta / (k - eta) * (avg * avg * sigma - b0b1)) / tsq;
        (rho, sigma, delta)
    }

    pub fn calc_parallel_bias_cut_fast(&self, b0: f64, b1: f64, tsq: f64, b0b1: f64, eta: f64) -> (f64, f64, f64) {
        let n = self.n_f;
        let t = n * (b1 * b1 - b0 * b0) / 2.0;
        let xi = ((tsq - b0 * b0) * (tsq - b1 * b1) + t * t).sqrt();
        let sigma = 2.0 * eta / (tsq + b0b1 + n * (b0 + b1) * (b0 + b1) / 2.0 + xi);
        let rho = sigma * (b0 + b1) / 2.0;
        let delta = n * n / (n * n - 1.0) * ((2.0 * tsq - b0 * b0 - b1 * b1) / 2.0 + xi / n) / tsq;
        (rho, sigma, delta)
    }

    pub fn calc_parallel_bias_cut(&self, b0: f64, b1: f64, tsq: f64) -> (f64, f64, f64) {
        self.calc_parallel_bias_cut_fast(b0, b1, tsq, b0 * b1, tsq + self.n_f * b0 * b1)
    }

    pub fn calc_parallel_central_cut(&self, b1: f64, tsq: f64) -> (f64, f64, f64) {
        let n = self.n_f;
        let a = b1 * b1 / tsq;
        let r = n * a / 2.0 + (1.0 - a + (n * a / 2.0) * (n * a / 2.0)).sqrt();
        (b1 / (r + 1.0), 2.0 / (r + 1.0), r / (r - 1.0 / n))
    }

    pub fn calc_bias_cut_fast(&self, beta: f64, tau: f64, eta: f64) -> (f64, f64, f64) {
        let n = self.n_f;
        let rho = eta / (n + 1.0);
        (rho, 2.0 * rho / (tau + beta), n * n / (n * n - 1.0) * (1.0 - beta / tau * (beta / tau)))
    }

    pub fn calc_bias_cut(&self, beta: f64, tau: f64) -> (f64, f64, f64) {
        let n = self.n_f;
        let rho = (tau + n * beta) / (n + 1.0);
        (rho, 2.0 * rho / (tau + beta), n * n / (n * n - 1.0) * (1.0 - beta / tau * (beta / tau)))
    }

    pub fn calc_central_cut(&self, tsq: f64) -> (f64, f64, f64) {
        let n = self.n_f;
        (tsq.sqrt() / (n + 1.0), 2.0 / (n + 1.0), n * n / (n * n - 1.0))
    }
}

#[derive(Debug, Clone)]
pub struct EllCalc {
    n_f: f64,
    pub helper: EllCalcCore,
    pub use_parallel_cut: bool,
}

const NO_SOLN: (CutStatus, (f64, f64, f64)) = (CutStatus::NoSoln, (0.0, 0.0, 0.0));
const NO_EFFECT: (CutStatus, (f64, f64, f64)) = (CutStatus::NoEffect, (0.0, 0.0, 1.0));

impl EllCalc {
    pub fn new(n: usize) -> EllCalc {
        EllCalc {
            n_f: n as f64,
            helper: EllCalcCore::new(n as f64),
            use_parallel_cut: true,
        }
    }

    pub fn calc_single_or_parallel_bias_cut(&self, beta: &ParallelCut, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        match beta.1 {
            Some(b1) => self.calc_parallel_bias_cut(beta.0, b1, tsq),
            None => self.calc_bias_cut(beta.0, tsq),
        }
    }

    pub fn calc_single_or_parallel_central_cut(&self, beta: &ParallelCut, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        match beta.1 {
            Some(b1) => self.calc_parallel_central_cut(b1, tsq),
            None => self.calc_central_cut(tsq),
        }
    }

    pub fn calc_single_or_parallel_q(&self, beta: &ParallelCut, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        match beta.1 {
            Some(b1) => self.calc_parallel_q(beta.0, b1, tsq),
            None => self.calc_bias_cut_q(beta.0, tsq),
        }
    }

    fn outside(&self, b1: f64, tsq: f64) -> bool {
        !self.use_parallel_cut || (b1 > 0.0 && b1 * b1 >= tsq)
    }

    pub fn calc_parallel_bias_cut(&self, b0: f64, b1: f64, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        if b1 < b0 {
            NO_SOLN
        } else if self.outside(b1, tsq) {
            self.calc_bias_cut(b0, tsq)
        } else {
            (CutStatus::Success, self.helper.calc_parallel_bias_cut(b0, b1, tsq))
        }
    }

    pub fn calc_parallel_q(&self, b0: f64, b1: f64, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        if b1 < b0 {
            NO_SOLN
        } else if self.outside(b1, tsq) {
            self.calc_bias_cut_q(b0, tsq)
        } else if tsq + self.n_f * b0 * b1 <= 0.0 {
            NO_EFFECT
        } else {
            (CutStatus::Success, self.helper.calc_parallel_bias_cut(b0, b1, tsq))
        }
    }

    pub fn calc_parallel_central_cut(&self, b1: f64, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        if b1 < 0.0 {
            NO_SOLN
        } else if !self.use_parallel_cut || b1 * b1 >= tsq {
            self.calc_central_cut(tsq)
        } else {
            (CutStatus::Success, self.helper.calc_parallel_central_cut(b1, tsq))
        }
    }

    pub fn calc_bias_cut(&self, beta: f64, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        if beta * beta > tsq {
            NO_SOLN
        } else {
            (CutStatus::Success, self.helper.calc_bias_cut(beta, tsq.sqrt()))
        }
    }

    pub fn calc_bias_cut_q(&self, beta: f64, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        let tau = tsq.sqrt();
        if beta > tau {
            NO_SOLN
        } else if tau + self.n_f * beta < 0.0 {
            NO_EFFECT
        } else {
            (CutStatus::Success, self.helper.calc_bias_cut(beta, tau))
        }
    }

    pub fn calc_central_cut(&self, tsq: f64) -> (CutStatus, (f64, f64, f64)) {
        (CutStatus::Success, self.helper.calc_central_cut(tsq))
    }
}
