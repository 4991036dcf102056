use crate::arr::Arr;

pub struct LDLTMgr {
    pub pos: (usize, usize),
    pub wit: Arr,
    ndim: usize,
    storage: Vec<f64>,
}

impl LDLTMgr {
    pub fn new(ndim: usize) -> Self {
        LDLTMgr {
            pos: (0, 0),
            wit: Arr::new(ndim),
            ndim,
            storage: vec![0.0; ndim * ndim],
        }
    }

    pub fn factorize(&mut self, mat: &Arr) -> bool {
        self.factor(|i, j| mat.at(i, j))
    }

    pub fn factor(&mut self, get_elem: impl Fn(usize, usize) -> f64) -> bool {
        let start = 0;
        self.pos = (0, 0);
        for i in 0..self.ndim {
            let mut diag = get_elem(i, start);
            for j in start..i {
                let idx_ji = j * self.ndim + i;
                let idx_ij = i * self.ndim + j;
                self.storage[idx_ji] = diag; // keep for later
                let val = diag / self.storage[j * self.ndim + j];
                self.storage[idx_ij] = val; // L[i, j]
                let stop = j + 1;
                let mut s = 0.0;
                for k in start..stop {
                    s += self.storage[i * self.ndim + k] * self.storage[k * self.ndim + stop];
                }
                diag = get_elem(i, stop) - s;
            }
            self.storage[i * self.ndim + i] = diag;
            if diag <= 0.0 || diag.is_nan() {
                self.pos = (start, i + 1);
                break;
            }
        }
        self.is_spd()
    }

    pub fn factor_with_allow_semidefinite(
        &mut self,
        get_elem: impl Fn(usize, usize) -> f64,
    ) -> bool {
        let mut start = 0;
        self.pos = (0, 0);
        for i in 0..self.ndim {
            let mut diag = get_elem(i, start);
            for j in start..i {
                let idx_ji = j * self.ndim + i;
                let idx_ij = i * self.ndim + j;
                self.storage[idx_ji] = diag;
                let val = diag / self.storage[j * self.ndim + j];
                self.storage[idx_ij] = val;
                let stop = j + 1;
                let mut s = 0.0;
                for k in start..stop {
                    s += self.storage[i * self.ndim + k] * self.storage[k * self.ndim + stop];
                }
                diag = get_elem(i, stop) - s;
            }
            self.storage[i * self.ndim + i] = diag;
            if diag < 0.0 || diag.is_nan() {
                self.pos = (start, i + 1);
                break;
            } else if diag == 0.0 {
                start = i + 1;
            }
        }
        self.is_spd()
    }

    pub fn is_spd(&self) -> bool {
        self.pos.1 == 0
    }

    pub fn witness(&mut self) -> f64 {
        assert!(!self.is_spd(), "witness called on SPD matrix");
        let (start, pos) = self.pos;
        let m = pos - 1;
        self.wit[m] = 1.0;
        for i in (start + 1..=m).rev() {
            let mut s = 0.0;
            for k in i..pos {
                s += self.storage[k * self.ndim + (i - 1)] * self.wit[k];
            }
            self.wit[i - 1] = -s;
        }
        -self.storage[m * self.ndim + m]
    }

    pub fn sym_quad(&self, mat: &Arr) -> f64 {
        let (start, end) = self.pos;
        let mut result = 0.0;
        for i in start..end {
            for j in start..end {
                result += self.wit[i] * mat.at(i, j) * self.wit[j];
            }
        }
        result
    }

    pub fn sqrt(&self) -> Arr {
        assert!(self.is_spd(), "sqrt called on non-SPD matrix");
        let mut r = Arr::zeros(self.ndim, self.ndim);
        for i in 0..self.ndim {
            let val = self.storage[i * self.ndim + i].sqrt();
            r.set(i, i, val);
            for j in (i + 1)..self.ndim {
                r.set(i, j, self.storage[j * self.ndim + i] * val);
            }
        }
        r
    }
}
