use crate::arr::Arr;
use crate::cutting_plane::{OracleOptim, SingleCut};

pub struct MaxcutOracle {
    weights: Arr,
    n: usize,
}

impl MaxcutOracle {
    pub fn new(weights: Arr) -> Self {
        let n = weights.rows();
        assert_eq!(n, weights.cols(), "weight matrix must be square");
        assert!(weights.is_2d(), "weights must be a 2D matrix");
        Self { weights, n }
    }
}

impl OracleOptim<Arr> for MaxcutOracle {
    type CutChoice = SingleCut;

    fn assess_optim(&mut self, xc: &Arr, gamma: &mut f64) -> ((Arr, SingleCut), bool) {
        let x = xc.map(|v| if v >= 0.0 { 1.0 } else { -1.0 });

        let mut cut_value = 0.0;
        for i in 0..self.n {
            for j in (i + 1)..self.n {
                if x[i] != x[j] {
                    cut_value += self.weights[(i, j)];
                }
            }
        }

        let mut grad = Arr::new(self.n);
        for i in 0..self.n {
            for j in 0..self.n {
                if x[i] != x[j] {
                    grad[i] += self.weights[(i, j)];
                }
            }
        }
        grad *= 2.0;

        if cut_value > *gamma {
            *gamma = cut_value;
            ((-grad, SingleCut(-cut_value)), true)
        } else {
            ((-grad, SingleCut(*gamma)), false)
        }
    }
}
