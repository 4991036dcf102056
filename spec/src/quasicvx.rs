use super::cutting_plane::OracleOptim;
use crate::arr::Arr;
use crate::cutting_plane::SingleCut;

#[derive(Debug)]
pub struct MyOracle {
    idx: i32,
}

impl Default for MyOracle {
    fn default() -> Self {
        MyOracle { idx: -1 }
    }
}

impl OracleOptim<Arr> for MyOracle {
    type CutChoice = SingleCut;

    fn assess_optim(&mut self, xc: &Arr, gamma: &mut f64) -> ((Arr, SingleCut), bool) {
        let sqrtx = xc[0];
        let logy = xc[1];

        let num_constraints = 2;
        for _ in 0..num_constraints {
            self.idx += 1;
            if self.idx == num_constraints {
                self.idx = 0;
            }
            let func_val = match self.idx {
                0 => sqrtx * sqrtx - logy,
                1 => -sqrtx + *gamma * logy.exp(),
                _ => unreachable!(),
            };
            if func_val > 0.0 {
                return (
                    (
                        match self.idx {
                            0 => Arr::from(vec![2.0 * sqrtx, -1.0]),
                            1 => Arr::from(vec![-1.0, *gamma * logy.exp()]),
                            _ => unreachable!(),
                        },
                        SingleCut(func_val),
                    ),
                    false,
                );
            }
        }
        *gamma = sqrtx / logy.exp();
        ((Arr::from(vec![-1.0, sqrtx]), SingleCut(0.0)), true)
    }
}
