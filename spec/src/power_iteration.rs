use crate::arr::Arr;

pub struct Options {
    pub max_iters: usize,
    pub tolerance: f64,
}

#[inline]
fn norm_l1(x: &Arr) -> f64 {
    x.iter().map(|x| x.abs()).sum()
}

pub fn power_iteration(a: &Arr, x: &mut Arr, options: &Options) -> (f64, usize) {
    *x /= x.dot(x).sqrt();
    for niter in 0..options.max_iters {
        let x1 = x.clone();
        *x = a.dot_mv(&x1);
        *x /= x.dot(x).sqrt();
        if norm_l1(&(&*x - &x1)) <= options.tolerance || norm_l1(&(&*x + &x1)) <= options.tolerance
        {
            return (x.dot(&a.dot_mv(x)), niter);
        }
    }
    (x.dot(&a.dot_mv(x)), options.max_iters)
}

pub fn power_iteration4(a: &Arr, x: &mut Arr, options: &Options) -> (f64, usize) {
    *x /= norm_l1(x);
    for niter in 0..options.max_iters {
        let x1 = x.clone();
        *x = a.dot_mv(&x1);
        *x /= norm_l1(x);
        if norm_l1(&(&*x - &x1)) <= options.tolerance || norm_l1(&(&*x + &x1)) <= options.tolerance
        {
            *x /= x.dot(x).sqrt();
            return (x.dot(&a.dot_mv(x)), niter);
        }
    }
    *x /= x.dot(x).sqrt();
    (x.dot(&a.dot_mv(x)), options.max_iters)
}

pub fn power_iteration2(a: &Arr, x: &mut Arr, options: &Options) -> (f64, usize) {
    *x /= x.dot(x).sqrt();
    let mut new_vec = a.dot_mv(x);
    let mut eigenval = x.dot(&new_vec);
    for niter in 0..options.max_iters {
        let eigenval_prev = eigenval;
        x.clone_from(&new_vec);
        *x /= x.dot(x).sqrt();
        new_vec = a.dot_mv(x);
        eigenval = x.dot(&new_vec);
        if (eigenval_prev - eigenval).abs() <= options.tolerance {
            return (eigenval, niter);
        }
    }
    (eigenval, options.max_iters)
}

pub fn power_iteration3(a: &Arr, x: &mut Arr, options: &Options) -> (f64, usize) {
    let mut new_vec = a.dot_mv(x);
    let mut dot = x.dot(x);
    let mut eigenval = x.dot(&new_vec) / dot;
    for niter in 0..options.max_iters {
        let eigenval_prev = eigenval;
        x.clone_from(&new_vec);
        dot = x.dot(x);
        if dot >= 1e150 {
            *x /= x.dot(x).sqrt();
            new_vec = a.dot_mv(x);
            eigenval = x.dot(&new_vec);
            if (eigenval_prev - eigenval).abs() <= options.tolerance {
                return (eigenval, niter);
            }
        } else {
            new_vec = a.dot_mv(x);
            eigenval = x.dot(&new_vec) / dot;
            if (eigenval_prev - eigenval).abs() <= options.tolerance {
                *x /= x.dot(x).sqrt();
                return (eigenval, niter);
            }
        }
    }
    *x /= x.dot(x).sqrt();
    (eigenval, options.max_iters)
}
