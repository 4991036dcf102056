use crate::arr::Arr;

pub fn conjugate_gradient(
    a: &Arr,
    b: &Arr,
    x0: Option<&Arr>,
    tol: f64,
    max_iter: usize,
) -> Result<Arr, &'static str> {
    let n = b.len();
    let mut x = match x0 {
        Some(x0) => x0.clone(),
        None => Arr::new(n),
    };

    let mut residual = b - &a.dot_mv(&x);
    let mut direction = residual.clone();
    let mut residual_norm_sq = residual.dot(&residual);

    if residual_norm_sq.sqrt() < tol {
        return Ok(x);
    }

    for _iter in 0..max_iter {
        let a_dir = a.dot_mv(&direction);
        let dir_dot_a_dir = direction.dot(&a_dir);

        if dir_dot_a_dir == 0.0 {
            return Err("Conj Grad did not converge");
        }

        let step_size = residual_norm_sq / dir_dot_a_dir;
        for i in 0..n {
            x[i] += step_size * direction[i];
        }
        for i in 0..n {
            residual[i] -= step_size * a_dir[i];
        }

        let residual_norm_sq_new = residual.dot(&residual);

        if residual_norm_sq_new.sqrt() < tol {
            return Ok(x);
        }

        let improvement_ratio = residual_norm_sq_new / residual_norm_sq;
        for i in 0..n {
            direction[i] = residual[i] + improvement_ratio * direction[i];
        }
        residual_norm_sq = residual_norm_sq_new;
    }

    Err("Conj Grad did not converge after max iterations")
}
