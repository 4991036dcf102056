//! Reference definitions the analysed crate is compared with (see DESIGN.md).
pub mod arr;
pub mod conjugate_gradient;
pub mod cutting_plane;
pub mod ell;
pub mod ell_calc;
pub mod ell_stable;
pub mod oracles;
pub mod power_iteration;
pub mod quasicvx;
