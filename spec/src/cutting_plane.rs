#![allow(non_snake_case)]

use std::fmt;

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct SingleCut(pub f64);

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct ParallelCut(pub f64, pub Option<f64>);

impl ParallelCut {
    pub fn beta0(&self) -> f64 {
        self.0
    }
    pub fn beta1(&self) -> Option<f64> {
        self.1
    }
}

#[derive(Debug, PartialEq, Eq)]
pub enum CutStatus {
    Success,
    NoSoln,
    NoEffect,
    Unknown,
}

impl fmt::Display for CutStatus {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            CutStatus::Success => write!(f, "✓ success"),
            CutStatus::NoSoln => write!(f, "✗ no solution"),
            CutStatus::NoEffect => write!(f, "⏭ no effect"),
            CutStatus::Unknown => write!(f, "? unknown"),
        }
    }
}

pub struct Options {
    pub max_iters: usize, // maximum number of iterations
    pub tolerance: f64,   // error tolerrance
    pub verbose: bool,    // enable iteration logging
}

impl Options {
    pub const fn new(max_iters: usize, tolerance: f64) -> Self {
        Options {
            max_iters,
            tolerance,
            verbose: false,
        }
    }
}

impl Default for Options {
    fn default() -> Options {
        Options::new(2000, 1e-20)
    }
}

type CInfo = (bool, usize);

pub trait UpdateByCutChoice<SearchSpace> {
    type ArrayType; // f64 for 1D; Arr for general
    fn update_bias_cut_by(&self, space: &mut SearchSpace, grad: &Self::ArrayType) -> CutStatus;
    fn update_central_cut_by(&self, space: &mut SearchSpace, grad: &Self::ArrayType) -> CutStatus;
    fn update_q_by(&self, space: &mut SearchSpace, grad: &Self::ArrayType) -> CutStatus;
}

pub trait OracleFeas<ArrayType> {
    type CutChoice; // SingleCut for single cut; ParallelCut for parallel cut
    fn assess_feas(&mut self, xc: &ArrayType) -> Option<(ArrayType, Self::CutChoice)>;

    fn update(&mut self, _gamma: f64) {}
}

pub trait OracleOptim<ArrayType> {
    type CutChoice; // SingleCut for single cut; ParallelCut for parallel cut
    fn assess_optim(
        &mut self,
        xc: &ArrayType,
        gamma: &mut f64,
    ) -> ((ArrayType, Self::CutChoice), bool);
}

pub trait OracleOptimQ<ArrayType> {
    type CutChoice; // SingleCut for single cut; ParallelCut for parallel cut
    fn assess_optim_q(
        &mut self,
        xc: &ArrayType,
        gamma: &mut f64,
        retry: bool,
    ) -> ((ArrayType, Self::CutChoice), bool, ArrayType, bool);
}

pub trait OracleBS {
    fn assess_bs(&mut self, gamma: f64) -> bool;
}

pub trait SearchSpace {
    type ArrayType; // f64 for 1D; Arr for general

    fn xc(&self) -> Self::ArrayType;

    fn tsq(&self) -> f64; // measure of the search space

    fn update_bias_cut<T>(&mut self, cut: &(Self::ArrayType, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = Self::ArrayType>,
        Self: Sized;

    fn update_central_cut<T>(&mut self, cut: &(Self::ArrayType, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = Self::ArrayType>,
        Self: Sized;

    fn update_q<T>(&mut self, cut: &(Self::ArrayType, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = Self::ArrayType>,
        Self: Sized,
    {
        self.update_bias_cut(cut)
    }

    fn set_xc(&mut self, x: Self::ArrayType);
}

#[allow(dead_code)]
pub fn cutting_plane_feas<T, Oracle, Space>(
    omega: &mut Oracle,
    space: &mut Space,
    options: &Options,
) -> (Option<Space::ArrayType>, usize)
where
    T: UpdateByCutChoice<Space, ArrayType = Space::ArrayType>,
    Oracle: OracleFeas<Space::ArrayType, CutChoice = T>,
    Space: SearchSpace,
{
    let mut rounds = 0;
    while rounds < options.max_iters {
        let centre = space.xc();
        match omega.assess_feas(&centre) {
            None => return (Some(centre), rounds),
            Some(cut) => {
                if space.update_bias_cut(&cut) != CutStatus::Success {
                    return (None, rounds);
                }
                if space.tsq() < options.tolerance {
                    return (None, rounds);
                }
            }
        }
        rounds += 1;
    }
    (None, options.max_iters)
}

pub fn cutting_plane_optim<T, Oracle, Space>(
    omega: &mut Oracle,
    space: &mut Space,
    gamma: &mut f64,
    options: &Options,
) -> (Option<Space::ArrayType>, usize)
where
    T: UpdateByCutChoice<Space, ArrayType = Space::ArrayType>,
    Oracle: OracleOptim<Space::ArrayType, CutChoice = T>,
    Space: SearchSpace,
{
    let mut incumbent = None;
    let mut rounds = 0;
    while rounds < options.max_iters {
        let centre = space.xc();
        let (cut, improved) = omega.assess_optim(&centre, gamma);
        let status;
        if improved {
            incumbent = Some(centre);
            status = space.update_central_cut(&cut);
        } else {
            status = space.update_bias_cut(&cut);
        }
        match status {
            CutStatus::Success if !(space.tsq() < options.tolerance) => rounds += 1,
            _ => return (incumbent, rounds),
        }
    }
    (incumbent, options.max_iters)
}

#[allow(dead_code)]
pub fn cutting_plane_optim_q<T, Oracle, Space>(
    omega: &mut Oracle,
    space_q: &mut Space,
    gamma: &mut f64,
    options: &Options,
) -> (Option<Space::ArrayType>, usize)
where
    T: UpdateByCutChoice<Space, ArrayType = Space::ArrayType>,
    Oracle: OracleOptimQ<Space::ArrayType, CutChoice = T>,
    Space: SearchSpace,
{
    let mut incumbent = None;
    let mut retry = false;
    let mut rounds = 0;
    loop {
        if rounds == options.max_iters {
            return (incumbent, options.max_iters);
        }
        let (cut, improved, point, more) = omega.assess_optim_q(&space_q.xc(), gamma, retry);
        if improved {
            incumbent = Some(point);
        }
        retry = match space_q.update_q(&cut) {
            CutStatus::Success => false,
            CutStatus::NoSoln => return (incumbent, rounds),
            CutStatus::NoEffect => {
                if !more {
                    return (incumbent, rounds);
                }
                true
            }
            CutStatus::Unknown => retry && !improved,
        };
        if space_q.tsq() < options.tolerance {
            return (incumbent, rounds);
        }
        rounds += 1;
    }
}

pub struct BSearchAdaptor<T, Oracle, Space>
where
    T: UpdateByCutChoice<Space, ArrayType = Space::ArrayType>,
    Oracle: OracleFeas<Space::ArrayType, CutChoice = T>,
    Space: SearchSpace,
{
    pub omega: Oracle,
    pub space: Space,
    pub options: Options,
}

#[allow(dead_code)]
impl<T, Oracle, Space> BSearchAdaptor<T, Oracle, Space>
where
    T: UpdateByCutChoice<Space, ArrayType = Space::ArrayType>,
    Oracle: OracleFeas<Space::ArrayType, CutChoice = T>,
    Space: SearchSpace + Clone,
{
    pub fn new(omega: Oracle, space: Space, options: Options) -> Self {
        BSearchAdaptor {
            omega,
            space,
            options,
        }
    }
}

impl<T, Oracle, Space> OracleBS for BSearchAdaptor<T, Oracle, Space>
where
    T: UpdateByCutChoice<Space, ArrayType = Space::ArrayType>,
    Oracle: OracleFeas<Space::ArrayType, CutChoice = T>,
    Space: SearchSpace + Clone,
{
    fn assess_bs(&mut self, gamma: f64) -> bool {
        self.omega.update(gamma);
        let mut copy = self.space.clone();
        match cutting_plane_feas(&mut self.omega, &mut copy, &self.options).0 {
            Some(x) => {
                self.space.set_xc(x);
                true
            }
            None => false,
        }
    }
}

#[allow(dead_code)]
pub fn bsearch<Oracle>(omega: &mut Oracle, intrvl: &mut (f64, f64), options: &Options) -> CInfo
where
    Oracle: OracleBS,
{
    assert!(intrvl.0 <= intrvl.1);
    let first = intrvl.1;
    let mut rounds = 0;
    while rounds < options.max_iters {
        let half = (intrvl.1 - intrvl.0) / 2.0;
        if half < options.tolerance {
            break;
        }
        let mid = intrvl.0 + half;
        if omega.assess_bs(mid) {
            intrvl.1 = mid;
        } else {
            intrvl.0 = mid;
        }
        rounds += 1;
    }
    (intrvl.1 != first, rounds)
}
