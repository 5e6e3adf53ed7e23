pub mod util;
macro_rules! props {
    ($($id:literal $m:ident $f:expr, $a:expr;)*) => {
        $(pub mod $m;)*
        pub fn jobs(prop: &str, thorough: bool) -> Option<Vec<crate::ctx::Job>> {
            match prop {
                $($id => Some($m::jobs(thorough)),)*
                _ => None,
            }
        }
        pub fn info(prop: &str) -> Info {
            let (f, a): (&[&str], &[&str]) = match prop {
                $($id => (&$f, &$a),)*
                _ => (&[], &[]),
            };
            Info {
                functions: f.iter().map(|s| s.to_string()).collect(),
                assumptions: COMMON.iter().chain(a).map(|s| s.to_string()).collect(),
            }
        }
    };
}
pub struct Info {
    pub functions: Vec<String>,
    pub assumptions: Vec<String>,
}
const COMMON: [&str; 3] = [
    "scalars are real numbers with exact roots; rounding, overflow and underflow of f32/f64 are outside the encoding (NaN and infinities enter only where a job places them)",
    "machine epsilon is 0 unless a job says otherwise, so every tolerance test in the code becomes exact",
    "sizes are those of the jobs under bounds; ndarray's own code runs as compiled and is not itself specified",
];
props! {
    "C01" c01 ["triangular::IntoTriangular::{triangular_inplace,into_triangular}", "triangular::Triangular::is_triangular", "check_square", "index::*"], [];
    "C02" c02 ["triangular::SolveTriangular::solve_triangular", "triangular::SolveTriangularInplace::{solve_triangular_inplace,solve_triangular_into}", "triangular::solve_triangular_system(_common)"], ["the selected diagonal has no zero"];
    "C03" c03 ["cholesky::CholeskyInplace::*", "cholesky::Cholesky::*", "triangular::IntoTriangular"], [];
    "C04" c04 ["cholesky::SolveCInplace::*", "cholesky::SolveC::solvec", "cholesky::InverseC::invc", "cholesky::InverseCInplace::invc_inplace", "triangular solves"], [];
    "C05" c05 ["qr::QR::qr", "qr::QRInto::qr_into", "qr::QRDecomp::{generate_q,into_r,into_decomp}", "householder::*", "reflection::*"], [];
    "C06" c06 ["qr::QRDecomp::{solve,solve_into,solve_tr,solve_tr_into,is_invertible,inverse}", "qr::LeastSquaresQr(Into)::*", "triangular::solve_triangular_system", "householder::*"], [];
    "C07" c07 ["tridiagonal::SymmetricTridiagonal::sym_tridiagonal", "tridiagonal::TridiagonalDecomp::*", "householder::*", "reflection::*"], [];
    "C08" c08 ["bidiagonal::Bidiagonal::bidiagonal", "bidiagonal::BidiagonalDecomp::*", "householder::*", "reflection::*"], [];
    "C09" c09 ["eigh::symmetric_eig", "eigh::delimit_subproblem", "eigh::wilkinson_shift", "eigh::compute_2x2_eigvals", "eigh::{Eigh,EighInto,EigValsh,EigValshInto}", "givens::GivensRotation::*", "tridiagonal::*"], ["sweep and coarse jobs set machine epsilon to the value in their name"];
    "C10" c10 ["svd::svd", "svd::delimit_subproblem", "svd::cancel_horizontal_off_diagonal_elt", "svd::cancel_vertical_off_diagonal_elt", "svd::compute_2x2_uptrig_svd", "svd::{SVD,SVDInto}", "givens::GivensRotation::*", "bidiagonal::*"], ["sweep jobs set machine epsilon to the value in their name"];
    "C11" c11 ["eigh::EigSort for Array1 and (Array1, Array2)", "svd::SvdSort", "eigh::cmp_floats"], ["signed zeros and values of long inputs are compared natively on path models only"];
    "C12" c12 ["norm::Norm::{norm_l1,norm_l2,norm_max}"], [];
    "C14" c14 ["lobpcg::lobpcg", "lobpcg::algorithm::{orthonormalize,sorted_eig,generalized_eig,ndarray_mask}", "eigh::*", "cholesky::*", "triangular::*"], ["operator and preconditioner are exact matrix maps; iterations beyond those of the jobs are outside"];
    "C15" c15 ["lobpcg::algorithm::apply_constraints", "lobpcg::lobpcg with constraints"], ["constraints have full rank (the documented precondition)"];
    "C16" c16 ["lobpcg::TruncatedEig::{new_with_rng,precision,maxiter,orthogonal_to,precondition_with,decompose,into_iter,into_iter_step_size}", "lobpcg::TruncatedEigIterator::{new,next}", "lobpcg::lobpcg"], ["the random start blocks are those the harness scripts", "eigenvalue gaps at least one in the iterator jobs"];
    "C17" c17 ["lobpcg::TruncatedSvd::{new_with_rng,precision,maxiter,decompose}", "lobpcg::svd::TruncatedSvdResult::{values,values_vectors,singular_values_with_indices}", "lobpcg::lobpcg"], ["the random start blocks are those the harness scripts", "singular values between 1/4 and 8 with gaps of 1/4, or exactly zero, where the spectrum is prescribed"];
    "C18" c18 ["check_square", "index::UncheckedIndex(Mut) (checked in the harness build)", "every public decomposition and solver"], ["accesses out of bounds show as a panic: the harness is built with debug assertions"];
    "C19" c19 ["every public operation in its by-reference, consuming, in-place and shared forms"], ["results are compared as exact reals; natively up to rounding"];
    "C13" c13 ["reflection::Reflection::{new,axis,reflect_cols,reflect_rows}"], ["the axis is a unit vector except in the any-* jobs"];
    "C20" c20 ["qr::*", "bidiagonal::*", "tridiagonal::*", "eigh::*", "svd::*", "cholesky::*", "triangular::*", "norm::*", "lobpcg::lobpcg"], ["arithmetic with NaN and infinities follows IEEE; finite values stay exact reals", "the sign of a zero met by signum/is_sign_negative is free in the jobs zero-*"];
    "C21" c21 ["qr::*", "triangular::*", "cholesky::*", "tridiagonal::*", "bidiagonal::*", "eigh::*", "svd::*", "householder::*", "givens::*"], ["jobs 2m60 and 2p40 have machine epsilon visible (except decoupled 3x3 singular values)"];
}
