use crate::{op, Ops};
use crate::wire::{Arg, MDim, Out, Rows};
use crate::ops_int::Str;
use hmath::*;
type R = Ratio;

// what a matrix result looks like: the cells through get(), the printed form,
// and whether rebuilding it from those cells gives an equal matrix
fn mo(x: &Matrix, rows: usize, cols: usize) -> Str {
    let cells = MDim(x, rows, cols).out();
    let same = if rows == 0 { true } else { Matrix::from_vec(Rows::parse(&cells.replace("!", "")).0).map(|y| y == *x).unwrap_or(false) };
    Str(format!("{} {} {} {}", cells, x.to_ratio_string().out(), same.out(), x.is_square().out()))
}
fn mr(x: Result<Matrix, MatrixError>, rows: usize, cols: usize) -> Str {
    match x { Ok(x) => mo(&x, rows, cols), Err(e) => Str(format!("E{}", e.out())) }
}

pub fn register(m: &mut Ops) {
    op!(m, "m.from_vec", |a: Rows, r: usize, c: usize| mr(Matrix::from_vec(a.0.clone()), r, c));
    op!(m, "m.from_vec_ragged", |a: Rows| match Matrix::from_vec(a.0.clone()) { Ok(_) => Str("ok".into()), Err(e) => Str(format!("E{}", e.out())) });
    op!(m, "m.from_vec_generic", |a: Vec<i32>, r: usize, c: usize| mr(Matrix::from_vec_generic(a.chunks(c).map(|x| x.to_vec()).collect()), r, c));
    op!(m, "m.generate", |a: Matrix, r: usize, c: usize| mo(&Matrix::generate(c, r, |i, j| a.get(i, j).clone()), r, c));
    op!(m, "m.zeros", |r: usize, c: usize| mo(&Matrix::zeros(c, r), r, c));
    op!(m, "m.identity", |n: usize| mo(&Matrix::identity(n), n, n));
    op!(m, "m.add", |a: Matrix, b: Matrix, r: usize, c: usize| mr(a.add(&b), r, c));
    op!(m, "m.add_mut", |a: Matrix, b: Matrix, r: usize, c: usize| { let mut s = a.clone(); match s.add_mut(&b) { Ok(()) => mo(&s, r, c), Err(e) => Str(format!("E{} {}", e.out(), (s == a).out())) } });
    op!(m, "m.mul", |a: Matrix, b: Matrix, r: usize, c: usize| mr(a.mul(&b), r, c));
    op!(m, "m.mul_k", |a: Matrix, k: R, r: usize, c: usize| mo(&a.mul_k(k.clone()), r, c));
    op!(m, "m.mul_k_mut", |a: Matrix, k: R, r: usize, c: usize| { let mut s = a.clone(); s.mul_k_mut(k.clone()); mo(&s, r, c) });
    op!(m, "m.mul_k_i32", |a: Matrix, k: i32, r: usize, c: usize| mo(&a.mul_k(k), r, c));
    op!(m, "m.transpose", |a: Matrix, r: usize, c: usize| mo(&a.transpose(), r, c));
    op!(m, "m.transpose_mut", |a: Matrix, r: usize, c: usize| { let mut s = a.clone(); s.transpose_mut(); mo(&s, r, c) });
    op!(m, "m.det", |a: Matrix| a.determinant());
    op!(m, "m.inverse", |a: Matrix, n: usize| mr(a.inverse(), n, n));
    op!(m, "m.get_mut", |a: Matrix, i: usize, j: usize, v: R, r: usize, c: usize| { let mut s = a.clone(); *s.get_mut(i, j) = v.clone(); mo(&s, r, c) });
    op!(m, "m.random", |r: usize, c: usize| mo(&Matrix::random(c, r), r, c));

    op!(m, "p.from_vec", |v: Vec<R>| Polynomial::from_vec(v.clone()));
    op!(m, "p.from_vec_generic", |v: Vec<R>| Polynomial::from_vec_generic(v.clone()));
    op!(m, "p.from_vec_i32", |v: Vec<i32>| Polynomial::from_vec_generic(v.clone()));
    op!(m, "p.eq", |v: Vec<R>, w: Vec<R>| Polynomial::from_vec(v.clone()) == Polynomial::from_vec(w.clone()));
    op!(m, "p.f32", |v: Vec<R>| Polynomial::from_vec(v.clone()).to_vec_f32());
    op!(m, "p.f64", |v: Vec<R>| Polynomial::from_vec(v.clone()).to_vec_f64());
    op!(m, "p.mul_k", |p: Polynomial, k: R| p.mul_k(k.clone()));
    op!(m, "p.mul_k_mut", |p: Polynomial, k: R| { let mut s = p.clone(); s.mul_k_mut(k.clone()); s });
    op!(m, "p.mul_k_i32", |p: Polynomial, k: i32| p.mul_k(k));
    op!(m, "p.diff", |p: Polynomial| p.differentiate());
    op!(m, "p.diff_mut", |p: Polynomial| { let mut s = p.clone(); s.differentiate_mut(); s });
    op!(m, "p.diff_n", |p: Polynomial, n: usize| { let mut s = p.clone(); let mut t = p.clone(); for _ in 0..n { s.differentiate_mut(); t = t.differentiate(); } (s, t) });
    op!(m, "p.calc", |p: Polynomial, x: R| p.calc(&x));
    op!(m, "p.newton", |p: Polynomial, x: R| p.newton_method(&x, &None));
    op!(m, "p.newton_pre", |p: Polynomial, q: Polynomial, x: R| p.newton_method(&x, &Some(q.clone())));
    op!(m, "p.ratio_string", |p: Polynomial| p.to_ratio_string());
    op!(m, "p.approx_string", |p: Polynomial, n: usize| p.to_approx_string(n));
    op!(m, "p.from_points", |x: Vec<R>, y: Vec<R>| from_points(x.iter().cloned().zip(y.iter().cloned()).collect()));
    op!(m, "p.from_points_generic", |x: Vec<i32>, y: Vec<i32>| from_points_generic(x.iter().cloned().zip(y.iter().cloned()).collect::<Vec<(i32, i32)>>()));
    op!(m, "p.cubic", |a: R, b: R, v1: R, v2: R, v3: R, v4: R| cubic_2_points(&a, &b, &v1, &v2, &v3, &v4));
    op!(m, "p.quad", |a: R, b: R, c: R, v1: R, v2: R, v3: R| quadratic_3_points(&a, &b, &c, &v1, &v2, &v3));
    op!(m, "p.linear", |a: R, b: R, v1: R, v2: R| linear_2_points(&a, &b, &v1, &v2));
}
