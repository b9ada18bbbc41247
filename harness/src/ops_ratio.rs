use crate::{op, Ops};
use crate::ops_int::{bin, bin_mut, sc, sc_mut, un, un_mut, fromto, std_flags, h};
use crate::wire::{Arg, Out};
use hmath::*;
type R = Ratio;
type B = BigInt;

fn hist_r(args: &[&str]) -> String {
    let mut r: Vec<R> = Vec::<R>::parse(args[0]);
    let mut o = vec![];
    for st in args[1].split(',') {
        let p: Vec<&str> = st.split(':').collect();
        let d: usize = p[1].parse().unwrap();
        let n: i64 = p[2].parse().unwrap();
        let l = r.len();
        let src = r[(n.unsigned_abs() as usize) % l].clone();
        let before = src.raw();
        let w = n as i32;
        match p[0] {
            "add" => r[d].add_mut(&src), "sub" => r[d].sub_mut(&src), "mul" => r[d].mul_mut(&src), "div" => r[d].div_mut(&src),
            "addbi" => r[d].add_bi_mut(&src.get_numer()), "subbi" => r[d].sub_bi_mut(&src.get_numer()),
            "mulbi" => r[d].mul_bi_mut(&src.get_numer()), "divbi" => r[d].div_bi_mut(&src.get_numer()),
            "add32" => r[d].add_i32_mut(w), "sub32" => r[d].sub_i32_mut(w), "mul32" => r[d].mul_i32_mut(w), "div32" => r[d].div_i32_mut(w),
            "pow" => r[d].pow_i32_mut(w), "neg" => r[d].neg_mut(), "abs" => r[d].abs_mut(), "reci" => r[d].reci_mut(),
            "trunc" => r[d].truncate_mut(), "frac" => r[d].frac_mut(), "mov" => r[d] = src.clone(),
            x => panic!("harness: hist op {}", x),
        }
        let mut s = r[d].out();
        if src.raw() != before { s.push_str("~impure"); }
        if !s.contains('!') {
            let fresh = R::parse(s.split('~').next().unwrap());
            if fresh != r[d] || h(&fresh) != h(&r[d]) { s.push_str("~neq"); }
        }
        o.push(s);
    }
    o.join(",")
}

pub fn register(m: &mut Ops) {
    bin!(m, "r", R, R; add, sub, mul, div, lt, gt, eq, neq, leq, geq, comp);
    bin_mut!(m, "r", R, R; add_mut, sub_mut, mul_mut, div_mut);
    bin!(m, "r", R, B; add_bi, sub_bi, mul_bi, div_bi);
    bin_mut!(m, "r", R, B; add_bi_mut, sub_bi_mut, mul_bi_mut, div_bi_mut);
    sc!(m, "r", R, i32; add_i32, sub_i32, mul_i32, div_i32, pow_i32, lt_i32, gt_i32, eq_i32, neq_i32, leq_i32, geq_i32, comp_i32);
    sc_mut!(m, "r", R, i32; add_i32_mut, sub_i32_mut, mul_i32_mut, div_i32_mut, pow_i32_mut);
    un!(m, "r", R; neg, abs, reci, truncate, truncate_bi, frac, truncate_and_frac, floor, floor_bi, round, round_bi,
        is_neg, is_one, is_zero, is_integer, lt_one, gt_one, get_denom, get_numer, to_ratio_string, to_ieee754_f32, to_ieee754_f64);
    un_mut!(m, "r", R; neg_mut, abs_mut, reci_mut, truncate_mut, frac_mut);
    sc!(m, "r", R, usize; to_approx_string, to_scientific_notation);
    op!(m, "r.add_self", |a: R| a.add(&a));
    op!(m, "r.sub_self", |a: R| a.sub(&a));
    op!(m, "r.div_self", |a: R| a.div(&a));
    op!(m, "r.std_cmp", |a: R, b: R| std_flags(&a, &b));
    op!(m, "r.consts", |_x: u32| vec![R::zero(), R::one(), R::default()]);
    op!(m, "r.from_dn", |d: B, n: B| R::from_denom_and_numer(d.clone(), n.clone()));
    op!(m, "r.from_dn_i32", |d: i32, n: i32| R::from_denom_and_numer_i32(d, n));
    op!(m, "r.from_dn_raw", |d: B, n: B| R::from_denom_and_numer_raw(d.clone(), n.clone()));
    op!(m, "r.from_pair_f64", |d: f64, n: f32| R::try_from((d, n)));
    op!(m, "r.from_pair_str", |d: String, n: String| R::try_from((d.as_str(), n.as_str())));
    op!(m, "r.to_pair", |a: R| { let (d, n): (B, B) = (&a).into(); let (d2, n2): (B, B) = a.clone().into(); vec![d, n, d2, n2] });
    op!(m, "r.from_bi", |n: B| R::from_bi(n.clone()));
    op!(m, "r.from_ubi", |n: UBigInt| R::from_ubi(n.clone()));
    op!(m, "r.from_i32", |n: i32| R::from_i32(n));
    op!(m, "r.from_i64", |n: i64| R::from_i64(n));
    op!(m, "r.from_i128", |n: i128| R::from_i128(n));
    op!(m, "r.rawround", |a: R| { let (d, dn, n, nn) = a.clone().into_raw(); R::from_raw(d, dn, n, nn) });
    op!(m, "r.from_f32", |x: f32| R::from_ieee754_f32(x));
    op!(m, "r.from_f64", |x: f64| R::from_ieee754_f64(x));
    op!(m, "r.inspect_f32", |x: f32| inspect_ieee754_f32(x).map(|(a, b, c)| (a, b, c)));
    op!(m, "r.inspect_f64", |x: f64| inspect_ieee754_f64(x).map(|(a, b, c)| (a, b, c)));
    op!(m, "r.from_string", |s: String| R::from_string(&s));
    op!(m, "r.from_str", |s: String| vec![s.parse::<R>(), R::try_from(s.as_str()), R::try_from(s.clone())]);
    op!(m, "r.fmt", |a: R| vec![format!("{}", a), a.to_string(), a.to_approx_string(12)]);
    op!(m, "r.to_b", |a: R| vec![B::from(&a), B::from(a.clone())]);
    op!(m, "r.to_u", |a: R| vec![UBigInt::try_from(&a), UBigInt::try_from(a.clone())]);
    op!(m, "r.common_denom", |a: R, b: R| common_denom(&a, &b));
    op!(m, "r.shrink", |a: R, n: usize| { let mut s = a.clone(); let r = s.shrink(n); (s, match r { Ok(k) => format!("ok{}", k), Err(k) => format!("err{}", k) }) });
    op!(m, "r.random", |k: usize| (0..k).map(|_| R::random()).collect::<Vec<_>>());
    fromto!(m, "r", R; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    op!(m, "r.from.bool", |a: bool| (R::from(a), R::from(&a)));
    m.insert("r.hist", Box::new(hist_r));

    // complex
    op!(m, "c.add", |a: R, b: R, c: R, d: R| {
        let x = Complex::from_real_and_imag(a.clone(), b.clone()); let y = Complex::from_real_and_imag(c.clone(), d.clone());
        let z = x.add(&y); let mut w = Complex::from_real_and_imag(a.clone(), b.clone()); w.add_mut(&y);
        vec![z.real().clone(), z.imaginary().clone(), w.real().clone(), w.imaginary().clone(), x.real().clone(), x.imaginary().clone(), y.real().clone(), y.imaginary().clone()] });
    op!(m, "c.add_i32", |a: R, b: R, n: i32| {
        let x = Complex::from_real_and_imag(a.clone(), b.clone());
        let z = x.add_i32(n); let mut w = Complex::from_real_and_imag(a.clone(), b.clone()); w.add_i32_mut(n);
        vec![z.real().clone(), z.imaginary().clone(), w.real().clone(), w.imaginary().clone(), x.real().clone(), x.imaginary().clone()] });
    op!(m, "c.try_from", |a: String, b: String| Complex::try_from_real_and_imag(a.as_str(), b.as_str()).map(|z| (z.real().clone(), z.imaginary().clone())));
    op!(m, "c.from_ints", |a: i64, b: u32| { let z = Complex::from_real_and_imag(a, b); (z.real().clone(), z.imaginary().clone()) });

    // series
    macro_rules! ser { ($($f:ident),*) => { $( op!(m, concat!("s.", stringify!($f)), |x: R, k: usize| $f(&x, k)); )* } }
    ser!(exp_iter, ln_iter, sqrt_iter, cbrt_iter, sin_iter, cos_iter, tan_iter, asin_iter, acos_iter, atan_iter);
    op!(m, "s.log_iter", |b: R, x: R, k: usize| log_iter(&b, &x, k));
    op!(m, "s.pow_iter", |a: R, b: R, k: usize| pow_iter(&a, &b, k));
    op!(m, "s.pi_iter", |k: usize| pi_iter(k));
    op!(m, "s.e_iter", |k: usize| e_iter(k));
    op!(m, "s.ln2_iter", |k: usize| ln2_iter(k));
    op!(m, "s.consts", |_x: u32| vec![pi_const(), e_const(), ln2_const()]);
}
