use crate::{op, Ops};
use crate::ops_int::{bin, sc, un, std_flags, h};
use crate::wire::Bytes;
use hmath::*;
type F = F192;

pub fn register(m: &mut Ops) {
    bin!(m, "f", F, F; add, sub, mul, div, pow);
    sc!(m, "f", F, i32; mul_i32, div_i32);
    sc!(m, "f", F, u64; shl, shr);
    sc!(m, "f", F, i64; powi);
    un!(m, "f", F; is_integer, abs, neg, step_epsilon, floor, ceil, round, truncate, frac, sqrt, pow2, ilog2, log2, ln,
        sin, cos, tan, asin, acos, atan, to_approx_string);
    op!(m, "f.std_cmp", |a: F, b: F| std_flags(&a, &b));
    op!(m, "f.id", |a: F| a);
    op!(m, "f.from_pow2", |n: i64| F::from_pow2(n));
    op!(m, "f.display", |a: F| format!("{}", a));
    op!(m, "f.from_str", |s: String| s.parse::<F>());
    op!(m, "f.code13", |a: F| a.into_code13().map(Bytes));
    op!(m, "f.code13_round", |a: F| a.into_code13().and_then(|c| F::from_code13(&c)));
    op!(m, "f.code13_text", |b: Bytes| F::from_code13(&b.0).and_then(|x| x.into_code13()).map(Bytes));
    op!(m, "f.from_code13", |b: Bytes| F::from_code13(&b.0));
    op!(m, "f.from_ratio", |r: Ratio| { let a = F::from(&r); let b = F::from(r.clone()); (a, a == b && h(&a) == h(&b)) });
    op!(m, "f.to_ratio", |a: F| (Ratio::from(&a), Ratio::from(a)));
    op!(m, "f.consts", |_x: u32| vec![F::ZERO, F::ONE, F::PI, F::PI_OVER_2, F::PI_OVER_3, F::PI_OVER_4, F::PI_OVER_6, F::E, F::SQRT_2, F::SQRT_3, F::SQRT_10, F::ONE_OVER_SQRT_2, F::LN_2, F::LN_3, F::LN_10, F::default()]);
    macro_rules! ft { ($($t:ident),*) => { $(
        op!(m, concat!("f.from.", stringify!($t)), |a: $t| F::try_from(a));
        op!(m, concat!("f.to.", stringify!($t)), |a: F| <$t>::try_from(a));
    )* } }
    ft!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
}
