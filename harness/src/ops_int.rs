use crate::{op, Ops};
use crate::wire::{Arg, Out};
use hmath::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
type U = UBigInt;
type B = BigInt;

pub fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }

macro_rules! bin { ($m:ident, $p:literal, $T:ty, $O:ty; $($f:ident),*) => { $(
    op!($m, concat!($p, ".", stringify!($f)), |a: $T, b: $O| a.$f(&b)); )* } }
macro_rules! bin_mut { ($m:ident, $p:literal, $T:ty, $O:ty; $($f:ident),*) => { $(
    op!($m, concat!($p, ".", stringify!($f)), |a: $T, b: $O| { let mut s = a.clone(); s.$f(&b); s }); )* } }
macro_rules! sc { ($m:ident, $p:literal, $T:ty, $O:ty; $($f:ident),*) => { $(
    op!($m, concat!($p, ".", stringify!($f)), |a: $T, b: $O| a.$f(b)); )* } }
macro_rules! sc_mut { ($m:ident, $p:literal, $T:ty, $O:ty; $($f:ident),*) => { $(
    op!($m, concat!($p, ".", stringify!($f)), |a: $T, b: $O| { let mut s = a.clone(); s.$f(b); s }); )* } }
macro_rules! un { ($m:ident, $p:literal, $T:ty; $($f:ident),*) => { $(
    op!($m, concat!($p, ".", stringify!($f)), |a: $T| a.$f()); )* } }
macro_rules! un_mut { ($m:ident, $p:literal, $T:ty; $($f:ident),*) => { $(
    op!($m, concat!($p, ".", stringify!($f)), |a: $T| { let mut s = a.clone(); s.$f(); s }); )* } }
macro_rules! fromto { ($m:ident, $p:literal, $T:ty; $($t:ident),*) => { $(
    op!($m, concat!($p, ".from.", stringify!($t)), |a: $t| {
        let x = <$T>::try_from(a); let y = <$T>::try_from(&a);
        (x, y)
    });
    op!($m, concat!($p, ".to.", stringify!($t)), |a: $T| {
        let x = <$t>::try_from(&a); let y = <$t>::try_from(a.clone());
        (x, y)
    }); )* } }
pub(crate) use {bin, bin_mut, sc, sc_mut, un, un_mut, fromto};

fn flags<T: Ord + Hash + Clone>(a: &T, b: &T) -> String {
    // every comparison operator of the std traits on one pair
    let mut s = String::new();
    for x in [a < b, a <= b, a > b, a >= b, a == b, a != b] { s.push(if x { '1' } else { '0' }); }
    s.push(match a.cmp(b) { std::cmp::Ordering::Less => '-', std::cmp::Ordering::Equal => '0', _ => '+' });
    s.push(match a.partial_cmp(b) { Some(std::cmp::Ordering::Less) => '-', Some(std::cmp::Ordering::Equal) => '0', Some(_) => '+', None => 'N' });
    s.push(if std::cmp::max(a, b) == a || a < b { '1' } else { '0' });
    s.push(if h(a) == h(b) { 'h' } else { 'd' });
    s
}
pub struct Str(pub String);
impl Out for Str { fn out(&self) -> String { self.0.clone() } }
pub fn std_flags<T: Ord + Hash + Clone>(a: &T, b: &T) -> Str { Str(format!("c{}", flags(a, b))) }

/// A history: registers, then steps "op:dst:src" applied in place to the same
/// live objects. The state of the destination is recorded after every step.
fn hist_u(args: &[&str]) -> String {
    let mut r: Vec<U> = Vec::<U>::parse(args[0]);
    let mut o = vec![];
    for st in args[1].split(',') {
        let p: Vec<&str> = st.split(':').collect();
        let d: usize = p[1].parse().unwrap();
        let n: u64 = p[2].parse().unwrap();
        let src = r[(n as usize) % r.len()].clone();
        let before = src.raw();
        let w = n as u32;
        match p[0] {
            "add" => r[d].add_mut(&src), "sub" => r[d].sub_mut(&src), "mul" => r[d].mul_mut(&src),
            "div" => r[d].div_mut(&src), "rem" => r[d].rem_mut(&src),
            "add32" => r[d].add_u32_mut(w), "sub32" => r[d].sub_u32_mut(w), "mul32" => r[d].mul_u32_mut(w),
            "div32" => r[d].div_u32_mut(w), "rem32" => r[d].rem_u32_mut(w),
            "mulp2" => r[d].mul_pow2_mut(w), "shl" => r[d].shift_left_mut(w as usize), "shr" => r[d].shift_right_mut(w as usize),
            "slice" => r[d].slice_right_mut(w as usize), "pow" => r[d].pow_u32_mut(w),
            "mov" => r[d] = src.clone(),
            "absd" => r[d] = r[d].abs_diff(&src),
            "gcd" => r[d] = gcd_ubi(&r[d], &src),
            "sqrt" => r[d] = r[d].sqrt(),
            x => panic!("harness: hist op {}", x),
        }
        let mut s = r[d].out();
        if src.raw() != before { s.push_str("~impure"); }
        let fresh = U::from_raw(crate::wire::limbs_from_hex(s.trim_start_matches('!').split('~').next().unwrap()));
        if fresh != r[d] || h(&fresh) != h(&r[d]) { s.push_str("~neq"); }
        o.push(s);
    }
    o.join(",")
}
fn hist_b(args: &[&str]) -> String {
    let mut r: Vec<B> = Vec::<B>::parse(args[0]);
    let mut o = vec![];
    for st in args[1].split(',') {
        let p: Vec<&str> = st.split(':').collect();
        let d: usize = p[1].parse().unwrap();
        let n: i64 = p[2].parse().unwrap();
        let l = r.len();
        let src = r[(n.unsigned_abs() as usize) % l].clone();
        let before = src.raw();
        let w = n as i32;
        match p[0] {
            "add" => r[d].add_mut(&src), "sub" => r[d].sub_mut(&src), "mul" => r[d].mul_mut(&src),
            "div" => r[d].div_mut(&src), "rem" => r[d].rem_mut(&src),
            "add32" => r[d].add_i32_mut(w), "sub32" => r[d].sub_i32_mut(w), "mul32" => r[d].mul_i32_mut(w),
            "div32" => r[d].div_i32_mut(w), "rem32" => r[d].rem_i32_mut(w),
            "mulp2" => r[d].mul_pow2_mut(w as u32), "shl" => r[d].shift_left_mut(w as usize), "shr" => r[d].shift_right_mut(w as usize),
            "slice" => r[d].slice_right_mut(w as usize), "pow" => r[d].pow_u32_mut(w as u32),
            "neg" => r[d].neg_mut(), "abs" => r[d].abs_mut(),
            "mov" => r[d] = src.clone(),
            x => panic!("harness: hist op {}", x),
        }
        let mut s = r[d].out();
        if src.raw() != before { s.push_str("~impure"); }
        let fresh = B::parse(s.trim_start_matches('!').split('~').next().unwrap());
        if fresh != r[d] || h(&fresh) != h(&r[d]) { s.push_str("~neq"); }
        o.push(s);
    }
    o.join(",")
}

pub fn register(m: &mut Ops) {
    bin!(m, "u", U, U; add, sub, mul, div, rem, abs_diff, lt, gt, eq, neq, leq, geq, comp);
    bin_mut!(m, "u", U, U; add_mut, sub_mut, mul_mut, div_mut, rem_mut);
    sc!(m, "u", U, u32; add_u32, sub_u32, mul_u32, div_u32, rem_u32, abs_diff_u32, rem_pow2, mul_pow2, pow_u32,
        lt_u32, gt_u32, eq_u32, neq_u32, leq_u32, geq_u32, comp_u32);
    sc_mut!(m, "u", U, u32; add_u32_mut, sub_u32_mut, mul_u32_mut, div_u32_mut, rem_u32_mut, mul_pow2_mut, pow_u32_mut);
    sc!(m, "u", U, usize; shift_left, shift_right, slice_right);
    sc_mut!(m, "u", U, usize; shift_left_mut, shift_right_mut, slice_right_mut);
    un!(m, "u", U; sqrt, log2, log2_accurate, is_prime, prime_factorial, len, is_zero, is_one,
        to_u32, to_u64, to_u128, to_string_dec);
    sc!(m, "u", U, bool; to_string_hex, to_string_oct, to_string_bin);
    sc!(m, "u", U, usize; to_scientific_notation);
    op!(m, "u.std_cmp", |a: U, b: U| std_flags(&a, &b));
    op!(m, "u.std_ops", |a: U, b: U| (a.clone().max(b.clone()), a.clone().min(b.clone())));
    op!(m, "u.mul_self", |a: U| a.mul(&a));
    op!(m, "u.add_self", |a: U| a.add(&a));
    op!(m, "u.sub_self", |a: U| a.sub(&a));
    op!(m, "u.div_self", |a: U| a.div(&a));
    op!(m, "u.rem_self", |a: U| a.rem(&a));
    op!(m, "u.gcd", |a: U, b: U| gcd_ubi(&a, &b));
    op!(m, "u.sum", |v: Vec<U>| v.clone().into_iter().sum::<U>());
    op!(m, "u.product", |v: Vec<U>| v.clone().into_iter().product::<U>());
    op!(m, "u.pow2", |e: u32| U::pow2(e));
    op!(m, "u.exp2", |e: u64| U::exp2(e));
    op!(m, "u.explog", |a: U| U::exp2_accurate(&a.log2_accurate()));
    op!(m, "u.exp2_accurate", |a: U| U::exp2_accurate(&a));
    op!(m, "u.factorial", |n: u32| U::factorial(n));
    op!(m, "u.fibonacci", |n: u32| U::fibonacci(n));
    op!(m, "u.consts", |_x: u32| vec![U::zero(), U::one(), U::default()]);
    op!(m, "u.rawround", |a: U| U::from_raw(a.clone().into_raw()));
    op!(m, "u.from_u32", |n: u32| U::from_u32(n));
    op!(m, "u.from_u64", |n: u64| U::from_u64(n));
    op!(m, "u.from_u128", |n: u128| U::from_u128(n));
    op!(m, "u.from_string", |s: String| U::from_string(&s));
    op!(m, "u.from_str", |s: String| vec![s.parse::<U>(), U::try_from(s.as_str()), U::try_from(s.clone())]);
    op!(m, "u.fmt", |a: U| vec![format!("{}", a), format!("{:x}", a), format!("{:#x}", a), format!("{:o}", a), format!("{:#o}", a), format!("{:b}", a), format!("{:#b}", a)]);
    op!(m, "u.fmt_e", |a: U| format!("{:e}", a));
    fromto!(m, "u", U; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool);
    op!(m, "u.from.f32", |a: f32| (U::try_from(a), U::try_from(&a)));
    op!(m, "u.from.f64", |a: f64| (U::try_from(a), U::try_from(&a)));
    op!(m, "u.to.f32", |a: U| (f32::try_from(&a), f32::try_from(&a)));
    op!(m, "u.to.f64", |a: U| (f64::try_from(&a), f64::try_from(&a)));
    op!(m, "u.to_b", |a: U| vec![B::from(&a), B::from(a.clone())]);
    op!(m, "u.to_r", |a: U| vec![Ratio::from(&a), Ratio::from(a.clone())]);
    op!(m, "u.random", |n: usize, k: usize| (0..k).map(|_| U::random(n)).collect::<Vec<_>>());
    m.insert("u.hist", Box::new(hist_u));
    m.insert("b.hist", Box::new(hist_b));

    bin!(m, "b", B, B; add, sub, mul, div, rem, lt, gt, eq, neq, leq, geq, comp);
    bin_mut!(m, "b", B, B; add_mut, sub_mut, mul_mut, div_mut, rem_mut);
    sc!(m, "b", B, i32; add_i32, sub_i32, mul_i32, div_i32, rem_i32, rem_pow2,
        lt_i32, gt_i32, eq_i32, neq_i32, leq_i32, geq_i32, comp_i32);
    sc_mut!(m, "b", B, i32; add_i32_mut, sub_i32_mut, mul_i32_mut, div_i32_mut, rem_i32_mut);
    sc!(m, "b", B, u32; mul_pow2, pow_u32);
    sc_mut!(m, "b", B, u32; mul_pow2_mut, pow_u32_mut);
    sc!(m, "b", B, usize; shift_left, shift_right, slice_right);
    sc_mut!(m, "b", B, usize; shift_left_mut, shift_right_mut, slice_right_mut);
    un!(m, "b", B; sqrt, log2, log2_accurate, is_prime, prime_factorial, len, is_zero, is_one, is_neg, neg, abs,
        to_i32, to_i64, to_i128, to_ubi, to_string_dec);
    un_mut!(m, "b", B; neg_mut, abs_mut);
    sc!(m, "b", B, bool; to_string_hex, to_string_oct, to_string_bin);
    sc!(m, "b", B, usize; to_scientific_notation);
    op!(m, "b.std_cmp", |a: B, b: B| std_flags(&a, &b));
    op!(m, "b.mul_self", |a: B| a.mul(&a));
    op!(m, "b.sub_self", |a: B| a.sub(&a));
    op!(m, "b.gcd", |a: B, b: B| gcd_bi(&a, &b));
    op!(m, "b.pow2", |e: u32| B::pow2(e));
    op!(m, "b.exp2", |e: u64| B::exp2(e));
    op!(m, "b.factorial", |n: u32| B::factorial(n));
    op!(m, "b.fibonacci", |n: u32| B::fibonacci(n));
    op!(m, "b.consts", |_x: u32| vec![B::zero(), B::one(), B::default()]);
    op!(m, "b.from_ubi", |a: U, n: bool| B::from_ubi(a.clone(), n));
    op!(m, "b.from_i32", |n: i32| B::from_i32(n));
    op!(m, "b.from_i64", |n: i64| B::from_i64(n));
    op!(m, "b.from_i128", |n: i128| B::from_i128(n));
    op!(m, "b.from_string", |s: String| B::from_string(&s));
    op!(m, "b.from_str", |s: String| vec![s.parse::<B>(), B::try_from(s.as_str()), B::try_from(s.clone())]);
    op!(m, "b.fmt", |a: B| vec![format!("{}", a), format!("{:x}", a), format!("{:#x}", a), format!("{:o}", a), format!("{:#o}", a), format!("{:b}", a), format!("{:#b}", a)]);
    op!(m, "b.fmt_e", |a: B| format!("{:e}", a));
    fromto!(m, "b", B; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool);
    op!(m, "b.to_u", |a: B| vec![U::try_from(&a), U::try_from(a.clone())]);
    op!(m, "b.to_r", |a: B| vec![Ratio::from(&a), Ratio::from(a.clone())]);
    op!(m, "b.random", |n: usize, k: usize| (0..k).map(|_| B::random(n)).collect::<Vec<_>>());

    // the public helpers
    op!(m, "utils.gcd_i32", |a: i32, b: i32| utils::gcd_i32(a, b));
    op!(m, "utils.v32_to_v64", |v: Vec<u32>| utils::v32_to_v64(&v));
    op!(m, "utils.v64_to_v32", |v: Vec<u64>| utils::v64_to_v32(v.clone()));
    op!(m, "utils.remove_suffix_0", |v: Vec<u32>| { let mut w = v.clone(); utils::remove_suffix_0(&mut w); w });
}
