// Wire format between the Python monitors and the code under test. Values are
// put into and taken out of hmath through raw limbs only, so that a defect in
// hmath's own parsing or printing cannot hide a defect elsewhere.
use hmath::*;

pub fn limbs_from_hex(s: &str) -> Vec<u32> {
    let s = s.as_bytes();
    let mut v = Vec::with_capacity(s.len() / 8 + 1);
    let mut end = s.len();
    while end > 0 {
        let st = end.saturating_sub(8);
        let t = std::str::from_utf8(&s[st..end]).unwrap();
        v.push(u32::from_str_radix(t, 16).expect("hex limb"));
        end = st;
    }
    while v.len() > 1 && *v.last().unwrap() == 0 { v.pop(); }
    if v.is_empty() { v.push(0); }
    v
}

/// raw limbs, most significant first, separated by nothing when canonical.
/// "!" prefix marks a representation that is not canonical.
pub fn limbs_out(v: &[u32]) -> String {
    use std::fmt::Write;
    let mut s = String::with_capacity(v.len() * 8 + 2);
    if v.is_empty() || (v.len() > 1 && v[v.len() - 1] == 0) { s.push('!'); }
    if v.is_empty() { s.push('0'); return s; }
    let mut first = true;
    for x in v.iter().rev() {
        if first { write!(s, "{:x}", x).unwrap(); first = false; }
        else { write!(s, "{:08x}", x).unwrap(); }
    }
    s
}

pub fn signed_out(v: &[u32], neg: bool) -> String {
    let l = limbs_out(v);
    let zero = v.iter().all(|x| *x == 0);
    match (neg, zero) {
        (true, true) => format!("!-{}", l.trim_start_matches('!')),
        (true, false) => if let Some(r) = l.strip_prefix('!') { format!("!-{}", r) } else { format!("-{}", l) },
        _ => l,
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

pub trait Arg: Sized {
    fn parse(s: &str) -> Self;
    /// exact image of the value, for the operand-purity monitor
    fn raw(&self) -> String { String::new() }
}
pub trait Out { fn out(&self) -> String; }

impl Arg for UBigInt {
    fn parse(s: &str) -> Self { UBigInt::from_raw(limbs_from_hex(s)) }
    fn raw(&self) -> String { limbs_out(&self.clone().into_raw()) }
}
impl Out for UBigInt { fn out(&self) -> String { limbs_out(&self.clone().into_raw()) } }

impl Arg for BigInt {
    fn parse(s: &str) -> Self {
        let (neg, t) = match s.strip_prefix('-') { Some(t) => (true, t), None => (false, s) };
        BigInt::from_raw(limbs_from_hex(t), neg)
    }
    fn raw(&self) -> String { self.out() }
}
impl Out for BigInt {
    fn out(&self) -> String { let (v, n) = self.clone().into_raw(); signed_out(&v, n) }
}

impl Arg for Ratio {
    fn parse(s: &str) -> Self {
        let (n, d) = match s.split_once('/') { Some(x) => x, None => (s, "1") };
        let (neg, t) = match n.strip_prefix('-') { Some(t) => (true, t), None => (false, n) };
        Ratio::from_raw(limbs_from_hex(d), false, limbs_from_hex(t), neg)
    }
    fn raw(&self) -> String { self.out() }
}
impl Out for Ratio {
    fn out(&self) -> String {
        let (d, dn, n, nn) = self.clone().into_raw();
        format!("{}/{}", signed_out(&n, nn), signed_out(&d, dn))
    }
}

/// An F192 travels as an exact rational `num/den`, optionally followed by
/// `@k`: the value times 2^k (k may be huge, so it is applied with shl/shr).
impl Arg for F192 {
    fn parse(s: &str) -> Self {
        let (r, k) = match s.split_once('@') { Some((r, k)) => (r, k.parse::<i64>().unwrap()), None => (s, 0) };
        // dyadic values of at most 128 bits are built exactly, without rounding
        let (n, d) = r.split_once('/').unwrap();
        let (neg, n) = match n.strip_prefix('-') { Some(n) => (true, n), None => (false, n) };
        let d0 = d.trim_end_matches('0');
        let f = if n.len() <= 32 && matches!(d0, "1" | "2" | "4" | "8") {
            let f = F192::from(u128::from_str_radix(n, 16).unwrap());
            let k = 4 * (d.len() - d0.len()) as u64 + match d0 { "1" => 0, "2" => 1, "4" => 2, _ => 3 };
            let f = if k == 0 { f } else { f.shr(k) };
            if neg { f.neg() } else { f }
        } else {
            F192::from(Ratio::parse(r))
        };
        if k > 0 { f.shl(k as u64) } else if k < 0 { f.shr((-k) as u64) } else { f }
    }
    fn raw(&self) -> String { format!("{:?}", self) }
}
impl Out for F192 {
    fn out(&self) -> String {
        // keep the exponent of the rational image small enough to print
        if *self == F192::ZERO { return "0/1".into(); }
        let m = self.abs();
        if m < F192::ONE.shl(6000) && m > F192::ONE.shr(6000) { return Ratio::from(*self).out(); }
        let e = i64::try_from(i128::try_from(m.ilog2()).expect("ilog2 is an integer")).unwrap();
        if e > 6000 { format!("{}@{}", Ratio::from(self.shr(e as u64)).out(), e) }
        else if e < -6000 { format!("{}@{}", Ratio::from(self.shl((-e) as u64)).out(), e) }
        else { Ratio::from(*self).out() }
    }
}

macro_rules! ints { ($($t:ty),*) => { $(
    impl Arg for $t { fn parse(s: &str) -> Self { s.parse().unwrap_or_else(|_| panic!("harness: int {}", s)) } }
    impl Out for $t { fn out(&self) -> String { format!("i{}", self) } }
)* } }
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

impl Arg for bool { fn parse(s: &str) -> Self { s == "1" } }
impl Out for bool { fn out(&self) -> String { if *self { "b1".into() } else { "b0".into() } } }
impl Arg for f32 { fn parse(s: &str) -> Self { f32::from_bits(u32::from_str_radix(s, 16).unwrap()) } }
impl Arg for f64 { fn parse(s: &str) -> Self { f64::from_bits(u64::from_str_radix(s, 16).unwrap()) } }
impl Out for f32 { fn out(&self) -> String { format!("f{:x}", self.to_bits()) } }
impl Out for f64 { fn out(&self) -> String { format!("d{:x}", self.to_bits()) } }
impl Arg for String {
    fn parse(s: &str) -> Self { String::from_utf8(unhex(&s[1..])).unwrap() }
    fn raw(&self) -> String { self.clone() }
}
impl Out for String { fn out(&self) -> String { format!("s{}", hex(self.as_bytes())) } }
pub struct Bytes(pub Vec<u8>);
impl Arg for Bytes { fn parse(s: &str) -> Self { Bytes(unhex(&s[1..])) } }
impl Out for Bytes { fn out(&self) -> String { format!("s{}", hex(&self.0)) } }
impl Out for std::cmp::Ordering {
    fn out(&self) -> String { match self { std::cmp::Ordering::Less => "o-".into(), std::cmp::Ordering::Equal => "o0".into(), _ => "o+".into() } }
}
impl Out for () { fn out(&self) -> String { "u".into() } }

/// which error: only the constructor name, never its text
impl Out for ConversionError {
    fn out(&self) -> String {
        match self {
            ConversionError::NoData => "NoData",
            ConversionError::InvalidChar(_) => "InvalidChar",
            ConversionError::NotInRange { .. } => "NotInRange",
            ConversionError::UnexpectedEnd => "UnexpectedEnd",
            ConversionError::Infinity => "Infinity",
            ConversionError::NegInfinity => "NegInfinity",
            ConversionError::NotANumber => "NotANumber",
            ConversionError::TryFromIntError => "TryFromIntError",
        }.to_string()
    }
}
impl Out for MatrixError {
    fn out(&self) -> String {
        match self {
            MatrixError::WrongDimension { .. } => "WrongDimension",
            MatrixError::InconsistetRow => "InconsistetRow",
            MatrixError::NotSquare(_, _) => "NotSquare",
            MatrixError::EmptyMatrix => "EmptyMatrix",
            MatrixError::ZeroDeterminant => "ZeroDeterminant",
        }.to_string()
    }
}
impl Out for std::convert::Infallible { fn out(&self) -> String { "".into() } }
impl<T: Out, E: Out> Out for Result<T, E> {
    fn out(&self) -> String { match self { Ok(t) => t.out(), Err(e) => format!("E{}", e.out()) } }
}
impl<T: Out> Out for Vec<T> {
    fn out(&self) -> String { format!("[{}]", self.iter().map(|x| x.out()).collect::<Vec<_>>().join(",")) }
}
impl<A: Out, B: Out> Out for (A, B) { fn out(&self) -> String { format!("{} {}", self.0.out(), self.1.out()) } }
impl<A: Out, B: Out, C: Out> Out for (A, B, C) { fn out(&self) -> String { format!("{} {} {}", self.0.out(), self.1.out(), self.2.out()) } }
impl<T: Arg> Arg for Vec<T> {
    fn parse(s: &str) -> Self {
        let t = &s[1..s.len() - 1];
        if t.is_empty() { vec![] } else { t.split(',').map(T::parse).collect() }
    }
    fn raw(&self) -> String { self.iter().map(|x| x.raw()).collect::<Vec<_>>().join(",") }
}

/// rows separated by ';', cells by ','; "cols x rows" is derived by the monitor
#[derive(Clone)]
pub struct Rows(pub Vec<Vec<Ratio>>);
impl Arg for Rows {
    fn parse(s: &str) -> Self {
        let t = &s[1..s.len() - 1];
        if t.is_empty() { return Rows(vec![]); }
        Rows(t.split(';').map(|r| if r == "_" { vec![] } else { r.split(',').map(Ratio::parse).collect() }).collect())
    }
}
impl Arg for Matrix {
    fn parse(s: &str) -> Self { Matrix::from_vec(Rows::parse(s).0).expect("harness: consistent rows") }
    fn raw(&self) -> String { format!("{:?}", self) }
}
pub struct MDim<'a>(pub &'a Matrix, pub usize, pub usize);
impl<'a> Out for MDim<'a> {
    // rows x cols cells read through get()
    fn out(&self) -> String {
        let mut rows = vec![];
        for i in 0..self.1 {
            let r: Vec<String> = (0..self.2).map(|j| self.0.get(i, j).out()).collect();
            rows.push(if r.is_empty() { "_".to_string() } else { r.join(",") });
        }
        format!("[{}]", rows.join(";"))
    }
}
impl Arg for Polynomial {
    fn parse(s: &str) -> Self { Polynomial::from_vec(Vec::<Ratio>::parse(s)) }
    fn raw(&self) -> String { self.out() }
}
impl Out for Polynomial { fn out(&self) -> String { self.to_vec().out() } }
