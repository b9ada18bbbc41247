// rmon: "<u|b|r|m> <scale> <word,word,...>" per line; prints what the generator makes of these random words.
use hmath::*;
use std::io::BufRead;
use std::panic;

fn hex(v: &[u32]) -> String {
    let mut s = String::new();
    for x in v.iter().rev() { s.push_str(&format!("{:08x}", x)); }
    let bad = v.is_empty() || (v.len() > 1 && v[v.len() - 1] == 0);
    let t = s.trim_start_matches('0');
    format!("{}{}", if t.is_empty() { "0" } else { t }, if bad { "!" } else { "" })
}
fn big(b: BigInt) -> String { let (v, n) = b.into_raw(); format!("{}{}", if n { "-" } else { "" }, hex(&v)) }
fn rat(r: Ratio) -> String { let (d, dn, n, nn) = r.into_raw(); format!("{}{}/{}", if dn != nn { "-" } else { "" }, hex(&n), hex(&d)) }

fn main() {
    panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split(' ').collect();
        let k: usize = p[1].parse().unwrap();
        rand::set_script(p[2].split(',').map(|x| x.parse().unwrap()).collect());
        let r = panic::catch_unwind(|| match p[0] {
            "u" => hex(&UBigInt::random(k).into_raw()),
            "b" => big(BigInt::random(k)),
            "r" => rat(Ratio::random()),
            _ => { let m = Matrix::random(2, 1); format!("{},{}", rat(m.get(0, 0).clone()), rat(m.get(0, 1).clone())) }
        });
        match r { Ok(s) => println!("{}", s), Err(_) => println!("PANIC") }
    }
}
