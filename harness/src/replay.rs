//! Native replay: one command per line on stdin, one answer line each.
//!   layout
//!   FN ARG...   where an ARG is  d:<80 hex>  (decimal, raw bytes)  |  n:<int>  |  b:<hex bytes>
//! Answer: "ok <code-or-value> <80 hex of the result decimal> <hex bytes>" or "panic".
use std::io::{BufRead, Write};
use std::mem::MaybeUninit;
use vh::*;
type F = fxd::FixedDecimal;

const SZ: usize = std::mem::size_of::<F>();

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn dec(s: &str) -> F {
    let b = unhex(s);
    assert_eq!(b.len(), SZ);
    let mut m = MaybeUninit::<F>::uninit();
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), m.as_mut_ptr() as *mut u8, SZ);
        m.assume_init()
    }
}
fn raw(f: &F) -> String {
    let mut z = [0u8; SZ];
    unsafe { std::ptr::copy_nonoverlapping(f as *const F as *const u8, z.as_mut_ptr(), SZ) };
    hex(&z)
}

enum A {
    D(F),
    N(i128),
    B(Vec<u8>),
}

fn run(w: &[&str]) -> String {
    let args: Vec<A> = w[1..]
        .iter()
        .map(|x| match &x[..2] {
            "d:" => A::D(dec(&x[2..])),
            "n:" => A::N(x[2..].parse().unwrap()),
            "b:" => A::B(unhex(&x[2..])),
            _ => panic!("bad argument"),
        })
        .collect();
    let d = |i: usize| match &args[i] {
        A::D(f) => unsafe { std::ptr::read(f) },
        _ => panic!("decimal expected"),
    };
    let n = |i: usize| match &args[i] {
        A::N(v) => *v,
        _ => panic!("number expected"),
    };
    let b = |i: usize| match &args[i] {
        A::B(v) => v.clone(),
        _ => panic!("bytes expected"),
    };
    let mut out = Box::new([0u8; 4096]);
    let mut un = MaybeUninit::<F>::zeroed();
    let bin = |f: extern "C-unwind" fn(&F, &F, &mut F) -> i32| {
        let (l, r, mut res) = (d(0), d(1), d(2));
        let c = f(&l, &r, &mut res);
        format!("ok {} {} {}{}", c, raw(&res), raw(&l), raw(&r))
    };
    let op = |f: extern "C-unwind" fn(&F, &F, &mut MaybeUninit<F>)| {
        let (l, r) = (d(0), d(1));
        let mut un = MaybeUninit::<F>::zeroed();
        f(&l, &r, &mut un);
        format!("ok 0 {} -", raw(&unsafe { un.assume_init() }))
    };
    match w[0] {
        "h_add" => bin(h_add),
        "h_sub" => bin(h_sub),
        "h_mul" => bin(h_mul),
        "h_rem" => bin(h_rem),
        "h_div" => {
            let (l, r, mut res) = (d(0), d(1), d(2));
            let c = h_div(&l, &r, &mut res, n(3) as usize);
            format!("ok {} {} {}{}", c, raw(&res), raw(&l), raw(&r))
        }
        "h_op_add" => op(h_op_add),
        "h_op_sub" => op(h_op_sub),
        "h_op_mul" => op(h_op_mul),
        "h_op_div" => op(h_op_div),
        "h_op_rem" => op(h_op_rem),
        "h_cmp" => format!("ok {} - -", h_cmp(&d(0), &d(1))),
        "h_pcmp" => format!("ok {} - -", h_pcmp(&d(0), &d(1))),
        "h_rel" => format!("ok {} - -", h_rel(&d(0), &d(1), n(2) as u32) as i32),
        "h_hash" => {
            let mut buf = Box::new([0u64; 128]);
            let k = h_hash(&d(0), &mut buf);
            let bytes: Vec<u8> = buf[..k].iter().flat_map(|x| x.to_le_bytes()).collect();
            format!("ok {} - {}", k, hex(&bytes))
        }
        "h_round" => {
            let mut l = d(0);
            h_round(&mut l, n(1) as isize);
            format!("ok 0 {} -", raw(&l))
        }
        "h_round_to" => {
            let (l, mut r) = (d(0), d(1));
            h_round_to(&l, &mut r, n(2) as isize);
            format!("ok 0 {} {}", raw(&r), raw(&l))
        }
        "h_parse" | "h_parse_str" => {
            let mut l = d(0);
            let s = b(1);
            let f = if w[0] == "h_parse" { h_parse } else { h_parse_str };
            let c = f(&mut l, s.as_ptr(), s.len(), n(2) != 0);
            format!("ok {} {} -", c, raw(&l))
        }
        "h_fromstr" => {
            let mut l = d(0);
            let s = b(1);
            let c = h_fromstr(&mut l, s.as_ptr(), s.len());
            format!("ok {} {} -", c, raw(&l))
        }
        "h_str" => {
            let k = h_str(&d(0), n(1) as isize, &mut out);
            format!("ok {} - {}", k, hex(&out[..k]))
        }
        "h_append" => {
            let k = h_append(&d(0), n(1) as isize, &mut out);
            format!("ok {} - {}", k, hex(&out[..k]))
        }
        "h_as_i64" => {
            let mut v = 0;
            let c = h_as_i64(&d(0), &mut v);
            format!("ok {} - {}", c, hex(&v.to_le_bytes()))
        }
        "h_as_u64" => {
            let mut v = 0;
            let c = h_as_u64(&d(0), &mut v);
            format!("ok {} - {}", c, hex(&v.to_le_bytes()))
        }
        "h_from_i64" => {
            h_from_i64(n(0) as i64, &mut un);
            format!("ok 0 {} -", raw(&unsafe { un.assume_init() }))
        }
        "h_from_u64" => {
            h_from_u64(n(0) as u64, &mut un);
            format!("ok 0 {} -", raw(&unsafe { un.assume_init() }))
        }
        "h_zero" => {
            h_zero(&mut un);
            format!("ok 0 {} -", raw(&unsafe { un.assume_init() }))
        }
        "h_one" => {
            h_one(&mut un);
            format!("ok 0 {} -", raw(&unsafe { un.assume_init() }))
        }
        "h_set" => {
            let mut l = d(0);
            h_set(&mut l, n(1) as u32);
            format!("ok 0 {} -", raw(&l))
        }
        "h_query" => {
            let mut v = [0u64; 6];
            h_query(&d(0), &mut v);
            let bytes: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
            format!("ok 0 - {}", hex(&bytes))
        }
        "h_clone" => {
            let l = d(0);
            h_clone(&l, &mut un);
            format!("ok 0 {} {}", raw(&unsafe { un.assume_init() }), raw(&l))
        }
        _ => "unknown".to_string(),
    }
}

fn layout() -> String {
    // raw bytes of a few parsed values, from which the driver infers where the fields are
    let mut s = format!("ok {}", SZ);
    for t in ["0", "12.345", "-12.345", "123456789000000001.00000000200000000300000000400000000500000000600000"] {
        let mut un = MaybeUninit::<F>::zeroed();
        h_zero(&mut un);
        let mut f = unsafe { un.assume_init() };
        let c = h_parse(&mut f, t.as_ptr(), t.len(), true);
        s += &format!(" {}:{}", c, raw(&f));
    }
    s
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut so = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        let ans = if w[0] == "layout" {
            layout()
        } else {
            match std::panic::catch_unwind(|| run(&w)) {
                Ok(s) => s,
                Err(_) => "panic".to_string(),
            }
        };
        writeln!(so, "{}", ans).unwrap();
        so.flush().unwrap();
    }
}
