//! Entry points over the public interface of fxd; the checks execute their LLVM IR symbolically,
//! and the replay binary calls the same functions natively.
use fxd::{Error, FixedDecimal as F};
use std::hash::{Hash, Hasher};
use std::mem::MaybeUninit;

fn ecode(e: &Error) -> i32 {
    match e {
        Error::ConversionSyntax => 1,
        Error::DivisionByZero => 2,
        Error::Overflow => 3,
        Error::ExceedsConversionTargetRange => 4,
        #[allow(unreachable_patterns)]
        _ => 9,
    }
}

fn code(r: Result<(), Error>) -> i32 {
    match r {
        Ok(()) => 0,
        Err(e) => ecode(&e),
    }
}

#[no_mangle]
pub extern "C-unwind" fn h_add(l: &F, r: &F, res: &mut F) -> i32 {
    code(F::add_to(l, r, res))
}
#[no_mangle]
pub extern "C-unwind" fn h_sub(l: &F, r: &F, res: &mut F) -> i32 {
    code(F::sub_to(l, r, res))
}
#[no_mangle]
pub extern "C-unwind" fn h_mul(l: &F, r: &F, res: &mut F) -> i32 {
    code(F::mul_to(l, r, res))
}
#[no_mangle]
pub extern "C-unwind" fn h_div(l: &F, r: &F, res: &mut F, n: usize) -> i32 {
    code(F::div_to(l, r, res, n))
}
#[no_mangle]
pub extern "C-unwind" fn h_rem(l: &F, r: &F, res: &mut F) -> i32 {
    code(F::rem_to(l, r, res))
}

// operators take their operands by value
#[no_mangle]
pub extern "C-unwind" fn h_op_add(l: &F, r: &F, res: &mut MaybeUninit<F>) {
    res.write(l.clone() + r.clone());
}
#[no_mangle]
pub extern "C-unwind" fn h_op_sub(l: &F, r: &F, res: &mut MaybeUninit<F>) {
    res.write(l.clone() - r.clone());
}
#[no_mangle]
pub extern "C-unwind" fn h_op_mul(l: &F, r: &F, res: &mut MaybeUninit<F>) {
    res.write(l.clone() * r.clone());
}
#[no_mangle]
pub extern "C-unwind" fn h_op_div(l: &F, r: &F, res: &mut MaybeUninit<F>) {
    res.write(l.clone() / r.clone());
}
#[no_mangle]
pub extern "C-unwind" fn h_op_rem(l: &F, r: &F, res: &mut MaybeUninit<F>) {
    res.write(l.clone() % r.clone());
}

#[no_mangle]
pub extern "C-unwind" fn h_cmp(l: &F, r: &F) -> i32 {
    l.cmp(r) as i32
}
#[no_mangle]
pub extern "C-unwind" fn h_pcmp(l: &F, r: &F) -> i32 {
    match l.partial_cmp(r) {
        None => 2,
        Some(o) => o as i32,
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_rel(l: &F, r: &F, k: u32) -> bool {
    match k {
        0 => l == r,
        1 => l != r,
        2 => l < r,
        3 => l <= r,
        4 => l > r,
        _ => l >= r,
    }
}

/// Records the calls made on a Hasher: (kind, value) pairs.
pub struct Rec<'a> {
    buf: &'a mut [u64; 128],
    n: usize,
}
impl Rec<'_> {
    fn put(&mut self, kind: u64, v: u64) {
        self.buf[self.n] = kind;
        self.buf[self.n + 1] = v;
        self.n += 2;
    }
}
impl Hasher for Rec<'_> {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.put(1, *b as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.put(2, v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.put(3, v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.put(4, v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.put(5, v)
    }
    fn write_usize(&mut self, v: usize) {
        self.put(6, v as u64)
    }
    fn write_i8(&mut self, v: i8) {
        self.put(7, v as u8 as u64)
    }
    fn write_i16(&mut self, v: i16) {
        self.put(8, v as u16 as u64)
    }
    fn write_i32(&mut self, v: i32) {
        self.put(9, v as u32 as u64)
    }
    fn write_i64(&mut self, v: i64) {
        self.put(10, v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.put(11, v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.put(12, v as u64);
        self.put(12, (v >> 64) as u64);
    }
    fn write_i128(&mut self, v: i128) {
        self.put(13, v as u64);
        self.put(13, (v >> 64) as u64);
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_hash(l: &F, buf: &mut [u64; 128]) -> usize {
    let mut r = Rec { buf, n: 0 };
    l.hash(&mut r);
    r.n
}

#[no_mangle]
pub extern "C-unwind" fn h_round(l: &mut F, n: isize) {
    l.round(n)
}
#[no_mangle]
pub extern "C-unwind" fn h_round_to(l: &F, r: &mut F, n: isize) {
    l.round_to(r, n)
}

#[no_mangle]
pub extern "C-unwind" fn h_parse(res: &mut F, p: *const u8, n: usize, reset: bool) -> i32 {
    code(res.from_bytes_str(unsafe { std::slice::from_raw_parts(p, n) }, reset))
}
#[no_mangle]
pub extern "C-unwind" fn h_parse_str(res: &mut F, p: *const u8, n: usize, reset: bool) -> i32 {
    code(res.from_ascii_str(
        unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) },
        reset,
    ))
}
/// FromStr
#[no_mangle]
pub extern "C-unwind" fn h_fromstr(res: &mut F, p: *const u8, n: usize) -> i32 {
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    match s.parse::<F>() {
        Ok(v) => {
            *res = v;
            0
        }
        Err(e) => ecode(&e),
    }
}

/// text into buf; returns its length. `pre` bytes are already in the output vector.
#[no_mangle]
pub extern "C-unwind" fn h_str(l: &F, n: isize, out: &mut [u8; 4096]) -> usize {
    let s = l.to_string(n);
    let b = s.as_bytes();
    out[..b.len()].copy_from_slice(b);
    b.len()
}
#[no_mangle]
pub extern "C-unwind" fn h_append(l: &F, n: isize, out: &mut [u8; 4096]) -> usize {
    let mut v: Vec<u8> = Vec::with_capacity(2048);
    v.push(b'x');
    v.push(b'y');
    l.append_str_buf(&mut v, n);
    out[..v.len()].copy_from_slice(&v);
    v.len()
}

#[no_mangle]
pub extern "C-unwind" fn h_as_i64(l: &F, out: &mut i64) -> i32 {
    match l.as_i64() {
        Ok(v) => {
            *out = v;
            0
        }
        Err(e) => ecode(&e),
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_as_u64(l: &F, out: &mut u64) -> i32 {
    match l.as_u64() {
        Ok(v) => {
            *out = v;
            0
        }
        Err(e) => ecode(&e),
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_from_i64(v: i64, out: &mut MaybeUninit<F>) {
    out.write(F::from(v));
}
#[no_mangle]
pub extern "C-unwind" fn h_from_u64(v: u64, out: &mut MaybeUninit<F>) {
    out.write(F::from(v));
}
#[no_mangle]
pub extern "C-unwind" fn h_zero(out: &mut MaybeUninit<F>) {
    out.write(F::zero());
}
#[no_mangle]
pub extern "C-unwind" fn h_one(out: &mut MaybeUninit<F>) {
    out.write(F::one());
}
#[no_mangle]
pub extern "C-unwind" fn h_set(l: &mut F, k: u32) {
    match k {
        0 => l.set_zero(),
        1 => l.set_one(),
        2 => l.set_neg(),
        _ => l.set_pos(),
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_query(l: &F, out: &mut [u64; 6]) {
    out[0] = l.is_zero() as u64;
    out[1] = l.is_neg() as u64;
    out[2] = l.intg() as i64 as u64;
    out[3] = l.frac() as i64 as u64;
    out[4] = l.intg_units() as u64;
    out[5] = l.frac_units() as u64;
}
#[no_mangle]
pub extern "C-unwind" fn h_clone(l: &F, out: &mut MaybeUninit<F>) {
    out.write(l.clone());
}
