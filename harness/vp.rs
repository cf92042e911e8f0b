//! Harness API.  Under the symbolic engine the `vp_*` functions are intrinsics; in the
//! native replay build they are ordinary functions reading a recorded counterexample.
#![allow(dead_code)]

unsafe extern "C-unwind" {
    fn vp_any_bytes(p: *mut u8, n: usize, name: *const u8, name_len: usize);
    fn vp_assume(c: bool);
    fn vp_assert(c: bool, msg: *const u8, msg_len: usize);
    fn vp_reach(msg: *const u8, msg_len: usize);
    fn vp_concretize(v: u64) -> u64;
    fn vp_heap_live() -> u64;
    fn vp_allow_panic(v: u64);
    fn vp_tier() -> u64;
    fn vp_split(v: u64);
    fn vp_symbolic_mode() -> u64;
    fn vp_note(msg: *const u8, msg_len: usize, v: u64);
}

/// Fills `buf` with arbitrary bytes.
#[inline(never)]
pub fn any_into(buf: &mut [u8], name: &'static str) {
    unsafe { vp_any_bytes(buf.as_mut_ptr(), buf.len(), name.as_ptr(), name.len()) }
}
pub fn any_bytes<const N: usize>(name: &'static str) -> [u8; N] {
    let mut b = [0u8; N];
    any_into(&mut b, name);
    b
}
pub fn any_u8(name: &'static str) -> u8 {
    any_bytes::<1>(name)[0]
}
pub fn any_u16(name: &'static str) -> u16 {
    u16::from_le_bytes(any_bytes(name))
}
pub fn any_u32(name: &'static str) -> u32 {
    u32::from_le_bytes(any_bytes(name))
}
pub fn any_u64(name: &'static str) -> u64 {
    u64::from_le_bytes(any_bytes(name))
}
pub fn any_u128(name: &'static str) -> u128 {
    u128::from_le_bytes(any_bytes(name))
}
pub fn any_bool(name: &'static str) -> bool {
    let b = any_u8(name);
    b & 1 != 0
}
/// An arbitrary value `0..=max`.
pub fn any_upto(max: u64, name: &'static str) -> u64 {
    let v = if max < 256 {
        any_u8(name) as u64
    } else if max < 65536 {
        any_u16(name) as u64
    } else {
        any_u64(name)
    };
    assume(v <= max);
    v
}
/// An arbitrary value `0..=max`, one path per value (exhaustive case split).
pub fn pick(max: u64, name: &'static str) -> u64 {
    conc(any_upto(max, name))
}
#[inline]
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
#[inline]
pub fn check(c: bool, msg: &'static str) {
    unsafe { vp_assert(c, msg.as_ptr(), msg.len()) }
}
/// Vacuity witness: the driver requires every label to be reached on some feasible path.
#[inline]
pub fn reach(msg: &'static str) {
    unsafe { vp_reach(msg.as_ptr(), msg.len()) }
}
/// Splits the path on every feasible value of `v`.
#[inline]
pub fn conc(v: u64) -> u64 {
    unsafe { vp_concretize(v) }
}
pub fn heap_live() -> u64 {
    unsafe { vp_heap_live() }
}
/// Panics from here on are (not) accepted outcomes.
pub fn allow_panic(v: bool) {
    unsafe { vp_allow_panic(v as u64) }
}
pub fn symbolic() -> bool {
    unsafe { vp_symbolic_mode() != 0 }
}
/// Explores one path per result of every leading/trailing zero count from here on (a search
/// strategy: it changes neither the inputs covered nor what is checked).
pub fn split_bits(v: bool) {
    unsafe { vp_split(v as u64) }
}
/// True in the thorough tier (deeper bounds).
pub fn thorough() -> bool {
    unsafe { vp_tier() != 0 }
}
/// Records a value: used to cross-check the engine against the native build.
#[inline]
pub fn note(msg: &'static str, v: u64) {
    unsafe { vp_note(msg.as_ptr(), msg.len(), v) }
}
/// Records the contents of a byte slice.
pub fn note_bytes(msg: &'static str, b: &[u8]) {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    note(msg, h);
}

/// Reference model of a bit string: one byte (0 or 1) per bit, written independently of the crate.
#[derive(Clone, Default)]
pub struct Bits(pub Vec<u8>);
impl Bits {
    pub fn new() -> Self {
        Bits(Vec::with_capacity(64))
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn zeros(n: usize) -> Self {
        Bits(vec![0; n])
    }
    /// The low `n` bits of `v`, most significant first.
    pub fn uint(&mut self, v: u128, n: usize) {
        for i in (0..n).rev() {
            self.0.push(if i < 128 { (v >> i) as u8 & 1 } else { 0 });
        }
    }
    /// The first `n` bits of `b`.
    pub fn bytes(&mut self, b: &[u8], n: usize) {
        for i in 0..n {
            self.0.push(b[i / 8] >> (7 - i % 8) & 1);
        }
    }
    pub fn fill(&mut self, bit: u8, n: usize) {
        for _ in 0..n {
            self.0.push(bit);
        }
    }
    pub fn append(&mut self, o: &[u8]) {
        self.0.extend_from_slice(o);
    }
    /// Byte `i`, zero padded.
    pub fn byte(&self, i: usize) -> u8 {
        let mut r = 0;
        for k in 0..8 {
            r = r << 1 | self.0.get(i * 8 + k).copied().unwrap_or(0);
        }
        r
    }
    /// The bits `a..b` as an integer (at most 128 bits).
    pub fn int(&self, a: usize, b: usize) -> u128 {
        let mut r = 0u128;
        for i in a..b {
            r = r << 1 | self.0[i] as u128;
        }
        r
    }
    /// Asserts that `raw` (zero padded) holds exactly these bits.
    pub fn check_raw(&self, raw: &[u8], msg: &'static str) {
        let n = self.len().div_ceil(8);
        let mut diff = 0;
        for i in 0..n {
            diff |= raw[i] ^ self.byte(i);
        }
        check(diff == 0, msg);
    }
}

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $(
            $(#[$m])*
            #[unsafe(no_mangle)]
            pub extern "C-unwind" fn $name() $body
        )*
        #[allow(dead_code)]
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}
