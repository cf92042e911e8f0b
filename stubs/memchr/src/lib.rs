//! Byte searches as plain loops (the real crate picks vector code at run time).
#![no_std]
pub fn memchr(a: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|c| *c == a)
}
pub fn memchr2(a: u8, b: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|c| *c == a || *c == b)
}
pub fn memchr3(a: u8, b: u8, d: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|c| *c == a || *c == b || *c == d)
}
pub fn memrchr(a: u8, s: &[u8]) -> Option<usize> {
    s.iter().rposition(|c| *c == a)
}
pub fn memchr_iter(a: u8, s: &[u8]) -> impl Iterator<Item = usize> + '_ {
    s.iter().enumerate().filter(move |x| *x.1 == a).map(|x| x.0)
}
pub fn memchr2_iter(a: u8, b: u8, s: &[u8]) -> impl Iterator<Item = usize> + '_ {
    s.iter().enumerate().filter(move |x| *x.1 == a || *x.1 == b).map(|x| x.0)
}
pub fn memchr3_iter(a: u8, b: u8, d: u8, s: &[u8]) -> impl Iterator<Item = usize> + '_ {
    s.iter().enumerate().filter(move |x| *x.1 == a || *x.1 == b || *x.1 == d).map(|x| x.0)
}
pub mod memmem {
    pub fn find(s: &[u8], what: &[u8]) -> Option<usize> {
        if what.is_empty() {
            return Some(0);
        }
        s.windows(what.len()).position(|x| x == what)
    }
}
