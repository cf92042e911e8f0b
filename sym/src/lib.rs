#[path = "../../harness/vp.rs"]
#[macro_use]
pub mod vp;
/// The harness module of the property being checked.
pub mod m {
    include!(env!("VP_MODULE"));
}

unsafe extern "C" {
    fn vp_alloc(size: usize, align: usize) -> *mut u8;
    fn vp_alloc_zeroed(size: usize, align: usize) -> *mut u8;
    fn vp_dealloc(p: *mut u8, size: usize, align: usize);
    fn vp_realloc(p: *mut u8, old: usize, align: usize, new: usize) -> *mut u8;
}

struct A;
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        unsafe { vp_alloc(l.size(), l.align()) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        unsafe { vp_alloc_zeroed(l.size(), l.align()) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { vp_dealloc(p, l.size(), l.align()) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        unsafe { vp_realloc(p, l.size(), l.align(), n) }
    }
}
#[global_allocator]
static GLOBAL: A = A;
