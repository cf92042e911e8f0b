use digest::{generic_array::GenericArray, typenum::U64};

extern "C" {
    fn vp_sha256_block(state: *mut u32, block: *const u8);
}
// Verification stub: one SHA-256 block is one (ideal, collision-free) function of
// (chaining value, block); the engine evaluates it concretely when it can.
#[inline(never)]
fn compress(state: &mut [u32; 8], blocks: &[[u8; 64]]) {
    for b in blocks {
        unsafe { vp_sha256_block(state.as_mut_ptr(), b.as_ptr()) }
    }
}

/// Raw SHA-256 compression function.
///
/// This is a low-level "hazmat" API which provides direct access to the core
/// functionality of SHA-256.
#[cfg_attr(docsrs, doc(cfg(feature = "compress")))]
pub fn compress256(state: &mut [u32; 8], blocks: &[GenericArray<u8, U64>]) {
    // SAFETY: GenericArray<u8, U64> and [u8; 64] have
    // exactly the same memory layout
    let p = blocks.as_ptr() as *const [u8; 64];
    let blocks = unsafe { core::slice::from_raw_parts(p, blocks.len()) };
    compress(state, blocks)
}
