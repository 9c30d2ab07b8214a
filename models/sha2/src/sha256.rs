//! The SHA-256 compression function is provided by the host: the symbolic executor treats it as
//! an ideal (collision free) function, the concrete replayer computes the real one.
//! Everything else of the crate is unchanged.
use digest::{generic_array::GenericArray, typenum::U64};

#[cfg(target_arch = "wasm32")]
#[link(wasm_import_module = "verif")]
extern "C" {
    fn sha256_compress(state: *mut u32, blocks: *const u8, n: usize);
}

#[cfg(target_arch = "wasm32")]
pub fn compress256(state: &mut [u32; 8], blocks: &[GenericArray<u8, U64>]) {
    unsafe { sha256_compress(state.as_mut_ptr(), blocks.as_ptr() as *const u8, blocks.len()) }
}

#[cfg(not(target_arch = "wasm32"))]
pub fn compress256(_state: &mut [u32; 8], _blocks: &[GenericArray<u8, U64>]) { unimplemented!() }
