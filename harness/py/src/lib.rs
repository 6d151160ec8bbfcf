//! Exports `PyInit__hugr` of the Python package's native half.
extern crate hugr_py;
#[unsafe(no_mangle)]
pub extern "C" fn vhpy_keep() -> usize {
    unsafe extern "C" {
        fn PyInit__hugr() -> *mut core::ffi::c_void;
    }
    PyInit__hugr as *const () as usize
}
