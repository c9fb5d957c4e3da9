//! Counts the basic blocks the program executes (the work-counting build reports each one here).
use std::cell::Cell;

thread_local! {
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_guard: *mut u32) {
    BLOCKS.with(|b| b.set(b.get() + 1));
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_start: *mut u32, _stop: *mut u32) {}

/// blocks executed by this thread so far
pub fn blocks() -> u64 {
    BLOCKS.with(|b| b.get())
}
