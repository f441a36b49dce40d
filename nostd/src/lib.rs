//! A program without the standard library, for F01: it brings its own panic handler, which does
//! not compile once anything it is made of uses `std`.
#![no_std]
pub use scale_value::*;

#[panic_handler]
fn panicked(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

struct NoMemory;
unsafe impl core::alloc::GlobalAlloc for NoMemory {
    unsafe fn alloc(&self, _: core::alloc::Layout) -> *mut u8 {
        core::ptr::null_mut()
    }
    unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {}
}
#[global_allocator]
static MEMORY: NoMemory = NoMemory;

struct Count(usize);
impl core::fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

#[no_mangle]
pub extern "C" fn text_len(n: &u64) -> usize {
    use core::fmt::Write;
    let mut c = Count(0);
    // Every form of the macro.
    let vs = [
        value!(),
        value!(()),
        value!({}),
        value!({ a: *n, "b c": (1u8, true), }),
        value!(A()),
        value!(A("x", 'c')),
        value!(B { a: 1u8, b: C {} }),
        value!(*n),
    ];
    for v in &vs {
        let _ = write!(c, "{v}");
    }
    c.0
}
