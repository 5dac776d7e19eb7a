#![no_main]
libfuzzer_sys::fuzz_target!(|data: &[u8]| {
    harness::driver::fuzz_one(harness::props::find, data);
});
