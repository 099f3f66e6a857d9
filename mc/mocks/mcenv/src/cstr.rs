//! Lengths of the C strings handed to the kernel model, so that it can copy one
//! whose bytes are symbolic without searching for the terminator.
static mut TABLE: (Vec<(*const u8, usize)>, u64) = (Vec::new(), 0x6d63_8a8042be);

pub fn register(p: *const u8, len: usize) {
    unsafe {
        let t = &mut TABLE.0;
        let mut i = 0;
        while i < t.len() {
            if t[i].0 == p {
                t[i].1 = len;
                return;
            }
            i += 1;
        }
        t.push((p, len));
    }
}

pub fn forget(p: *const u8) {
    unsafe {
        let t = &mut TABLE.0;
        let mut i = 0;
        while i < t.len() {
            if t[i].0 == p {
                t[i].0 = core::ptr::null();
                return;
            }
            i += 1;
        }
    }
}

pub fn find(p: *const u8) -> Option<usize> {
    unsafe {
        let t: &[(*const u8, usize)] = &TABLE.0;
        let mut i = 0;
        while i < t.len() {
            if t[i].0 == p {
                return Some(t[i].1);
            }
            i += 1;
        }
        None
    }
}

/// When false (the default), strings given to the kernel are assumed to contain
/// no NUL byte; harnesses about NUL bytes set it.
pub static mut CHECK_NUL: (bool, u64) = (false, 0x6d63_28b7bc6f);

/// When not zero, every C string made has this length.  Restores a constant
/// length for strings that were moved through an enum in the heap.
pub static mut LENGTH: (usize, u64) = (0, 0x6d63_28b7bc70);
pub fn length(n: usize) -> usize {
    unsafe {
        if LENGTH.0 == 0 {
            return n;
        }
        if n != LENGTH.0 {
            panic!("a C string of unexpected length");
        }
        LENGTH.0
    }
}
