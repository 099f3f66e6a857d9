//! Statically dispatched formatting and `ToString`.
use ::std::fmt::Display;
use ::std::string::String;

/// Appends the text of a value.  Types without an implementation of their own
/// are shown as "~" when STUB_FORMAT is set.
pub trait Put {
    fn put(&self, s: &mut String);
}
impl<T: ?Sized + Display> Put for T {
    default fn put(&self, s: &mut String) {
        if unsafe { crate::STUB_FORMAT.0 } {
            s.push('~');
        } else {
            let _ = ::std::fmt::Write::write_fmt(s, format_args!("{}", self));
        }
    }
}
impl Put for str {
    fn put(&self, s: &mut String) {
        s.push_str(self)
    }
}
impl<'a> Put for ::std::borrow::Cow<'a, str> {
    fn put(&self, s: &mut String) {
        s.push_str(self)
    }
}
impl Put for String {
    fn put(&self, s: &mut String) {
        s.push_str(self)
    }
}
impl<T: ?Sized + Display> Put for &T {
    fn put(&self, s: &mut String) {
        (**self).put(s)
    }
}
impl<T: ?Sized + Display> Put for &mut T {
    fn put(&self, s: &mut String) {
        (**self).put(s)
    }
}
fn dec(neg: bool, mut n: u64, s: &mut String) {
    let digits = unsafe { crate::DIGITS.0 };
    if digits > 0 {
        // Exactly so many digits.
        let mut b = [0u8; 20];
        let mut i = digits;
        while i > 0 {
            i -= 1;
            b[i] = b'0' + (n % 10) as u8;
            n /= 10;
        }
        mcenv::nd::assume(n == 0 && b[0] != b'0' || digits == 1);
        let mut i = 0;
        while i < digits {
            unsafe { s.as_mut_vec() }.push(b[i]);
            i += 1;
        }
        return;
    }
    let mut b = [0u8; 21];
    let mut i = 21;
    loop {
        i -= 1;
        b[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    if neg {
        i -= 1;
        b[i] = b'-';
    }
    while i < 21 {
        unsafe { s.as_mut_vec() }.push(b[i]);
        i += 1;
    }
}
macro_rules! ints {
    ($($t:ty)*) => { $( impl Put for $t {
        #[allow(unused_comparisons)]
        fn put(&self, s: &mut String) {
            let n = *self;
            if unsafe { crate::STUB_INT.0 } { s.push('~') }
            else if n < 0 { dec(true, (n as i64).unsigned_abs(), s) } else { dec(false, n as u64, s) }
        }
    } )* };
}
ints!(i16 i32 i64 isize u16 u32 u64 usize);

pub fn put<T: ?Sized + Display>(s: &mut String, t: &T) {
    t.put(s)
}
pub fn dbg<T: ?Sized + ::std::fmt::Debug>(s: &mut String, _t: &T) {
    s.push('~')
}

pub trait ToString {
    fn to_string(&self) -> String;
}
impl<T: ?Sized + Display> ToString for T {
    fn to_string(&self) -> String {
        let mut s = String::new();
        self.put(&mut s);
        s
    }
}
