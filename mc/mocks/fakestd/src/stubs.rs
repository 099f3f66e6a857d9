//! Bodies put in the place of library functions when compiling for the solver:
//! same results, but by means the solver can follow.
use ::std::alloc::Allocator;
use ::std::vec::Vec;

pub struct Slice<T>(T);

trait ToVec: Sized {
    fn fill<A: Allocator>(s: &[Self], v: &mut Vec<Self, A>);
}
impl<T: Clone> ToVec for T {
    default fn fill<A: Allocator>(s: &[Self], v: &mut Vec<Self, A>) {
        let mut i = 0;
        while i < s.len() {
            v.push(s[i].clone());
            i += 1;
        }
    }
}
impl ToVec for u8 {
    fn fill<A: Allocator>(s: &[u8], v: &mut Vec<u8, A>) {
        if s.len() > 0 {
            unsafe {
                ::std::ptr::copy_nonoverlapping(s.as_ptr(), v.as_mut_ptr(), s.len());
                v.set_len(s.len());
            }
        }
    }
}
impl<T> Slice<T> {
    pub fn to_vec_in<A: Allocator>(s: &[T], alloc: A) -> Vec<T, A>
    where
        T: Clone,
    {
        let mut v = Vec::with_capacity_in(s.len(), alloc);
        <T as ToVec>::fill(s, &mut v);
        v
    }
}

pub fn from_iter_in_place<I: Iterator<Item = T>, T>(mut it: I) -> Vec<T> {
    let mut v = Vec::with_capacity(it.size_hint().0);
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}

trait Parse: Sized + ::std::str::FromStr {
    fn mc_parse(s: &str) -> Result<Self, Self::Err>;
}
impl<T: ::std::str::FromStr> Parse for T {
    default fn mc_parse(s: &str) -> Result<T, T::Err> {
        T::from_str(s)
    }
}
/// The number a decimal numeral denotes: no data-dependent control flow.
fn dec(s: &[u8], signed: bool) -> (bool, bool, i64) {
    let mut neg = false;
    let mut ok = s.len() > 0;
    let mut n = 0i64;
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if i == 0 && s.len() > 1 {
            neg = signed & (c == b'-');
            let sign = (c == b'+') | neg;
            let d = c.wrapping_sub(b'0');
            ok &= sign | (d < 10);
            n = if sign { 0 } else { d as i64 };
        } else {
            let d = c.wrapping_sub(b'0');
            ok &= d < 10;
            n = n * 10 + d as i64;
        }
        i += 1;
    }
    (ok, neg, n)
}
macro_rules! parse_int {
    ($($t:ty, $signed:expr;)*) => { $( impl Parse for $t {
        fn mc_parse(s: &str) -> Result<$t, ::std::num::ParseIntError> {
            let b = s.as_bytes();
            if b.len() == 0 || b.len() > 17 {
                return <$t as ::std::str::FromStr>::from_str(s);
            }
            let (ok, neg, n) = dec(b, $signed);
            let n = if neg { -n } else { n };
            if !ok {
                return <$t as ::std::str::FromStr>::from_str("x");
            }
            if n > <$t>::MAX as i64 && (<$t>::MAX as i64) > 0 {
                return <$t as ::std::str::FromStr>::from_str("99999999999999999999999");
            }
            if n < <$t>::MIN as i64 {
                return <$t as ::std::str::FromStr>::from_str("-99999999999999999999999");
            }
            Ok(n as $t)
        }
    } )* };
}
parse_int!(i16, true; i32, true; i64, true; isize, true; u8, false; u16, false; u32, false; u64, false; usize, false;);

pub fn parse<F: ::std::str::FromStr>(s: &str) -> Result<F, F::Err> {
    <F as Parse>::mc_parse(s)
}

/// UTF-8 validation by a state machine without data-dependent control flow.
pub fn valid_utf8(v: &[u8]) -> bool {
    let mut bad = false;
    // Continuation bytes still needed, and the range of the next one.
    let (mut need, mut lo, mut hi) = (0u8, 0x80u8, 0xbfu8);
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        let cont = need > 0;
        bad |= cont & ((c < lo) | (c > hi));
        bad |= !cont & (((c >= 0x80) & (c < 0xc2)) | (c > 0xf4));
        let n = if c < 0xc0 { 0 } else if c < 0xe0 { 1 } else if c < 0xf0 { 2 } else { 3 };
        let l = if c == 0xe0 { 0xa0 } else if c == 0xf0 { 0x90 } else { 0x80 };
        let h = if c == 0xed { 0x9f } else if c == 0xf4 { 0x8f } else { 0xbf };
        need = if cont { need - 1 } else { n };
        lo = if cont { 0x80 } else { l };
        hi = if cont { 0xbf } else { h };
        i += 1;
    }
    !bad & (need == 0)
}
/// Set by harnesses in which every string is ASCII.
pub static mut ALL_UTF8: (bool, u64) = (false, 0x6d63_5510aa01);
pub fn from_utf8(v: &[u8]) -> Result<&str, ::std::str::Utf8Error> {
    if unsafe { ALL_UTF8.0 } || valid_utf8(v) {
        Ok(unsafe { ::std::str::from_utf8_unchecked(v) })
    } else {
        // Any error will do: the position is not modelled.
        let mut b = [0xffu8];
        match ::std::str::from_utf8_mut(unsafe { &mut *(&mut b as *mut [u8; 1]) }) {
            Err(e) => Err(e),
            Ok(_) => loop {},
        }
    }
}
/// As String::from_utf8_lossy: each longest part of an invalid sequence that could start a valid
/// one becomes one replacement character.
pub fn lossy(v: &[u8]) -> ::std::borrow::Cow<'_, str> {
    if unsafe { ALL_UTF8.0 } || valid_utf8(v) {
        return ::std::borrow::Cow::Borrowed(unsafe { ::std::str::from_utf8_unchecked(v) });
    }
    let mut out: Vec<u8> = Vec::with_capacity(3 * v.len());
    // The sequence so far, and what may follow.
    let (mut have, mut need, mut lo, mut hi) = (0usize, 0u8, 0x80u8, 0xbfu8);
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        if need > 0 && c >= lo && c <= hi {
            need -= 1;
            have += 1;
            lo = 0x80;
            hi = 0xbf;
            if need == 0 {
                let mut j = 0;
                while j < 4 {
                    if j < have {
                        out.push(v[i + 1 + j - have]);
                    }
                    j += 1;
                }
                have = 0;
            }
        } else {
            if need > 0 {
                out.extend_from_slice(&[0xef, 0xbf, 0xbd]);
                have = 0;
                need = 0;
            }
            if c < 0x80 {
                out.push(c);
            } else if c < 0xc2 || c > 0xf4 {
                out.extend_from_slice(&[0xef, 0xbf, 0xbd]);
            } else {
                have = 1;
                need = if c < 0xe0 { 1 } else if c < 0xf0 { 2 } else { 3 };
                lo = if c == 0xe0 { 0xa0 } else if c == 0xf0 { 0x90 } else { 0x80 };
                hi = if c == 0xed { 0x9f } else if c == 0xf4 { 0x8f } else { 0xbf };
            }
        }
        i += 1;
    }
    if need > 0 {
        out.extend_from_slice(&[0xef, 0xbf, 0xbd]);
    }
    ::std::borrow::Cow::Owned(unsafe { ::std::string::String::from_utf8_unchecked(out) })
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn lossy_same_as_std() {
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                for t in [vec![a], vec![a, b], vec![0xe0, a, b], vec![0xed, a, b], vec![a, b, 0x80], vec![0xf0, a, b, 0x80], vec![0xf4, a, b, 0x80], vec![a, 0x80, 0x80, b], vec![a, 0xe1, 0x80, b, 0x80], vec![b'x', a, b, b'y']] {
                    assert_eq!(lossy(&t), ::std::string::String::from_utf8_lossy(&t), "{:?}", t);
                }
            }
        }
    }
    #[test]
    fn same_as_std() {
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                for t in [vec![a], vec![a, b], vec![0xe0, a, b], vec![0xed, a, b], vec![a, b, 0x80], vec![0xf0, a, b, 0x80], vec![0xf4, a, b, 0x80], vec![a, 0x80, 0x80, b]] {
                    assert_eq!(from_utf8(&t).is_ok(), ::std::str::from_utf8(&t).is_ok(), "{:?}", t);
                    if let Ok(s) = ::std::str::from_utf8(&t) {
                        assert_eq!(parse::<i32>(s), s.parse::<i32>());
                        assert_eq!(parse::<u64>(s), s.parse::<u64>());
                        assert_eq!(parse::<u8>(s), s.parse::<u8>());
                    }
                }
            }
        }
        for s in ["", "-", "+", "-1", "+1", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999", "18446744073709551615", "18446744073709551616", "0x1", " 1", "1 ", "00012"] {
            assert_eq!(parse::<i32>(s), s.parse::<i32>(), "{s}");
            assert_eq!(parse::<u32>(s), s.parse::<u32>(), "{s}");
            assert_eq!(parse::<i64>(s), s.parse::<i64>());
            assert_eq!(parse::<u64>(s), s.parse::<u64>());
        }
    }
}
