//! C24: descriptor names are parsed exactly and reported consistently.
//% outside: strings longer than 6 bytes; numbers of more than 6 digits; a sign before a number is left open
use super::common::*;

/// What a string denotes; None if the property leaves it open.
fn expected(s: &[u8]) -> Option<Option<i32>> {
    if same(s, b"stdin") {
        return Some(Some(0));
    }
    if same(s, b"stdout") {
        return Some(Some(1));
    }
    if same(s, b"stderr") {
        return Some(Some(2));
    }
    if s.len() > 0 && (s[0] == b'+' || s[0] == b'-') {
        return None;
    }
    let mut n = 0i32;
    let mut ok = s.len() > 0;
    let mut i = 0;
    while i < s.len() {
        let d = s[i] >= b'0' && s[i] <= b'9';
        ok &= d;
        if d {
            n = n * 10 + (s[i] - b'0') as i32;
        }
        i += 1;
    }
    Some(if ok { Some(n) } else { None })
}
fn len(n: usize) {
    boot();
    let s = sym(n);
    let r = spec::parse_fd(&s);
    if let Some(e) = expected(s.as_bytes()) {
        match r {
            Ok(fd) => {
                assert!(e == Some(fd), "a name denotes another descriptor, or is wrongly accepted");
                reach!("accepted");
            }
            Err(_) => {
                assert!(e == None, "a descriptor's name is rejected");
                reach!("rejected");
            }
        }
    }
}
harness!(c24_0, q, 30, 1, "the empty string", { len(0) });
harness!(c24_1, q, 30, 2, "every string of 1 byte", { len(1) });
harness!(c24_2, q, 30, 2, "every string of 2 bytes", { len(2) });
harness!(c24_3, q, 30, 2, "every string of 3 bytes", { len(3) });
harness!(c24_4, q, 30, 2, "every string of 4 bytes", { len(4) });
harness!(c24_5, q, 30, 2, "every string of 5 bytes", { len(5) });
harness!(c24_6, q, 30, 2, "every string of 6 bytes", { len(6) });
fn back(n: usize) {
    boot();
    let (mut lo, mut i) = (1, 1);
    while i < n {
        lo *= 10;
        i += 1;
    }
    let fd = nd::range(lo, 10 * lo - 1);
    if n == 1 {
        nd::assume(fd > 2);
    }
    unsafe { std::DIGITS.0 = n };
    let name = fd::get_fd_name(fd);
    let b = name.as_bytes();
    assert!(b.len() == n, "the reported name is not the number");
    // As a numeral it is that of fd.
    let mut v = 0;
    let mut i = 0;
    while i < n {
        assert!(b[i] >= b'0' && b[i] <= b'9', "the reported name is not the number");
        v = 10 * v + (b[i] - b'0') as i32;
        i += 1;
    }
    assert!(v == fd, "the reported name denotes another descriptor");
    reach!("same");
}
fn std_name(fd: i32, n: &str) {
    assert!(same(fd::get_fd_name(fd).as_bytes(), n.as_bytes()), "a standard descriptor is reported under another name");
    assert!(matches!(spec::parse_fd(n), Ok(f) if f == fd), "the name of a standard descriptor is not understood");
}
harness!(c24_std, q, 30, 1, "the standard descriptors", {
    boot();
    std_name(0, "stdin");
    std_name(1, "stdout");
    std_name(2, "stderr");
    reach!("same");
});
harness!(c24_back1, q, 30, 1, "every descriptor 3-9", { back(1) });
harness!(c24_back2, q, 30, 1, "every descriptor 10-99", { back(2) });
harness!(c24_back3, q, 30, 1, "every descriptor 100-999", { back(3) });
harness!(c24_back4, q, 30, 1, "every descriptor 1000-9999", { back(4) });
