//! Nondeterministic choices.

#[cfg(kani)]
mod imp {
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    macro_rules! g { ($($t:ident),*) => { $( #[inline(always)] pub fn $t() -> $t { kani::any::<$t>() } )* } }
    g!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, bool);
}

#[cfg(not(kani))]
mod imp {
    use std::sync::Mutex;
    static VALS: Mutex<Option<(Vec<Vec<u8>>, usize)>> = Mutex::new(None);

    /// Takes the next recorded value: one line of comma-separated bytes.
    fn next(n: usize) -> Vec<u8> {
        let mut g = VALS.lock().unwrap();
        if g.is_none() {
            let path = std::env::var("MC_REPLAY_VALUES").unwrap_or_default();
            let text = std::fs::read_to_string(path).unwrap_or_default();
            let vals = text
                .lines()
                .filter(|l| !l.starts_with('#'))
                .map(|l| {
                    l.split(',')
                        .filter(|s| !s.trim().is_empty())
                        .map(|s| s.trim().parse::<u8>().unwrap())
                        .collect::<Vec<u8>>()
                })
                .filter(|v| !v.is_empty())
                .collect::<Vec<_>>();
            *g = Some((vals, 0));
        }
        let (vals, pos) = g.as_mut().unwrap();
        let v = if *pos < vals.len() {
            vals[*pos].clone()
        } else {
            vec![0; n]
        };
        *pos += 1;
        if v.len() != n {
            println!("REPLAY-VALUE-MISMATCH at {} want {} got {}", *pos - 1, n, v.len());
            std::process::exit(0);
        }
        v
    }

    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY-ASSUME-FALSE");
            std::process::exit(0);
        }
    }
    macro_rules! g { ($($t:ident),*) => { $( pub fn $t() -> $t {
        let v = next(std::mem::size_of::<$t>());
        let mut a = [0u8; std::mem::size_of::<$t>()];
        a.copy_from_slice(&v);
        <$t>::from_le_bytes(a)
    } )* } }
    g!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    pub fn bool() -> bool {
        next(1)[0] != 0
    }
}

pub use imp::*;

/// A value below `n`.
pub fn below(n: u8) -> u8 {
    let v = u8();
    assume(v < n);
    v
}

/// A value below `n`, branched to a constant: code that runs after it sees a
/// concrete number on each path.
pub fn pick(n: u8) -> u8 {
    let v = below(n);
    let mut i = 0;
    while i + 1 < n {
        if v == i {
            return i;
        }
        i += 1;
    }
    n - 1
}

/// An i32 within [lo, hi].
pub fn range(lo: i32, hi: i32) -> i32 {
    let v = i32();
    assume(v >= lo && v <= hi);
    v
}
