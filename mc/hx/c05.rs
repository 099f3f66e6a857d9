//! C05: a program starts with exactly the file descriptors its spec describes.
//% outside: descriptor numbers above 15; a duplicate of a number that neither the spec lists nor procstar was started with; more than two processes per request
//% assume: no call fails (see C09); pipes between processes: see C06
use super::common::*;
use spec::Fd::*;

fn go(own: &[(usize, bool)], specs: spec::Procs) -> ! {
    start_in_passes(specs, own, |_| {}, |p, procs| {
        check_tables(p, procs);
        crate::reach!("compared");
    })
}
fn p(f: &[(&str, spec::Fd)]) -> spec::Procs {
    one(fds(proc_spec(strs(&["/x"])), f))
}
harness!(c05_std, q, 40, 1, "null, both captures, a duplicate and a file as descriptors 0 to 4", {
    go(&[], p(&[("stdin", null()), ("stdout", tempfile()), ("stderr", memory()), ("3", dup(2)), ("4", file("/f"))]))
});
harness!(c05_order, t, 40, 1, "two descriptors swapped over a third; closed and a file", {
    go(&[], p(&[("5", dup(1)), ("1", dup(2)), ("2", dup(5)), ("0", Close), ("4", file("/f"))]))
});
harness!(c05_before, q, 40, 1, "a duplicate made before its original is replaced by a capture, and a duplicate of itself", {
    go(&[], p(&[("2", dup(1)), ("1", tempfile()), ("0", dup(0)), ("4", dup(1))]))
});
harness!(c05_low, t, 40, 1, "captures and files at the lowest free numbers", {
    go(&[], p(&[("3", memory()), ("4", tempfile()), ("5", null()), ("6", file("/f"))]))
});
harness!(c05_own, q, 40, 1, "procstar started without descriptor 0 and with 5 and 6: one closed, one kept", {
    go(&[(0, false), (5, true), (6, true)], p(&[("1", memory()), ("5", Close), ("2", dup(6)), ("stdin", Close), ("6", Inherit)]))
});
harness!(c05_bare, t, 40, 1, "procstar started without descriptors 0, 1 and 2", {
    go(&[(0, false), (1, false), (2, false)], p(&[("1", tempfile()), ("2", dup(1)), ("0", null())]))
});
/// Two processes with captures of different kinds: the program of either starts with its own
/// capture and the standard descriptors only.
fn separate(n: usize, a: spec::Proc, b: spec::Proc, want: &'static [(usize, u8)]) {
    boot();
    unsafe { WANT.0 = want };
    k().follow_child = n as i32;
    k().on_exec = Some(|k, _| {
        let want = unsafe { WANT.0 };
        let mut t = [K_NONE; NFD];
        t[0] = K_INHERIT;
        t[1] = K_INHERIT;
        t[2] = K_INHERIT;
        let mut i = 0;
        while i < want.len() {
            t[want[i].0] = want[i].1;
            i += 1;
        }
        i = 0;
        while i < NFD {
            assert!(k.fds[i].kind == t[i], "a program starts with a descriptor it shouldn't have, or without one");
            i += 1;
        }
        crate::reach!("executed");
    });
    k().on_child_exit = Some(|_, _| panic!("the program is not executed"));
    _ = procs::start_procs(two(a, b), &procs::SharedProcs::new());
    panic!("not all processes are started")
}
static mut WANT: (&[(usize, u8)], u64) = (&[], 0x6d63_7c05a2f1);
harness!(c05_two, q, 40, 1, "two processes with captures of different kinds, the program of either", {
    cases(2, |i| {
        let a = fds(proc_spec(strs(&["/x"])), &[("1", memory()), ("4", null())]);
        let b = fds(proc_spec(strs(&["/y"])), &[("2", tempfile())]);
        if i == 0 {
            separate(1, a, b, &[(1, K_PIPE_W), (4, K_FILE)])
        } else {
            separate(2, a, b, &[(2, K_TMP)])
        }
    })
});
harness!(c05_none, t, 40, 1, "nothing listed; procstar started with 4 and 7", { go(&[(4, true), (7, true)], p(&[])) });
harness!(c05_high, t, 40, 1, "captures at high numbers, and a duplicate", { go(&[], p(&[("12", tempfile()), ("11", memory()), ("10", dup(12))])) });
harness!(c05_close, q, 40, 1, "closed ones, open and not, then files, of which one may get a closed number", { go(&[], p(&[("0", Close), ("7", Close), ("1", file("/f")), ("3", file("/g"))])) });
harness!(c05_both, t, 40, 1, "two memory captures and two temporary files", { go(&[], p(&[("1", memory()), ("2", memory()), ("3", tempfile()), ("4", tempfile())])) });
harness!(c05_chain, t, 40, 1, "a chain of duplicates in both directions", { go(&[], p(&[("3", dup(0)), ("0", dup(1)), ("1", dup(2)), ("2", dup(3)), ("4", dup(3))])) });
harness!(c05_two_more, t, 40, 1, "two processes, duplicates of captures", {
    cases(2, |i| {
        let a = fds(proc_spec(strs(&["/x"])), &[("4", tempfile()), ("2", dup(4))]);
        let b = fds(proc_spec(strs(&["/y"])), &[("3", memory()), ("1", dup(3)), ("0", spec::Fd::Close)]);
        if i == 0 {
            separate(1, a, b, &[(4, K_TMP), (2, K_TMP)])
        } else {
            separate(2, a, b, &[(3, K_PIPE_W), (1, K_PIPE_W), (0, K_NONE)])
        }
    })
});
