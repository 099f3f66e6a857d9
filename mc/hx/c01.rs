//! C01: a restricted executable is never bypassed.
//% outside: executable names longer than 3 bytes; more than two processes per request
//% assume: executable names contain no NUL byte; message texts are not modelled
use super::common::*;

static mut R: (Option<String>, u64) = (None, 0x6d63_56e27d59);
static mut E: (Option<String>, u64) = (None, 0x6d63_f519f70a);

fn hooks() {
    k().on_exec = Some(|_, r| {
        assert!(same(&r.exe, unsafe { R.0.as_ref().unwrap() }.as_bytes()), "an executable other than the restricted one was run");
        crate::reach!("exec of the restricted executable");
    });
    k().on_child_exit = Some(|_, _| {
        let (r, e) = unsafe { (R.0.as_ref().unwrap(), E.0.as_ref().unwrap()) };
        assert!(!same(e.as_bytes(), r.as_bytes()), "the restricted executable itself was refused");
        crate::reach!("refused");
    });
}
/// `r` is the restricted executable, `e` what the followed child asks for.
fn go(r: String, e: String, specs: spec::Procs, follow: i32) {
    boot();
    k().follow_child = follow;
    procs::restrict_exe(&r);
    unsafe {
        R.0 = Some(r);
        E.0 = Some(e);
    }
    hooks();
    let procs = procs::SharedProcs::new();
    let _ = procs::start_procs(specs, &procs);
    done();
}
fn with_exe(e: &String, argv0: String) -> spec::Proc {
    let mut p = proc_spec(std::vec::Vec::from([argv0]));
    p.exe = Some(e.clone());
    p
}

harness!(c01_exe, q, 30, 2, "explicit executable; both names any 2 bytes, argv[0] any 2 bytes", {
    let e = sym(2);
    go(sym(2), e.clone(), one(with_exe(&e, sym(2))), 1);
});
harness!(c01_argv0, q, 30, 2, "executable taken from argv[0]; both names any 2 bytes, one more argument of 2 bytes", {
    let e = sym(2);
    let p = proc_spec(std::vec::Vec::from([e.clone(), sym(2)]));
    go(sym(2), e, one(p), 1);
});
harness!(c01_longer, q, 30, 1, "requested name one byte longer than the restricted one (3 against 2 bytes)", {
    let e = sym(3);
    let r = sym(2);
    let a0 = r.clone();
    go(r, e.clone(), one(with_exe(&e, a0)), 1);
});
harness!(c01_shorter, t, 30, 1, "requested name one byte shorter than the restricted one (2 against 3 bytes)", {
    let e = sym(2);
    let r = sym(3);
    let a0 = r.clone();
    go(r, e.clone(), one(with_exe(&e, a0)), 1);
});
harness!(c01_empty, q, 30, 1, "empty restricted executable or empty requested name", {
    let e = sym(2);
    let r = sym(0);
    go(r, e.clone(), one(with_exe(&e, sym(2))), 1);
});
harness!(c01_second, q, 30, 2, "second of two processes in one request, the first asking for the restricted executable", {
    let e = sym(2);
    let r = sym(2);
    let a = with_exe(&r, sym(1));
    let b = with_exe(&e, r.clone());
    go(r, e, two(a, b), 2);
});
harness!(c01_near_slashes, t, 40, 1, "another spelling of the restricted executable: //x for /x", {
    go(st("/x"), st("//x"), one(with_exe(&st("//x"), st("/x"))), 1);
});
harness!(c01_near_trailing, q, 40, 1, "another spelling of the restricted executable: /x/ for /x", {
    go(st("/x"), st("/x/"), one(with_exe(&st("/x/"), st("/x"))), 1);
});
harness!(c01_near_dot, t, 40, 1, "another spelling of the restricted executable: /./x for /x", {
    go(st("/x"), st("/./x"), one(with_exe(&st("/./x"), st("/x"))), 1);
});
harness!(c01_near_case, t, 40, 1, "another spelling of the restricted executable: /X for /x", {
    go(st("/x"), st("/X"), one(with_exe(&st("/X"), st("/x"))), 1);
});
harness!(c01_near_relative, q, 40, 1, "another spelling of the restricted executable: ./x for x, from argv[0]", {
    go(st("x"), st("./x"), one(proc_spec(strs(&["./x"]))), 1);
});
