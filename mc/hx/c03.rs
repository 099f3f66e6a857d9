//! C03: the program runs as specified: executable, argument vector, session.
//% outside: names and arguments longer than 3 bytes; more than three arguments; more than two processes per request
//% assume: no NUL bytes (see C04)
use super::common::*;

static mut EXE: (Option<String>, u64) = (None, 0x6d63_935170bb);
static mut ARGV: (Vec<String>, u64) = (Vec::new(), 0x6d63_3188ea6c);

fn go(specs: spec::Procs, follow: i32, exe: String, argv: Vec<String>) {
    boot();
    unsafe {
        EXE.0 = Some(exe);
        ARGV.0 = argv;
    }
    k().follow_child = follow;
    k().on_exec = Some(|k, r| {
        let (exe, argv) = unsafe { (EXE.0.as_ref().unwrap(), &ARGV.0) };
        assert!(same(&r.exe, exe.as_bytes()), "another executable is run");
        assert!(r.argv.len() == argv.len(), "the number of arguments differs");
        for i in 0..argv.len() {
            assert!(same(&r.argv[i], argv[i].as_bytes()), "an argument differs");
        }
        assert!(k.setsid_done, "not in a session of its own");
        crate::reach!("executed");
    });
    k().on_child_exit = Some(|_, _| panic!("the program is not executed"));
    let procs = procs::SharedProcs::new();
    let r = procs::start_procs(specs, &procs);
    assert!(false, "no process is started");
}
fn exe(e: &String, argv: &Vec<String>) -> spec::Proc {
    let mut p = proc_spec(argv.clone());
    p.exe = Some(e.clone());
    p
}
fn v3(a: usize, b: usize, c: usize) -> Vec<String> {
    std::vec::Vec::from([sym(a), sym(b), sym(c)])
}

harness!(c03_exe, q, 40, 1, "explicit executable of any 2 bytes, arguments of 1, 2 and 0 bytes", {
    let (e, a) = (sym(2), v3(1, 2, 0));
    go(one(exe(&e, &a)), 1, e, a);
});
harness!(c03_argv0, q, 40, 1, "executable from the first argument of any 2 bytes, two more arguments", {
    let a = v3(2, 0, 1);
    go(one(proc_spec(a.clone())), 1, a[0].clone(), a);
});
harness!(c03_one, q, 40, 1, "a single argument of 3 bytes; an empty executable given explicitly", {
    let a = std::vec::Vec::from([sym(3)]);
    let e = sym(0);
    go(one(exe(&e, &a)), 1, e, a);
});
harness!(c03_noargs, q, 40, 1, "explicit executable and an empty argument vector", {
    let e = sym(2);
    let a = std::vec::Vec::new();
    go(one(exe(&e, &a)), 1, e, a);
});
harness!(c03_first, q, 40, 1, "first of two processes", {
    let (e, a) = (sym(2), std::vec::Vec::from([sym(1), sym(1)]));
    let b = std::vec::Vec::from([sym(2)]);
    go(two(exe(&e, &a), proc_spec(b)), 1, e, a);
});
harness!(c03_second, q, 40, 1, "second of two processes", {
    let (e, a) = (sym(2), std::vec::Vec::from([sym(1), sym(1)]));
    let b = std::vec::Vec::from([sym(2), sym(1)]);
    go(two(exe(&e, &a), proc_spec(b.clone())), 2, b[0].clone(), b);
});
