//! C06: pipes connect the right processes and readers see end of file.
//% outside: more than three processes or two pipes per request; descriptor numbers above 7
//% assume: no call fails (see C09)
use super::common::*;
use spec::Fd::*;

/// Whether procstar itself holds this end of the pipe.
fn held(kind: u8, id: u8) -> bool {
    let mut i = 0;
    while i < NFD {
        if k().fds[i].kind == kind && k().fds[i].id == id {
            return true;
        }
        i += 1;
    }
    false
}
/// Right after the start: compares the descriptors of the programs, and procstar's own, to what
/// the specs say.
fn compare(p: &Passes) {
    let specs = p.specs.as_ref().unwrap();
    let mut used: Vec<u8> = Vec::new();
    let mut n = 0;
    while n < p.ids.len() {
        let spec = specs.get(&p.ids[n]).unwrap();
        let is = &p.fds[n];
        let mut want = p.own;
        want[3] = FD_NONE;
        let mut i = 0;
        while i < spec.fds.len() {
            let (name, s) = &spec.fds[i];
            let fd = spec::parse_fd(name).unwrap() as usize;
            match s {
                PipeWrite => {
                    let id = is[fd].id;
                    want[fd] = kernel::Fd { kind: K_PIPE_W, id, cloexec: false };
                    assert!(is[fd].kind == K_PIPE_W, "the writing descriptor isn't a pipe");
                    assert!(!used.contains(&id), "one pipe for two descriptors");
                    used.push(id);
                    assert!(!held(K_PIPE_W, id), "procstar holds the write end: readers see no end of file");
                    assert!(!held(K_PIPE_R, id), "procstar holds the read end");
                }
                PipeRead { proc_id, fd: from } => {
                    let mut w = 0;
                    while !same(p.ids[w].as_bytes(), proc_id.as_bytes()) {
                        w += 1;
                    }
                    let of = p.fds[w][spec::parse_fd(from).unwrap() as usize];
                    want[fd] = kernel::Fd { kind: K_PIPE_R, id: of.id, cloexec: false };
                }
                Dup { fd: from } => want[fd] = want[*from as usize],
                Capture { .. } => {
                    let id = is[fd].id;
                    want[fd] = kernel::Fd { kind: K_PIPE_W, id, cloexec: false };
                    assert!(is[fd].kind == K_PIPE_W, "the captured descriptor isn't a pipe");
                    assert!(!used.contains(&id), "one pipe for two descriptors");
                    used.push(id);
                    assert!(!held(K_PIPE_W, id), "procstar holds the write end of a captured pipe");
                    assert!(held(K_PIPE_R, id), "procstar doesn't hold the read end of a captured pipe");
                }
                Close => want[fd] = FD_NONE,
                _ => {}
            }
            i += 1;
        }
        i = 0;
        while i < NFD {
            assert!(is[i].kind == want[i].kind, "a program starts with a pipe end it shouldn't have, or without one");
            assert!(want[i].kind == K_NONE || is[i].id == want[i].id, "the ends of a pipe don't belong together");
            i += 1;
        }
        n += 1;
    }
    crate::reach!("compared");
    done()
}
fn go(specs: spec::Procs) -> ! {
    start_in_passes(specs, &[], compare, |_, _| {})
}
fn p(f: &[(&str, spec::Fd)]) -> spec::Proc {
    fds(proc_spec(strs(&["/x"])), f)
}
harness!(c06_forward, q, 40, 1, "the writer first; a duplicate of the write end and of the read end", {
    go(two(p(&[("1", PipeWrite), ("2", dup(1))]), p(&[("stdin", reader("a", "1")), ("4", dup(0))])))
});
harness!(c06_backward, t, 40, 1, "the reader first, names of descriptors, the writer's standard output captured", {
    go(two(p(&[("0", reader("b", "stderr"))]), p(&[("2", PipeWrite), ("1", memory())])))
});
harness!(c06_crossed, t, 40, 1, "two processes that read from each other", {
    go(two(p(&[("1", PipeWrite), ("0", reader("b", "1"))]), p(&[("0", reader("a", "stdout")), ("stdout", PipeWrite)])))
});
harness!(c06_double, q, 40, 1, "two pipes from one process to the other", {
    go(two(p(&[("1", PipeWrite), ("2", PipeWrite)]), p(&[("3", reader("a", "2")), ("4", reader("a", "1"))])))
});
harness!(c06_self, q, 40, 1, "a process that reads from itself", {
    go(one(p(&[("4", reader("a", "3")), ("3", PipeWrite)])))
});
/// A third process gets neither end.
fn third(n: i32, a: spec::Proc, b: spec::Proc, c: spec::Proc) {
    boot();
    k().follow_child = n;
    k().on_exec = Some(|k, _| {
        let mut i = 0;
        while i < NFD {
            assert!(k.fds[i].kind == if i < 3 { K_INHERIT } else { K_NONE }, "a process has an end of a pipe between others");
            i += 1;
        }
        crate::reach!("executed");
    });
    k().on_child_exit = Some(|_, _| panic!("the program is not executed"));
    let mut s = two(a, b);
    s.insert(st("c"), c);
    _ = procs::start_procs(s, &procs::SharedProcs::new());
    panic!("not all processes are started")
}
harness!(c06_between, q, 40, 1, "a process started between the writer and the reader", {
    third(2, p(&[("1", PipeWrite)]), p(&[]), p(&[("0", reader("a", "1"))]))
});
harness!(c06_after, t, 40, 1, "a process started after reader and writer", {
    third(3, p(&[("0", reader("b", "1"))]), p(&[("1", PipeWrite)]), p(&[]))
});
harness!(c06_before, t, 40, 1, "a process started before reader and writer", {
    third(1, p(&[]), p(&[("0", reader("c", "1"))]), p(&[("1", PipeWrite)]))
});
harness!(c06_same, t, 40, 1, "pipes at the same descriptor number in both processes", {
    go(two(p(&[("3", PipeWrite)]), p(&[("3", reader("a", "3"))])))
});
harness!(c06_close, t, 40, 1, "a write end that is moved and closed", {
    go(two(p(&[("3", PipeWrite), ("1", dup(3)), ("5", Close), ("0", Close)]), p(&[("0", reader("a", "3")), ("1", memory())])))
});
harness!(c06_reverse, t, 40, 1, "two pipes back to a process started first", {
    go(two(p(&[("3", reader("b", "1")), ("4", reader("b", "2"))]), p(&[("2", PipeWrite), ("1", PipeWrite)])))
});
