//! C02: a process gets exactly the environment its spec describes.
//% outside: more than five variables in procstar's environment, more than two names inherited or set; symbolic names and values longer than 2 bytes; names containing "="; variables that are not valid Unicode
//% assume: names in procstar's own environment are distinct; no NUL bytes
use super::common::*;

type Var = (String, String);
static mut PARENT: (Vec<Var>, u64) = (Vec::new(), 0x6d63_cfc0641d);
static mut SPEC: (Option<spec::Env>, u64) = (None, 0x6d63_6df7ddce);
/// The name asked about: an arbitrary one.
static mut Q: (String, u64) = (String::new(), 0x6d63_0c2f577f);

const SECRET: [&str; 3] = ["PROCSTAR_AGENT_CERT", "PROCSTAR_AGENT_KEY", "PROCSTAR_AGENT_TOKEN"];

fn eq(a: &str, b: &str) -> bool {
    same(a.as_bytes(), b.as_bytes())
}
fn secret(q: &str) -> bool {
    eq(q, SECRET[0]) | eq(q, SECRET[1]) | eq(q, SECRET[2])
}
fn inherited(q: &str, s: &spec::Env) -> bool {
    match &s.inherit {
        spec::EnvInherit::None => false,
        spec::EnvInherit::All => true,
        spec::EnvInherit::Vars(l) => {
            let mut r = false;
            for n in l.iter() {
                r |= eq(n, q);
            }
            r
        }
    }
}
/// Whether the environment entry `e` is exactly name=value.
fn is(e: &[u8], n: &str, v: &str) -> bool {
    let (n, v) = (n.as_bytes(), v.as_bytes());
    if e.len() != n.len() + 1 + v.len() {
        return false;
    }
    same(&e[..n.len()], n) & (e[n.len()] == b'=') & same(&e[n.len() + 1..], v)
}
fn named(e: &[u8], n: &str) -> bool {
    let n = n.as_bytes();
    e.len() > n.len() && same(&e[..n.len()], n) & (e[n.len()] == b'=')
}

fn hooks() {
    k().on_exec = Some(|_, r| {
        let (parent, s, q) = unsafe { (&PARENT.0, SPEC.0.as_ref().unwrap(), &Q.0) };
        // How often q appears, and whether rightly.
        let mut n = 0u32;
        for e in r.env.iter() {
            if named(e, q) {
                n += 1;
            }
        }
        assert!(n <= 1, "a variable appears twice");
        let mut setting: Option<&Option<String>> = None;
        for (name, v) in s.vars.iter() {
            if eq(name, q) {
                setting = Some(v);
            }
        }
        match setting {
            Some(Some(v)) => {
                let mut ok = false;
                for e in r.env.iter() {
                    ok |= is(e, q, v);
                }
                assert!(ok, "a variable set by the spec is missing or has another value");
                crate::reach!("set");
            }
            Some(None) => {
                assert!(n == 0, "a variable removed by the spec is present");
                crate::reach!("removed");
            }
            None => {
                let mut expect = false;
                let mut ok = false;
                for (name, v) in parent.iter() {
                    if eq(name, q) {
                        if inherited(q, s) && !secret(q) {
                            expect = true;
                            for e in r.env.iter() {
                                ok |= is(e, q, v);
                            }
                        }
                    }
                }
                if expect {
                    assert!(ok, "an inherited variable is missing or has another value");
                    crate::reach!("inherited");
                } else {
                    assert!(n == 0, "a variable is present that should not be");
                    crate::reach!("absent");
                }
            }
        }
    });
}
fn go(parent: Vec<Var>, env: spec::Env, q: String) {
    boot();
    k().follow_child = 1;
    unsafe {
        *std::env::mc_vars() = parent.clone();
        PARENT.0 = parent;
        SPEC.0 = Some(env.clone());
        Q.0 = q;
    }
    hooks();
    let mut p = proc_spec(strs(&["/x"]));
    p.env = env;
    let procs = procs::SharedProcs::new();
    let _ = procs::start_procs(one(p), &procs);
    done();
}
fn v(n: &str, l: usize) -> Var {
    (st(n), sym(l))
}
/// A symbolic name of `n` bytes.
fn name(n: usize) -> String {
    let s = sym(n);
    let mut i = 0;
    while i < n {
        nd::assume(s.as_bytes()[i] != b'=');
        i += 1;
    }
    s
}
/// One of the names of interest, or an arbitrary one of one byte.
fn pick(names: &[&str]) -> String {
    let i = nd::u8() as usize;
    let mut j = 0;
    while j < names.len() {
        if i == j {
            return st(names[j]);
        }
        j += 1;
    }
    name(1)
}
fn vars(l: Vec<(String, Option<String>)>) -> BTreeMap<String, Option<String>> {
    let mut m = BTreeMap::new();
    for (k, v) in l {
        m.insert(k, v);
    }
    m
}

harness!(c02_all, q, 60, 1, "everything inherited: two ordinary variables with any 2-byte values, one of them of the spec too, the three credentials", {
    let parent = std::vec::Vec::from([v("A", 2), v("PROCSTAR_AGENT_TOKEN", 1), v("PROCSTAR_AGENT_CERT", 1), v("PROCSTAR_AGENT_KEY", 1), v("PROCSTAR_AGENT_HOST", 1)]);
    let q = name(1);
    go(parent, spec::Env { inherit: spec::EnvInherit::All, vars: vars(std::vec::Vec::from([])) }, q);
});
fn env(i: spec::EnvInherit, l: Vec<(String, Option<String>)>) -> spec::Env {
    spec::Env { inherit: i, vars: vars(l) }
}
/// Two ordinary variables, three credentials, one more of the agent's.
fn parent() -> Vec<Var> {
    std::vec::Vec::from([v("A", 2), v("PROCSTAR_AGENT_TOKEN", 1), v("PROCSTAR_AGENT_CERT", 1), v("PROCSTAR_AGENT_KEY", 1), v("PROCSTAR_AGENT_HOST", 1), v("BB", 0)])
}
harness!(c02_all_set, q, 60, 3, "everything inherited; an inherited variable overridden, one added, one removed, one removed that does not exist; values any 1 byte or empty; any name of 1 byte asked about", {
    let e = env(spec::EnvInherit::All, std::vec::Vec::from([(st("A"), Some(sym(1))), (st("C"), Some(sym(0))), (st("D"), None), (st("E"), None)]));
    let p = std::vec::Vec::from([v("A", 2), v("D", 1), v("F", 1)]);
    go(p, e, name(1));
});
harness!(c02_all_cred, q, 60, 1, "everything inherited; the credentials asked about by name", {
    let e = env(spec::EnvInherit::All, std::vec::Vec::new());
    let q = pick(&["PROCSTAR_AGENT_TOKEN", "PROCSTAR_AGENT_CERT", "PROCSTAR_AGENT_KEY"]);
    go(parent(), e, q);
});
harness!(c02_all_other, t, 60, 1, "everything inherited; other variables of the agent and an empty value", {
    let e = env(spec::EnvInherit::All, std::vec::Vec::new());
    let q = pick(&["PROCSTAR_AGENT_HOST", "BB"]);
    go(parent(), e, q);
});
harness!(c02_none, q, 60, 3, "nothing inherited; one variable set, one removed", {
    let e = env(spec::EnvInherit::None, std::vec::Vec::from([(st("C"), Some(sym(2))), (st("D"), None)]));
    let p = std::vec::Vec::from([v("A", 2), v("C", 1)]);
    go(p, e, name(1));
});
harness!(c02_list, q, 60, 2, "two names listed, one of which does not exist; any name of 1 byte asked about", {
    let e = env(spec::EnvInherit::Vars(strs(&["A", "Z"])), std::vec::Vec::new());
    let p = std::vec::Vec::from([v("A", 2), v("F", 1)]);
    go(p, e, name(1));
});
harness!(c02_list_near, t, 60, 2, "listed names that differ from existing ones in case or by a suffix; any name of 1 byte asked about", {
    let e = env(spec::EnvInherit::Vars(strs(&["a", "FF", ""])), std::vec::Vec::new());
    let p = std::vec::Vec::from([v("A", 1), v("F", 1), v("a", 1)]);
    go(p, e, name(1));
});
harness!(c02_list_cred, q, 60, 1, "a credential listed by name among the inherited", {
    let e = env(spec::EnvInherit::Vars(strs(&["PROCSTAR_AGENT_TOKEN", "PROCSTAR_AGENT_KEY", "PROCSTAR_AGENT_CERT"])), std::vec::Vec::new());
    let q = pick(&["PROCSTAR_AGENT_TOKEN", "PROCSTAR_AGENT_CERT", "PROCSTAR_AGENT_KEY"]);
    go(parent(), e, q);
});
harness!(c02_list_set, t, 60, 4, "two names listed, one overridden, one removed, one added", {
    let e = env(spec::EnvInherit::Vars(strs(&["A", "D", "F"])), std::vec::Vec::from([(st("A"), Some(sym(1))), (st("C"), Some(sym(1))), (st("D"), None)]));
    let p = std::vec::Vec::from([v("A", 1), v("D", 1), v("F", 1)]);
    go(p, e, name(1));
});
harness!(c02_cred_set, q, 60, 3, "a credential set explicitly by the spec, another removed", {
    let e = env(spec::EnvInherit::All, std::vec::Vec::from([(st("PROCSTAR_AGENT_TOKEN"), Some(sym(1))), (st("PROCSTAR_AGENT_KEY"), None)]));
    let q = pick(&["PROCSTAR_AGENT_TOKEN", "PROCSTAR_AGENT_KEY", "PROCSTAR_AGENT_CERT"]);
    go(std::vec::Vec::from([v("PROCSTAR_AGENT_TOKEN", 1), v("PROCSTAR_AGENT_KEY", 1), v("PROCSTAR_AGENT_CERT", 1)]), e, q);
});
