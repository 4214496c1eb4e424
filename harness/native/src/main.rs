//! Runs a harness on concrete inputs against the real crate with its real dependencies.
//! usage: replay ENTRY CASES FILE     one assignment per line of FILE: "id=value id=value ..."
//! prints one line per assignment:  ok|panic|assume TAB failed ids TAB id:value,... TAB message
use h::sym::{AssumeFailed, Run, RUN};
use std::cell::RefCell;
use std::io::Write;

thread_local! { static MSG: RefCell<String> = RefCell::new(String::new()); }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = h::entry(&a[1]).expect("unknown entry");
    let cases: Vec<u64> = a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|i| {
        MSG.with(|m| *m.borrow_mut() = i.to_string().replace(['\n', '\t'], " "));
    }));
    for line in std::fs::read_to_string(&a[3]).unwrap().lines() {
        let inputs = line
            .split_whitespace()
            .map(|kv| {
                let (k, v) = kv.split_once('=').unwrap();
                (k.parse().unwrap(), v.parse().unwrap())
            })
            .collect();
        RUN.with(|r| *r.borrow_mut() = Run { inputs, cases: cases.clone(), ..Default::default() });
        MSG.with(|m| m.borrow_mut().clear());
        let res = std::panic::catch_unwind(|| f());
        let st = match &res {
            Ok(()) => "ok",
            Err(e) if e.is::<AssumeFailed>() => "assume",
            Err(_) => "panic",
        };
        RUN.with(|r| {
            let r = r.borrow();
            let failed: Vec<String> = r.failed.iter().map(|x| x.to_string()).collect();
            let obs: Vec<String> = r.obs.iter().map(|(k, v)| format!("{k}:{v}")).collect();
            println!("{st}\t{}\t{}\t{}", failed.join(","), obs.join(","), MSG.with(|m| m.borrow().clone()));
        });
        std::io::stdout().flush().unwrap();
    }
}
