//! Native replay.  Reads lines "<harness> <input> <input> ..." and prints for each line
//! "<outcome> <observes>": outcome is ok, fail:<ids>, panic (unexpected), panic-ok (expected),
//! assume (inputs outside the harness's assumptions) or short (not enough inputs).
use harness::sym::{Run, RUN};
use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let reg = harness::registry();
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let Some(name) = it.next() else { continue };
        let inputs: Vec<u128> = it.map(|x| x.parse().unwrap()).collect();
        let f = match reg.iter().find(|r| r.0 == name) {
            Some(r) => r.1,
            None => {
                println!("unknown-harness");
                continue;
            }
        };
        RUN.with(|r| *r.borrow_mut() = Run { inputs, ..Run::default() });
        let r = std::panic::catch_unwind(f);
        let s = RUN.with(|run| {
            let run = run.borrow();
            let obs = run.observes.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",");
            let o = if !run.failed.is_empty() {
                format!("fail:{}", run.failed.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","))
            } else if run.assume_failed {
                "assume".to_string()
            } else if run.short {
                "short".to_string()
            } else if r.is_err() {
                (if run.panic_ok { "panic-ok" } else { "panic" }).to_string()
            } else {
                "ok".to_string()
            };
            format!("{o} {obs}")
        });
        writeln!(out.lock(), "{s}").unwrap();
    }
}
