//! Runs harnesses natively on concrete inputs. One line per run on stdin:
//! `name case in,in,..`; one line per run on stdout:
//! `outcome|message|tag:value,tag:value..`, flushed before the next run.
use pfs_harness::rt::imp::{Assumed, CutOff, Failed, Run, RUN};
use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let reg = pfs_harness::registry();
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let mut it = l.split(' ');
        let (name, case) = (it.next().unwrap(), it.next().unwrap().parse::<u64>().unwrap());
        let inputs: Vec<u64> = it.next().unwrap_or("").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let h = match reg.iter().find(|h| h.name == name) {
            Some(h) => h,
            None => {
                println!("nosuch||");
                continue;
            }
        };
        RUN.with(|r| *r.borrow_mut() = Run { inputs, ..Default::default() });
        let r = std::panic::catch_unwind(|| (h.f)(case));
        let run = RUN.with(|r| std::mem::take(&mut *r.borrow_mut()));
        let (o, m) = match r {
            Ok(()) => ("ok", String::new()),
            Err(p) => {
                if let Some(f) = p.downcast_ref::<Failed>() {
                    ("assert", format!("{}:{}", f.0, f.1))
                } else if p.is::<Assumed>() {
                    ("assumed", String::new())
                } else if p.is::<CutOff>() {
                    ("cut", String::new())
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    ("panic", s.to_string())
                } else if let Some(s) = p.downcast_ref::<String>() {
                    ("panic", s.clone())
                } else {
                    ("panic", "?".into())
                }
            }
        };
        let obs: Vec<String> = run.obs.iter().map(|(t, v)| format!("{}:{}", t, v)).collect();
        let m = m.replace(['|', '\n'], " ");
        println!("{}|{}{}|{}", o, m, if run.exhausted { " (inputs exhausted)" } else { "" }, obs.join(","));
        std::io::stdout().flush().unwrap();
    }
}
