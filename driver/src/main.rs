//! Executes programs (sequences of API calls) against the real library and records what was observed.
//! It judges nothing: every verdict is made by the TLA+ specification that reads the recorded events.
mod alloc;
mod capi;
mod gen;
mod rapi;
mod json;

use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[global_allocator]
static GLOBAL: alloc::Poison = alloc::Poison;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // liqdrv PROGRAMS OUT [jobs]
    let text = std::fs::read_to_string(&args[1]).expect("programs");
    let out = Mutex::new(std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("out"));
    let jobs: usize = args.get(3).map_or(1, |j| j.parse().unwrap());
    if let Ok(p) = std::env::var("LIQDRV_POISON") {
        alloc::set_poison(p.parse().unwrap());
    }
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("LIQDRV_VERBOSE").is_some() { eprintln!("{i}"); }
    }));
    let mut progs: Vec<(String, Vec<&str>)> = Vec::new();
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() { continue; }
        if let Some(id) = l.strip_prefix("P ") {
            progs.push((id.to_string(), Vec::new()));
        } else {
            progs.last_mut().expect("P line first").1.push(l);
        }
    }
    let next = AtomicUsize::new(0);
    let run = || loop {
        let n = next.fetch_add(1, Ordering::SeqCst);
        let Some((id, lines)) = progs.get(n) else { break };
        {
            // lets the orchestrator see which program was running if the process dies
            let mut o = out.lock().unwrap();
            writeln!(o, "{{\"begin\":{}}}", json::s(id)).unwrap();
            o.flush().unwrap();
        }
        let ev = if lines.first().map_or(false, |l| l.starts_with("CAPI")) { capi::run(lines) } else { rapi::run(lines) };
        let mut o = out.lock().unwrap();
        writeln!(o, "{{\"id\":{},\"ev\":[{}]}}", json::s(id), ev.join(",")).unwrap();
        o.flush().unwrap();
    };
    if jobs <= 1 { run(); } else {
        std::thread::scope(|s| { for _ in 0..jobs { s.spawn(run); } });
    }
}
