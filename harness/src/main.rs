mod alloc;
mod gen;
mod js;
mod k1;
mod k2;
mod k3;
mod k4;
mod k5;
mod props;
mod replay;
mod rng;
mod tag;
mod watch;

use k1::{Events, Fault, Opt, Sched};
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// Traces of one generated case
#[derive(Default)]
pub struct Out {
    pub lines: Vec<String>,
    pub execs: usize,
    pending: Vec<(String, Vec<u8>, Opt, Vec<Fault>, Sched, Events)>,
}

impl Out {
    pub fn push_k1(&mut self, tag: &str, file: &[u8], opt: &Opt, faults: &[Fault], s: &Sched, ev: Events) {
        self.pending.push((tag.into(), file.into(), *opt, faults.into(), s.clone(), ev));
    }
    /// only results of crashed executions are of further interest
    pub fn keep_panics(&mut self) {
        self.lines.retain(|l| l.contains("\"r\":\"panic\"") || l.contains("\"e\":\"panic\"") || l.contains("\"e\":\"stuck\"") || l.contains("\"e\":\"over\""));
    }
    pub fn peak_update(&mut self, i: usize, pk: i64) {
        let e = &mut self.pending[0].5[i].1;
        *e = (*e).max(pk);
    }
    pub fn finish_case(&mut self) {
        watch::end();
        for (tag, file, opt, faults, s, ev) in self.pending.drain(..) {
            self.lines.push(k1::case_json(&tag, &file, &opt, &faults, &s, &ev));
        }
    }
}

/// Runs n generated cases in parallel, in deterministic order of output.
pub fn parallel(n: usize, seed: u64, f: impl Fn(usize, &mut rng::Rng, &mut Out) + Sync) -> (Vec<String>, usize) {
    let next = AtomicUsize::new(0);
    let all: Mutex<HashMap<usize, Vec<String>>> = Mutex::new(HashMap::new());
    let execs = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n { break; }
                let mut r = rng::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
                let mut out = Out::default();
                f(i, &mut r, &mut out);
                execs.fetch_add(out.execs, Ordering::Relaxed);
                all.lock().unwrap().insert(i, out.lines);
            });
        }
    });
    let mut all = all.into_inner().unwrap();
    let mut lines = vec![];
    for i in 0..n { lines.append(&mut all.remove(&i).unwrap()); }
    (lines, execs.into_inner())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, thorough, seed, dir) = (&a[1], a[2] == "thorough", a[3].parse::<u64>().unwrap(), &a[4]);
    watch::start(format!("{dir}/hang.json"), std::time::Duration::from_secs(30));
    watch::on_signals(format!("{dir}/hang.json"));
    std::panic::set_hook(Box::new(|_| {}));
    let salt: u64 = prop.bytes().map(u64::from).fold(7, |a, b| a * 131 + b);
    // scripts: replay them instead of generating
    let (res, name) = match a.get(5) {
        None => (props::generate(prop, thorough, seed ^ (salt << 20)), "stats"),
        Some(path) => (replay::generate(&std::fs::read_to_string(path).unwrap(), a.get(6).is_some(), seed), "stats-model"),
    };
    let mut stats = String::from("{");
    for (kind, (lines, execs)) in res {
        let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/{kind}.ndjson")).unwrap());
        for (i, l) in lines.iter().enumerate() {
            writeln!(f, "{{\"id\":{},{}", i + 1, &l[1..]).unwrap();
        }
        f.flush().unwrap();
        stats.push_str(&format!("\"{kind}\":{{\"traces\":{},\"execs\":{}}},", lines.len(), execs));
    }
    stats.push_str("\"ok\":true}");
    std::fs::write(format!("{dir}/{name}.json"), stats).unwrap();
}
