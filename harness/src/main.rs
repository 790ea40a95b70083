//! Conformance of the fixnum crate to the Quint specification in ../spec.
//!
//!   conform check PROP --out DIR [--seed N] [--scale X] [--seconds N] [--digest]
//!   conform replay FILE            events in, events with outcomes out
//!   conform judge IN OUT           events with outcomes in, true or false out
//!   conform code IN OUT            events as source code, for the feature `machine`
//!   conform answers                executes what has been compiled in that way
//!   conform job PROP INDEX ...     one job of a plan, all outcomes printed

mod codec;
mod fx;
mod gen;
mod itf;
mod props;
mod rng;
mod run;
#[cfg(feature = "codecs")]
mod tell;
mod trace;
mod via;
mod wrap;
mod z;
mod spec {
    #![allow(dead_code, unused_parens, unused_variables, unused_imports, clippy::all, non_camel_case_types, non_snake_case)]
    use crate::itf::*;
    use crate::z::{self, Z};
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/spec.rs"));
}

use itf::ToQuint;
use run::*;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

struct Args(Vec<String>);
impl Args {
    fn opt(&self, name: &str) -> Option<&str> {
        self.0.iter().position(|a| a == name).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn flag(&self, name: &str) -> bool {
        self.0.iter().any(|a| a == name)
    }
    fn num(&self, name: &str, default: f64) -> f64 {
        self.opt(name).map_or(default, |s| s.parse().unwrap_or_else(|_| harness_error(name)))
    }
}

fn main() {
    install_hook();
    let args = Args(std::env::args().skip(1).collect());
    match args.0.first().map(|s| s.as_str()) {
        Some("check") => check(&args),
        Some("replay") => replay(&args),
        Some("judge") => judge_file(&args),
        Some("code") => code(&args),
        #[cfg(feature = "machine")]
        Some("answers") => answers(&args),
        Some("job") => job(&args),
        #[cfg(feature = "codecs")]
        Some("schemas") => {
            let mut rng = rng::Rng::new(args.num("--seed", 1.0) as u64);
            let rng = std::cell::RefCell::new(&mut rng);
            let text = codec::schemas(&|w, p| {
                let mut v = props::corners(w, p);
                v.extend((0..40).map(|_| gen::value(&mut rng.borrow_mut(), w)));
                v
            });
            std::fs::write(args.opt("--out").unwrap(), text).unwrap();
        }
        Some("trace") => trace::main(&args.0[1..]),
        _ => harness_error("usage: conform check|replay|job|trace ..."),
    }
}

fn job_seed(seed: u64, prop: &str, i: usize) -> u64 {
    prop.bytes().fold(seed.wrapping_mul(0x100_0000_01b3), |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3)) ^ (i as u64) << 20
}

fn check(args: &Args) {
    let prop = args.0[1].as_str();
    let out = std::path::PathBuf::from(args.opt("--out").unwrap());
    let seed = args.num("--seed", 1.0) as u64;
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    fx::ONLY.store(args.num("--layout", 0.0) as u32, Ordering::Relaxed);
    let plan = props::plan(prop, args.num("--scale", 1.0));
    let mut shared = Shared::new(seed, Duration::from_secs_f64(args.num("--seconds", 60.0)), threads);
    shared.digest = args.flag("--digest");
    let (shared, plan) = (&shared, &plan);
    let order = &plan.order();
    let next = AtomicUsize::new(0);
    let done = AtomicBool::new(false);
    let t0 = Instant::now();
    let report = std::thread::scope(|sc| {
        let handles: Vec<_> = (0..threads)
            .map(|id| {
                let next = &next;
                sc.spawn(move || {
                    let mut sink = Sink::new(shared, id);
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        let Some(&i) = order.get(i) else { return sink.report };
                        let f = &plan.jobs[i];
                        sink.rng = rng::Rng::new(job_seed(seed, prop, i));
                        (sink.hash, sink.job_events, sink.hashed) = (0, 0, 0);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut sink)));
                        if r.is_err() {
                            harness_error(&format!("job {i} of {prop}: {}", last_panic()));
                        }
                        if shared.digest && !sink.report.cut {
                            let d = (sink.hashed, sink.hash);
                            sink.report.digests.insert(i, d);
                        }
                    }
                })
            })
            .collect();
        // calls that do not come back
        let watch = {
            let (out, done) = (out.clone(), &done);
            sc.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(100));
                    let s = shared.stuck(Duration::from_secs(20));
                    if !s.is_empty() {
                        let t: String = s.iter().map(|e| e.json(None) + "\n").collect();
                        std::fs::write(out.join("stuck.ndjson"), t).unwrap();
                        std::process::exit(4);
                    }
                }
            })
        };
        let mut all = Report::default();
        for h in handles {
            all.merge(h.join().unwrap());
        }
        done.store(true, Ordering::Relaxed);
        watch.join().unwrap();
        all
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(out.join("rejects.ndjson")).unwrap());
    for (e, o, note) in report.rejects.iter().take(60) {
        let j = e.json(Some(o));
        let note: String = note.chars().filter(|c| *c >= ' ' && *c != '"' && *c != '\\').collect();
        writeln!(f, "{},\"note\":\"{}\"}}", &j[..j.len() - 1], note).unwrap();
    }
    f.flush().unwrap();
    let mut f = std::io::BufWriter::new(std::fs::File::create(out.join("unrelated.ndjson")).unwrap());
    for [(a, n), (b, x)] in report.unrelated.iter().take(60) {
        writeln!(f, "{{\"narrow\":{},\"wide\":{}}}", a.json(Some(n)), b.json(Some(x))).unwrap();
    }
    f.flush().unwrap();
    let mut f = std::io::BufWriter::new(std::fs::File::create(out.join("sample.ndjson")).unwrap());
    let mut first: Vec<_> = report.first.iter().collect();
    first.sort_by_key(|x| x.0);
    for (_, (e, o)) in &first {
        writeln!(f, "{}", e.json(Some(o))).unwrap();
    }
    for (e, o) in &report.sample {
        writeln!(f, "{}", e.json(Some(o))).unwrap();
    }
    f.flush().unwrap();
    let mut tally: Vec<_> = report.tally.iter().collect();
    tally.sort();
    let tally: Vec<String> = tally.iter().map(|((v, c, o), n)| format!("\"{}.{c}.{o}\":{n}", v.name())).collect();
    let digests: Vec<String> = report.digests.iter().map(|(i, (n, h))| format!("[{i},{n},\"{h:016x}\"]")).collect();
    let s = format!(
        "{{\"events\":{},\"distinct\":{},\"rejected\":{},\"jobs\":{},\"cut\":{},\"seconds\":{:.2},\"tally\":{{{}}},\"digests\":[{}]}}",
        report.events,
        shared.distinct.load(Ordering::Relaxed),
        report.rejected,
        plan.jobs.len(),
        report.cut,
        t0.elapsed().as_secs_f64(),
        tally.join(","),
        digests.join(","),
    );
    std::fs::write(out.join("summary.json"), &s).unwrap();
}

/// Runs one job, writing every event with its outcome.
fn job(args: &Args) {
    let prop = args.0[1].as_str();
    let i: usize = args.0[2].parse().unwrap();
    let seed = args.num("--seed", 1.0) as u64;
    fx::ONLY.store(args.num("--layout", 0.0) as u32, Ordering::Relaxed);
    let plan = props::plan(prop, args.num("--scale", 1.0));
    let shared = Shared::new(seed, Duration::from_secs(300), 1);
    let mut sink = Sink::new(&shared, 0);
    sink.dump = Some(std::fs::File::create(args.opt("--out").unwrap()).unwrap());
    sink.rng = rng::Rng::new(job_seed(seed, prop, i));
    plan.jobs[i](&mut sink);
}

/// Executes the events this program has been compiled with, one in `stride` from
/// `start`, and prints what they answer, without judging it: made to be run on
/// slow machines.
#[cfg(feature = "machine")]
fn answers(args: &Args) {
    let (start, stride) = (args.num("--start", 0.0) as usize, args.num("--stride", 1.0) as usize);
    for (i, f) in machine::EVENTS.iter().enumerate().skip(start).step_by(stride) {
        // what is printed before the end names the call that has none
        print!("{i} ");
        std::io::stdout().flush().unwrap();
        match execute(&f()) {
            None => println!("missing"),
            Some(o) => println!("{}", o.itf()),
        }
    }
    for (i, f) in machine::LITERALS.iter().enumerate().skip(start).step_by(stride) {
        println!("literal {i} {}", f());
    }
    for (i, f) in machine::MEMORY.iter().enumerate().skip(start).step_by(stride) {
        println!("memory {i} {:?}", f());
    }
    println!("end");
}
#[cfg(feature = "machine")]
#[allow(unused_imports)]
mod machine {
    /// The bytes of a number, an integer's bytes taken for a number, and sizes and
    /// alignments of both.
    fn memory<T: Copy, I: Copy>(x: T, i: I, bits: fn(T) -> i128) -> (Vec<u8>, i128, [usize; 2], [usize; 2]) {
        use std::mem::{align_of, size_of, MaybeUninit};
        let mut bytes = vec![0u8; size_of::<T>()];
        let mut y = MaybeUninit::<T>::zeroed();
        let back = unsafe {
            std::ptr::copy_nonoverlapping(&x as *const T as *const u8, bytes.as_mut_ptr(), size_of::<T>());
            std::ptr::copy_nonoverlapping(&i as *const I as *const u8, y.as_mut_ptr() as *mut u8, size_of::<T>().min(size_of::<I>()));
            bits(y.assume_init())
        };
        (bytes, back, [size_of::<T>(), align_of::<T>()], [size_of::<I>(), align_of::<I>()])
    }
    use crate::run::Event;
    use crate::spec::{Call::*, Mode::*, *};
    use crate::via::Via;
    use crate::z::Z::*;
    include!(env!("CONFORM_EVENTS"));
}
/// Events as source code for the above: reading them would take such machines
/// longer than executing them.
fn code(args: &Args) {
    let text = std::fs::read_to_string(&args.0[1]).unwrap_or_else(|e| harness_error(&e.to_string()));
    let mut out = String::from("pub const EVENTS: &[fn() -> Event] = &[\n");
    for line in text.lines() {
        let Some(e) = Event::parse(line) else { harness_error(&format!("cannot read {line}")) };
        let call = format!("{:?}", e.call).replace('[', "vec![");
        out += &format!("|| Event {{ w: {}, p: {}, via: Via::{}, call: {call} }},\n", e.w, e.p, e.via.name());
    }
    std::fs::write(&args.0[2], out + "];\n").unwrap();
}

/// What the compiled specification says about recorded events.
fn judge_file(args: &Args) {
    use itf::FromQuint;
    let text = std::fs::read_to_string(&args.0[1]).unwrap_or_else(|e| harness_error(&e.to_string()));
    let mut out = String::new();
    for line in text.lines() {
        let e = Event::parse(line);
        let o = itf::J::parse(line).and_then(|j| spec::Outcome::from_quint(j.get("outcome")?));
        let (Some(e), Some(o)) = (e, o) else { harness_error(&format!("cannot read {line}")) };
        out += if judge(&e, &o) { "true\n" } else { "false\n" };
    }
    std::fs::write(&args.0[2], out).unwrap();
}

/// Executes the events of a file; prints them with what they answer now and
/// whether the compiled specification accepts that.
fn replay(args: &Args) {
    let f = std::fs::File::open(&args.0[1]).unwrap_or_else(|e| harness_error(&e.to_string()));
    let mut bad = false;
    for line in std::io::BufReader::new(f).lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let Some(e) = Event::parse(&line) else { harness_error(&format!("cannot read {line}")) };
        match execute(&e) {
            None => println!("{{\"missing\":{line}}}"),
            Some(o) => {
                let ok = judge(&e, &o);
                bad |= !ok;
                let j = e.json(Some(&o));
                println!("{},\"accepted\":{ok}}}", &j[..j.len() - 1]);
                if !ok {
                    eprintln!("rejected: {} answers {}", e.call.itf(), o.itf());
                }
            }
        }
    }
    std::process::exit(bad as i32);
}
