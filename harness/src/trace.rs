//! Histories: replays behaviours of the state machines (ITF traces) on the
//! library, and records histories of the library for the specification.

use crate::itf::{FromQuint, ToQuint, J};
use crate::props::any_call;
use crate::rng::Rng;
use crate::run::*;
use crate::spec::*;
use crate::via::Via;
use crate::z::{zi, Z};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{mpsc, Barrier, Mutex};

// ------------------------------------------------------------------- replaying
struct Made {
    event: Event,
    outcome: Outcome,
    dst: i128,
}
struct State {
    action: String,
    tid: usize,
    script: Vec<Made>,
    regs: Vec<Vec<Z>>,
}

fn read(file: &str) -> Option<Vec<State>> {
    let j = J::parse(&std::fs::read_to_string(file).ok()?)?;
    let mut out = vec![];
    for s in j.get("states")?.arr()? {
        let mut script = vec![];
        for m in s.get("script")?.arr()? {
            script.push(Made {
                event: Event {
                    w: m.get("w")?.int()?.i128() as u32,
                    p: m.get("p")?.int()?.i128() as u32,
                    via: Via::parse(m.get("via")?.str()?)?,
                    call: Call::from_quint(m.get("call")?)?,
                },
                outcome: Outcome::from_quint(m.get("outcome")?)?,
                dst: m.get("dst")?.int()?.i128(),
            });
        }
        let mut regs: Vec<(usize, Vec<Z>)> = vec![];
        for kv in s.get("regs")?.get("#map")?.arr()? {
            let kv = kv.arr()?;
            regs.push((kv[0].int()?.i128() as usize, Vec::from_quint(&kv[1])?));
        }
        regs.sort_by_key(|x| x.0);
        out.push(State {
            action: s.get("mbt::actionTaken").and_then(|a| a.str()).unwrap_or("").to_string(),
            tid: s.get("tid")?.int()?.i128() as usize,
            script,
            regs: regs.into_iter().map(|x| x.1).collect(),
        });
    }
    Some(out)
}

fn store(regs: &mut [Z], dst: i128, o: &Outcome) {
    if let (true, Outcome::Ret(r)) = (dst >= 0, o) {
        regs[dst as usize] = r.clone();
    }
}

struct Mismatch {
    file: String,
    how: &'static str,
    /// the calls up to the one that went wrong, in order, at most 40
    before: Vec<Event>,
    event: Event,
    got: Outcome,
    want: Outcome,
}

fn step_on(regs: &mut [Z], m: &Made) -> Outcome {
    let o = execute(&m.event).unwrap_or_else(|| harness_error(&format!("no such call: {}", m.event.json(None))));
    store(regs, m.dst, &o);
    o
}

/// In the order of the trace: every thread of the machine is a thread of the
/// program, which waits for its turn.
fn replay_ordered(file: &str, states: &[State], bad: &mut Vec<Mismatch>) -> u64 {
    let n = states[0].regs.len();
    let mut made = 0;
    std::thread::scope(|sc| {
        let mut to = vec![];
        let (back, from) = mpsc::channel::<(Vec<Outcome>, Vec<Z>)>();
        for t in 0..n {
            let (tx, rx) = mpsc::channel::<usize>();
            to.push(tx);
            let back = back.clone();
            sc.spawn(move || {
                let mut regs = states[0].regs[t].clone();
                for i in rx {
                    let o = states[i].script.iter().map(|m| step_on(&mut regs, m)).collect();
                    back.send((o, regs.clone())).unwrap();
                }
            });
        }
        for (i, s) in states.iter().enumerate() {
            if s.script.is_empty() {
                continue;
            }
            to[s.tid].send(i).unwrap();
            let (outcomes, regs) = from.recv().unwrap_or_else(|_| harness_error("a replaying thread died"));
            for (k, (m, o)) in s.script.iter().zip(&outcomes).enumerate() {
                made += 1;
                if *o != m.outcome {
                    let mut before: Vec<Event> = states[..i].iter().flat_map(|s| s.script.iter().map(|m| m.event.clone())).collect();
                    before.extend(s.script[..k].iter().map(|m| m.event.clone()));
                    let before = before.split_off(before.len().saturating_sub(40));
                    bad.push(Mismatch { file: file.into(), how: "ordered", before, event: m.event.clone(), got: o.clone(), want: m.outcome.clone() });
                    return;
                }
            }
            if regs != s.regs[s.tid] {
                harness_error(&format!("{file}: registers after state {i} differ, outcomes do not"));
            }
        }
    });
    made
}

/// All threads at once, each with its own part of the trace, several times.
fn replay_free(file: &str, states: &[State], rounds: usize, bad: &Mutex<Vec<Mismatch>>) -> u64 {
    let n = states[0].regs.len();
    let barrier = &Barrier::new(n);
    let made = &AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for t in 0..n {
            sc.spawn(move || {
                barrier.wait();
                for _ in 0..rounds {
                    let mut regs = states[0].regs[t].clone();
                    let mut before = vec![];
                    for s in states.iter().filter(|s| s.tid == t && !s.script.is_empty()) {
                        for m in &s.script {
                            made.fetch_add(1, Relaxed);
                            let o = step_on(&mut regs, m);
                            if o != m.outcome {
                                bad.lock().unwrap().push(Mismatch {
                                    file: file.into(), how: "free", before, event: m.event.clone(), got: o, want: m.outcome.clone(),
                                });
                                return;
                            }
                            if before.len() == 40 {
                                before.remove(0);
                            }
                            before.push(m.event.clone());
                        }
                    }
                }
            });
        }
    });
    made.load(Relaxed) as u64
}

fn write_mismatches(out: &Path, bad: &[Mismatch]) {
    let mut f = std::fs::File::create(out.join("mismatches.ndjson")).unwrap();
    for m in bad.iter().take(40) {
        let before: Vec<String> = m.before.iter().map(|e| e.json(None)).collect();
        let e = m.event.json(Some(&m.got));
        let e = &e[..e.len() - 1];
        writeln!(f, "{e},\"expected\":{},\"how\":\"{}\",\"file\":\"{}\",\"before\":[{}]}}", m.want.itf(), m.how, m.file, before.join(",")).unwrap();
    }
}

fn replay_main(out: &Path, rounds: usize, files: &[String]) {
    let traces: Vec<(String, Vec<State>)> = files
        .iter()
        .map(|f| (f.clone(), read(f).unwrap_or_else(|| harness_error(&format!("cannot read {f}")))))
        .collect();
    let mut bad = vec![];
    let (mut ordered, mut free, mut steps) = (0, 0, 0);
    let mut actions: HashMap<String, u64> = HashMap::new();
    let mut tally: HashMap<(&'static str, &'static str), u64> = HashMap::new();
    let mut distinct = std::collections::HashSet::new();
    for (f, s) in &traces {
        ordered += replay_ordered(f, s, &mut bad);
        for x in s.iter().filter(|x| !x.script.is_empty()) {
            steps += 1;
            *actions.entry(x.action.clone()).or_default() += 1;
            for m in &x.script {
                *tally.entry((m.event.call.tag(), m.outcome.tag())).or_default() += 1;
                distinct.insert(m.event.json(None));
            }
        }
    }
    let shared = Mutex::new(vec![]);
    for (f, s) in &traces {
        free += replay_free(f, s, rounds, &shared);
    }
    bad.extend(shared.into_inner().unwrap());
    write_mismatches(out, &bad);
    let map = |m: Vec<(String, u64)>| {
        let mut m = m;
        m.sort();
        m.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect::<Vec<_>>().join(",")
    };
    let s = format!(
        "{{\"traces\":{},\"steps\":{steps},\"ordered\":{ordered},\"free\":{free},\"distinct\":{},\"mismatches\":{},\"actions\":{{{}}},\"tally\":{{{}}}}}",
        traces.len(),
        distinct.len(),
        bad.len(),
        map(actions.into_iter().collect()),
        map(tally.into_iter().map(|((c, o), n)| (format!("{c}.{o}"), n)).collect()),
    );
    std::fs::write(out.join("summary.json"), s).unwrap();
}

// ------------------------------------------------------------------- recording
const REGS: usize = 5;

/// A program that chooses its calls by what it has computed so far.
struct Program {
    rng: Rng,
    regs: Vec<Z>,
    recent: Vec<Event>,
    formats: std::rc::Rc<Vec<(u32, u32)>>,
}

fn wrap(w: u32, z: &Z) -> Z {
    let m = crate::z::pow(&zi(2), &zi(w as i128));
    let neg = *z < zi(0);
    let a = if neg { crate::z::neg(z) } else { z.clone() };
    let r = crate::z::rem(&a, &m);
    let r = if neg && r != zi(0) { crate::z::sub(&m, &r) } else { r };
    untwos(&w.into(), &r)
}

/// The operands of a call that are numbers of its type, its mode.
fn parts(c: &mut Call) -> (Vec<&mut Z>, Option<&mut Mode>) {
    match c {
        Call::CAdd(x) | Call::SAdd(x) | Call::CSub(x) | Call::SSub(x) | Call::CMul(x) | Call::SMul(x) | Call::TruncBy(x) | Call::Compare(x)
        | Call::Same(x) | Call::SameHash(x) => (vec![&mut x.a, &mut x.b], None),
        Call::RMul(x) | Call::SRMul(x) | Call::RDiv(x) | Call::RDivInt(x) | Call::IntRDiv(x) | Call::HalfSum(x) => {
            (vec![&mut x.a, &mut x.b], Some(&mut x.mode))
        }
        Call::Recip(x) | Call::Sqrt(x) | Call::Integral(x) | Call::RoundTo(x) => (vec![&mut x.a], Some(&mut x.mode)),
        Call::CNeg(x) | Call::Abs(x) | Call::Signum(x) | Call::NextPow10(x) | Call::Show(x) | Call::IntoF64(x) | Call::ViaF64(x) | Call::Bits(x) => {
            (vec![&mut x.a], None)
        }
        Call::FromDec(x) | Call::ToDec(x) => (vec![&mut x.m], None),
        _ => (vec![], None),
    }
}

fn set_precision(c: &mut Call, p: u32) -> bool {
    let p = Z::from(p);
    match c {
        Call::RMul(x) | Call::SRMul(x) | Call::RDiv(x) | Call::RDivInt(x) | Call::IntRDiv(x) | Call::HalfSum(x) => x.p = p,
        Call::Recip(x) | Call::Sqrt(x) | Call::Integral(x) | Call::RoundTo(x) => x.p = p,
        Call::CNeg(x) | Call::Abs(x) | Call::Signum(x) | Call::NextPow10(x) | Call::Show(x) | Call::IntoF64(x) | Call::Bits(x) => x.p = p,
        Call::Parse(x) | Call::ParseExact(x) => x.p = p,
        Call::FromF64(x) => x.p = p,
        Call::CAdd(_) | Call::SAdd(_) | Call::CSub(_) | Call::SSub(_) | Call::CMul(_) | Call::SMul(_) | Call::TruncBy(_) | Call::Compare(_) => {}
        _ => return false,
    }
    true
}

impl Program {
    fn new(seed: u64, formats: std::rc::Rc<Vec<(u32, u32)>>) -> Program {
        Program { rng: Rng::new(seed), regs: (0..REGS as i128).map(|i| zi(i * i * 1000 - 1)).collect(), recent: vec![], formats }
    }
    fn fresh(&mut self) -> Event {
        let formats = self.formats.clone();
        let r = &mut self.rng;
        let (w, p) = *r.pick(&formats);
        let a = crate::gen::value(r, w);
        let b = crate::gen::value(r, w);
        let (u, x) = (crate::props::un(w, p, a), crate::props::bin(w, a, b));
        let call = match r.below(40) {
            0 => Call::SAdd(x),
            1 => Call::SSub(x),
            2 => Call::SMul(x),
            3 => Call::SRMul(crate::props::rbin(w, p, a, b, &Mode::Floor)),
            4 => Call::Compare(x),
            5 => Call::Same(x),
            6 => Call::ViaF64(u),
            7 => Call::One(u),
            8 => Call::Greatest(u),
            9 => Call::Bits(u),
            _ => any_call(r, w, p),
        };
        Event { w, p, via: Via::Fp, call }
    }
    /// The next call and where its result goes.
    fn next(&mut self) -> (Event, usize) {
        let mut e = if self.recent.is_empty() || self.rng.chance(35) {
            self.fresh()
        } else {
            let i = self.rng.below(self.recent.len() as u64) as usize;
            self.recent[i].clone()
        };
        let r = &mut self.rng;
        // an earlier call again, or one that resembles it
        match r.below(12) {
            0..=3 => {
                let d = *r.pick(&[1, -1, 1, -1, 2, -2, 16, -16, 256, -256, 65536, -65536, 1 << 32, -(1 << 32)]);
                let flip = r.below(e.w as u64);
                let flips = r.chance(30);
                let (mut ops, _) = parts(&mut e.call);
                if !ops.is_empty() {
                    let i = r.below(ops.len() as u64) as usize;
                    let d = if flips { crate::z::pow(&zi(2), &zi(flip as i128)) } else { zi(d) };
                    let x = crate::z::add(ops[i], &d);
                    *ops[i] = wrap(e.w, &x);
                }
            }
            4 | 5 => {
                let k = r.below(REGS as u64) as usize;
                let x = wrap(e.w, &self.regs[k]);
                let (mut ops, _) = parts(&mut e.call);
                if !ops.is_empty() {
                    let i = r.below(ops.len() as u64) as usize;
                    *ops[i] = x;
                }
            }
            6 => {
                let m = r.pick(&[Mode::Floor, Mode::Nearest, Mode::Ceil]).clone();
                if let (_, Some(x)) = parts(&mut e.call) {
                    *x = m;
                }
            }
            7 => {
                let same: Vec<u32> = self.formats.iter().filter(|f| f.0 == e.w).map(|f| f.1).collect();
                let p = *r.pick(&same);
                if set_precision(&mut e.call, p) {
                    e.p = p;
                }
            }
            8 => {
                let (mut ops, _) = parts(&mut e.call);
                if ops.len() == 2 {
                    let (a, b) = ops.split_at_mut(1);
                    std::mem::swap(a[0], b[0]);
                } else if ops.len() == 1 {
                    *ops[0] = wrap(e.w, &crate::z::neg(ops[0]));
                }
            }
            _ => {}
        }
        e.via = match e.call {
            Call::Show(_) => if r.chance(80) { Via::Display } else { Via::Debug },
            _ => if r.chance(10) { Via::Wrap } else { Via::Fp },
        };
        (e, self.rng.below(REGS as u64) as usize)
    }
    fn step(&mut self) -> (Event, usize, Outcome) {
        let (mut e, dst) = self.next();
        let o = match execute(&e) {
            Some(o) => o,
            None => {
                e.via = Via::Fp;
                execute(&e).unwrap_or_else(|| harness_error(&format!("no such call: {}", e.json(None))))
            }
        };
        store(&mut self.regs, dst as i128, &o);
        if self.recent.len() < 12 {
            self.recent.push(e.clone());
        } else {
            let i = self.rng.below(12) as usize;
            self.recent[i] = e.clone();
        }
        (e, dst, o)
    }
}

fn digest(e: &Event, o: &Outcome) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (e.w, e.p, e.via).hash(&mut h);
    e.call.hash(&mut h);
    o.hash(&mut h);
    h.finish()
}

fn record_main(out: &Path, seed: u64, histories: usize, steps: usize, hot: usize) {
    let formats: Vec<(u32, u32)> = crate::props::formats();
    let seed_of = |h: usize| seed.wrapping_mul(0x9E37_79B9).wrapping_add(h as u64 * 77_777 + 5);
    let program = |h: usize| Program::new(seed_of(h), std::rc::Rc::new(formats.clone()));
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);

    // one after another, judged by the specification
    let mut first: Vec<Vec<(u64, Outcome)>> = vec![];
    let mut rejects: Vec<(Event, Outcome)> = vec![];
    // call -> history and step
    let mut seen: HashMap<u64, (u32, u32)> = HashMap::new();
    let mut tally: HashMap<(&'static str, &'static str), u64> = HashMap::new();
    let mut repeated = 0u64;
    let mut bad: Vec<(usize, usize, &'static str, Event, Outcome, Outcome)> = vec![];
    let mut total = 0u64;
    let mut whole = std::fs::File::create(out.join("histories.ndjson")).unwrap();
    for h in 0..histories {
        let mut p = program(h);
        let mut d: Vec<(u64, Outcome)> = Vec::with_capacity(steps);
        let (mut states, mut made) = (vec![], vec![]);
        let sampled = h < 60;
        for i in 0..steps {
            let before = p.regs.clone();
            let (e, dst, o) = p.step();
            total += 1;
            *tally.entry((e.call.tag(), o.tag())).or_default() += 1;
            let s = R_call_dst_outcome { call: e.call.clone(), dst: dst.into(), outcome: o.clone() };
            if !validStep(&before, &s, &p.regs) && rejects.len() < 40 {
                rejects.push((e.clone(), o.clone()));
            }
            // the same call must have the same outcome, whatever came before
            let mut k = std::collections::hash_map::DefaultHasher::new();
            (e.w, e.p, e.via).hash(&mut k);
            e.call.hash(&mut k);
            let x = digest(&e, &o);
            match seen.get(&k.finish()) {
                Some(&(g, j)) => {
                    repeated += 1;
                    let (y, other) = if g as usize == h { &d[j as usize] } else { &first[g as usize][j as usize] };
                    if *y != x && bad.len() < 40 {
                        bad.push((h, i, "repeated", e.clone(), o.clone(), other.clone()));
                    }
                }
                None => {
                    seen.insert(k.finish(), (h as u32, i as u32));
                }
            }
            d.push((x, o.clone()));
            if sampled && i < 12 {
                if i == 0 {
                    states.push(before);
                }
                states.push(p.regs.clone());
                made.push(s);
            }
        }
        if sampled {
            writeln!(whole, "{{\"states\":{},\"steps\":{}}}", states.itf(), made.itf()).unwrap();
        }
        first.push(d);
    }
    // the same ones on several threads at once
    let next = AtomicUsize::new(0);
    let found = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let h = next.fetch_add(1, Relaxed);
                if h >= histories {
                    return;
                }
                let mut p = program(h);
                for i in 0..steps {
                    let (e, _, o) = p.step();
                    if digest(&e, &o) != first[h][i].0 {
                        found.lock().unwrap().push((h, i, "concurrent", e, o, first[h][i].1.clone()));
                        break;
                    }
                }
            });
        }
    });
    // the same history on all threads at once
    for h in 0..histories.min(16) {
        let barrier = Barrier::new(threads);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                sc.spawn(|| {
                    let mut p = program(h);
                    barrier.wait();
                    for i in 0..steps {
                        let (e, _, o) = p.step();
                        if digest(&e, &o) != first[h][i].0 {
                            found.lock().unwrap().push((h, i, "concurrent", e, o, first[h][i].1.clone()));
                            break;
                        }
                    }
                });
            }
        });
    }
    bad.extend(found.into_inner().unwrap());
    // interleaved on one thread
    let mut r = Rng::new(seed ^ 0xabcd);
    for group in (0..histories).collect::<Vec<_>>().chunks(8) {
        let mut ps: Vec<(usize, usize, Program)> = group.iter().map(|&h| (h, 0, program(h))).collect();
        while !ps.is_empty() {
            let k = r.below(ps.len() as u64) as usize;
            let (h, i, p) = &mut ps[k];
            let (e, _, o) = p.step();
            let differs = digest(&e, &o) != first[*h][*i].0;
            if differs {
                bad.push((*h, *i, "interleaved", e, o, first[*h][*i].1.clone()));
            }
            *i += 1;
            if differs || *i == steps {
                ps.swap_remove(k);
            }
        }
    }
    // the same call, many times
    let mut p = program(0);
    let mut hot_calls = 0u64;
    for _ in 0..if hot > 0 { 60 } else { 0 } {
        let (e, _, o) = p.step();
        for i in 0..hot {
            hot_calls += 1;
            let x = execute(&e).unwrap();
            if x != o {
                bad.push((0, i, "many times", e.clone(), x, o));
                break;
            }
        }
    }
    let mut f = std::fs::File::create(out.join("rejects.ndjson")).unwrap();
    for (e, o) in &rejects {
        writeln!(f, "{}", e.json(Some(o))).unwrap();
    }
    let mut f = std::fs::File::create(out.join("inconsistent.ndjson")).unwrap();
    for (h, i, how, e, o, other) in bad.iter().take(20) {
        // the calls made before it
        let mut p = program(*h);
        let mut before = vec![];
        for _ in 0..*i {
            before.push(p.step().0);
        }
        let before: Vec<String> = before.split_off(before.len().saturating_sub(40)).iter().map(|e| e.json(None)).collect();
        let j = e.json(Some(o));
        writeln!(f, "{},\"otherwise\":{},\"how\":\"{how}\",\"history\":{h},\"step\":{i},\"before\":[{}]}}", &j[..j.len() - 1], other.itf(), before.join(",")).unwrap();
    }
    let mut tally: Vec<_> = tally.iter().collect();
    tally.sort();
    let tally: Vec<String> = tally.iter().map(|((c, o), n)| format!("\"{c}.{o}\":{n}")).collect();
    let s = format!(
        "{{\"histories\":{histories},\"steps\":{total},\"distinct\":{},\"repeated\":{repeated},\"hot\":{hot_calls},\"threads\":{threads},\"rejected\":{},\"inconsistent\":{},\"tally\":{{{}}}}}",
        seen.len(),
        rejects.len(),
        bad.len(),
        tally.join(",")
    );
    std::fs::write(out.join("summary.json"), s).unwrap();
}

/// trace replay --out DIR --rounds N FILE...
/// trace record --out DIR --seed N --histories N --steps N --hot N
pub fn main(args: &[String]) {
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1));
    let num = |name: &str, d: usize| opt(name).map_or(d, |s| s.parse().unwrap_or_else(|_| harness_error(name)));
    let out = Path::new(opt("--out").unwrap_or_else(|| harness_error("--out"))).to_path_buf();
    match args.first().map(|s| s.as_str()) {
        Some("replay") => {
            let list = opt("--files").unwrap_or_else(|| harness_error("--files"));
            let files: Vec<String> = std::fs::read_to_string(list).unwrap().lines().map(|s| s.to_string()).collect();
            replay_main(&out, num("--rounds", 3), &files)
        }
        Some("record") => record_main(&out, num("--seed", 1) as u64, num("--histories", 20), num("--steps", 1000), num("--hot", 0)),
        _ => harness_error("trace replay|record"),
    }
}
