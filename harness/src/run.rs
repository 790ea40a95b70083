//! Makes calls, judges what they answer, and keeps count.

use crate::itf::{FromQuint, ToQuint, J};
use crate::rng::Rng;
use crate::spec::*;
use crate::via::Via;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Event {
    pub w: u32,
    pub p: u32,
    pub via: Via,
    pub call: Call,
}
impl Event {
    pub fn json(&self, o: Option<&Outcome>) -> String {
        let mut s = format!("{{\"w\":{},\"p\":{},\"via\":\"{}\",\"call\":{}", self.w, self.p, self.via.name(), self.call.itf());
        if let Some(o) = o {
            s += &format!(",\"outcome\":{}", o.itf());
        }
        s + "}"
    }
    pub fn parse(line: &str) -> Option<Event> {
        let j = J::parse(line)?;
        Some(Event {
            w: j.get("w")?.int()?.i128() as u32,
            p: j.get("p")?.int()?.i128() as u32,
            via: Via::parse(j.get("via")?.str()?)?,
            call: Call::from_quint(j.get("call")?)?,
        })
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let what = i.payload().downcast_ref::<&str>().map(|s| s.to_string());
        let what = what.or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{at}: {what}"));
    }));
}
/// A panic raised by this harness itself says nothing about the library.
/// Expansions of the library's macros count as the library.
fn own_panic(at: &str) -> bool {
    at.starts_with("src/") && !at.starts_with("src/wrap.rs") && !at.starts_with("src/literals.rs")
}
pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS ERROR: {msg}");
    std::process::exit(2)
}

/// `None`: the call does not exist through this entry point.
pub fn execute(e: &Event) -> Option<Outcome> {
    match catch_unwind(AssertUnwindSafe(|| crate::fx::exec(e.w, e.p, e.via, &e.call))) {
        Ok(o) => o,
        Err(_) => {
            let at = PANIC.with(|p| p.borrow().clone());
            if own_panic(&at) {
                harness_error(&format!("{at} while executing {}", e.json(None)));
            }
            Some(Outcome::Panic)
        }
    }
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}
pub fn judge(e: &Event, o: &Outcome) -> bool {
    match catch_unwind(AssertUnwindSafe(|| accept(&e.call, o))) {
        Ok(b) => b,
        Err(_) => harness_error(&format!("{} while judging {}", last_panic(), e.json(Some(o)))),
    }
}

const BITS: usize = 1 << 30;
pub struct Shared {
    pub seed: u64,
    pub deadline: Instant,
    seen: Vec<AtomicU32>,
    pub distinct: AtomicUsize,
    pub rejected: AtomicUsize,
    pub slots: Vec<Slot>,
    pub log: Option<std::path::PathBuf>,
    pub digest: bool,
}
pub struct Slot {
    event: Mutex<Option<Event>>,
    count: AtomicUsize,
    since: Mutex<Instant>,
}
impl Shared {
    pub fn new(seed: u64, budget: Duration, threads: usize) -> Shared {
        let now = Instant::now();
        Shared {
            seed,
            deadline: now + budget,
            seen: (0..BITS / 32).map(|_| AtomicU32::new(0)).collect(),
            distinct: AtomicUsize::new(0),
            rejected: AtomicUsize::new(0),
            slots: (0..threads).map(|_| Slot { event: Mutex::new(None), count: AtomicUsize::new(0), since: Mutex::new(now) }).collect(),
            log: std::env::var_os("CONFORM_LOG").map(Into::into),
            digest: false,
        }
    }
    /// A lower bound of the number of distinct events.
    fn note(&self, h: u64) {
        let i = (h as usize) & (BITS - 1);
        let bit = 1u32 << (i & 31);
        if self.seen[i >> 5].fetch_or(bit, Relaxed) & bit == 0 {
            self.distinct.fetch_add(1, Relaxed);
        }
    }
    /// Events in flight for longer than `limit`.
    pub fn stuck(&self, limit: Duration) -> Vec<Event> {
        let mut v = vec![];
        for s in &self.slots {
            let e = s.event.lock().unwrap().clone();
            if let Some(e) = e {
                if s.since.lock().unwrap().elapsed() > limit {
                    v.push(e);
                }
            }
        }
        v
    }
}

#[derive(Default)]
pub struct Report {
    pub events: u64,
    pub tally: HashMap<(Via, &'static str, &'static str), u64>,
    pub rejects: Vec<(Event, Outcome, String)>,
    pub rejected: u64,
    pub first: HashMap<(u32, Via, &'static str, &'static str), (Event, Outcome)>,
    pub sample: Vec<(Event, Outcome)>,
    /// pairs of events that the specification does not allow together
    pub unrelated: Vec<[(Event, Outcome); 2]>,
    pub digests: BTreeMap<usize, (u64, u64)>,
    pub cut: bool,
}
impl Report {
    pub fn merge(&mut self, o: Report) {
        self.events += o.events;
        self.rejected += o.rejected;
        for (k, n) in o.tally {
            *self.tally.entry(k).or_default() += n;
        }
        self.rejects.extend(o.rejects);
        for (k, e) in o.first {
            self.first.entry(k).or_insert(e);
        }
        self.sample.extend(o.sample);
        self.unrelated.extend(o.unrelated);
        self.digests.extend(o.digests);
        self.cut |= o.cut;
    }
}

const SAMPLE: usize = 260;
pub struct Sink<'a> {
    pub rng: Rng,
    pub shared: &'a Shared,
    pub report: Report,
    pub id: usize,
    /// digest of everything the current job observed
    pub hash: u64,
    pub job_events: u64,
    /// those of them that the digest covers
    pub hashed: u64,
    /// print all outcomes instead of judging them
    pub dump: Option<std::fs::File>,
    log: Option<std::fs::File>,
    picker: Rng,
}
impl<'a> Sink<'a> {
    pub fn new(shared: &'a Shared, id: usize) -> Sink<'a> {
        let log = shared.log.as_ref().map(|d| std::fs::File::create(d.join(format!("{id}.event"))).unwrap());
        Sink {
            rng: Rng::new(0),
            shared,
            report: Report::default(),
            id,
            hash: 0,
            job_events: 0,
            hashed: 0,
            dump: None,
            log,
            picker: Rng::new(shared.seed ^ id as u64),
        }
    }
    pub fn over(&mut self) -> bool {
        let over = Instant::now() > self.shared.deadline || self.shared.rejected.load(Relaxed) > 3000;
        self.report.cut |= over;
        over
    }
    /// Make a call, judge the outcome.
    pub fn put(&mut self, w: u32, p: u32, via: Via, call: Call) -> Option<Outcome> {
        let e = Event { w, p, via, call };
        let slot = &self.shared.slots[self.id];
        *slot.event.lock().unwrap() = Some(e.clone());
        if slot.count.fetch_add(1, Relaxed) % 64 == 0 || self.job_events % 64 == 0 {
            *slot.since.lock().unwrap() = Instant::now();
        }
        if let Some(f) = &mut self.log {
            use std::os::unix::fs::FileExt;
            let s = e.json(None) + "\n";
            f.set_len(0).unwrap();
            f.write_all_at(s.as_bytes(), 0).unwrap();
        }
        let o = execute(&e);
        *slot.event.lock().unwrap() = None;
        let o = o?;
        self.observe(e, o)
    }
    /// Make a call on two layouts, judge both outcomes and relate them.
    pub fn put_twice(&mut self, w: u32, wide: u32, p: u32, call: Call) {
        let via = if matches!(call, Call::Show(_)) { Via::Display } else { Via::Fp };
        let call2 = crate::props::on_layout(&call, wide);
        let n = self.put(w, p, via, call.clone());
        let x = self.put(wide, p, via, call2.clone());
        if let (Some(n), Some(x)) = (n, x) {
            if !widens(&w.into(), &n, &x) {
                self.report.rejected += 1;
                self.shared.rejected.fetch_add(1, Relaxed);
                if self.report.unrelated.len() < 50 {
                    let pair = [(Event { w, p, via, call }, n), (Event { w: wide, p, via, call: call2 }, x)];
                    self.report.unrelated.push(pair);
                }
            }
        }
    }
    pub fn observe(&mut self, e: Event, o: Outcome) -> Option<Outcome> {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (e.w, e.p, e.via).hash(&mut h);
        e.call.hash(&mut h);
        let eh = h.finish();
        if let Some(f) = &mut self.dump {
            writeln!(f, "{}", e.json(Some(&o))).unwrap();
        }
        if self.shared.digest && !e.via.extra() {
            self.hashed += 1;
            o.hash(&mut h);
            self.hash = self.hash.rotate_left(5).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ h.finish();
        }
        if !trivial(&e.call) {
            self.shared.note(eh);
        }
        self.job_events += 1;
        let r = &mut self.report;
        r.events += 1;
        let key = (e.via, e.call.tag(), o.tag());
        *r.tally.entry(key).or_default() += 1;
        let ok = judge(&e, &o);
        if !ok {
            r.rejected += 1;
            self.shared.rejected.fetch_add(1, Relaxed);
            if r.rejects.len() < 50 {
                let note = if o == Outcome::Panic { last_panic() } else { String::new() };
                r.rejects.push((e, o.clone(), note));
            }
            return Some(o);
        }
        // too long to be looked at again
        if matches!(&e.call, Call::Parse(x) | Call::ParseExact(x) if x.s.len() > 2000) {
            return Some(o);
        }
        let key = (e.w, key.0, key.1, key.2);
        if !r.first.contains_key(&key) {
            r.first.insert(key, (e, o.clone()));
        } else if r.sample.len() < SAMPLE {
            r.sample.push((e, o.clone()));
        } else {
            let i = self.picker.below(r.events) as usize;
            if i < SAMPLE {
                r.sample[i] = (e, o.clone());
            }
        }
        Some(o)
    }
}

/// Calls whose operands are all zero or empty say little.
fn trivial(c: &Call) -> bool {
    let z = crate::z::zi(0);
    match c {
        Call::CAdd(x) | Call::SAdd(x) | Call::CSub(x) | Call::SSub(x) | Call::CMul(x) | Call::SMul(x) | Call::TruncBy(x)
        | Call::Compare(x) | Call::Same(x) | Call::SameHash(x) => x.a == z && x.b == z,
        Call::RMul(x) | Call::SRMul(x) | Call::RDiv(x) | Call::RDivInt(x) | Call::IntRDiv(x) | Call::IntRatio(x) | Call::HalfSum(x) => {
            x.a == z && x.b == z
        }
        Call::CNeg(x) | Call::Abs(x) | Call::Signum(x) | Call::NextPow10(x) | Call::FromInt(x) | Call::Show(x) | Call::IntoF64(x)
        | Call::ViaF64(x) | Call::EncodeCompact(x) | Call::Bits(x) => x.a == z,
        Call::Recip(x) | Call::Sqrt(x) | Call::Integral(x) | Call::RoundTo(x) => x.a == z,
        Call::FromDec(x) | Call::ToDec(x) => x.m == z,
        Call::Parse(x) | Call::ParseExact(x) | Call::Literal(x) => x.s.is_empty(),
        Call::FromF64(x) => x.bits == z,
        Call::Decode(x) => x.bytes.is_empty(),
        Call::DecodeCompact(x) => x.bytes.is_empty(),
        Call::Encode(x) => x.a == z,
        Call::ShowJson(x) => !x.some,
        _ => false,
    }
}
