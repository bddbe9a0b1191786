//! Exhaustive enumeration of the spaces of a check, in parallel, with evidence and replay files.

use std::{
    cell::RefCell,
    collections::HashSet,
    hash::Hasher,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

use serde::Serialize;
use serde_json::{json, Value};

use crate::gen::Gen;

/// What one execution showed.
pub struct Seen {
    /// Digest of the observed final state.
    pub state: u64,
    /// API calls / parse / serialize steps performed.
    pub steps: u64,
}

pub struct Bad {
    pub what: String,
    /// The listed finding this is an instance of, if any.
    pub finding: Option<&'static str>,
}

impl Bad {
    pub fn new(what: impl Into<String>) -> Self {
        Bad {
            what: what.into(),
            finding: None,
        }
    }
}

pub type Res = Result<Seen, Bad>;

type Run = Box<dyn Fn(u64) -> (Res, Box<dyn FnOnce() -> Value>) + Send + Sync>;

pub struct Space {
    pub name: String,
    pub len: u64,
    run: Run,
}

impl Space {
    pub fn new<T: Serialize + 'static>(
        name: &str,
        gen: Gen<T>,
        judge: impl Fn(&T) -> Res + Send + Sync + 'static,
    ) -> Space {
        Space {
            name: name.to_string(),
            len: gen.len,
            run: Box::new(move |i| {
                let case = match guarded(|| gen.get(i)) {
                    Ok(case) => case,
                    Err(e) => return (Err(Bad::new(format!("panic: {e}"))), Box::new(|| Value::Null)),
                };
                let r = guarded(|| judge(&case)).unwrap_or_else(|e| Err(Bad::new(format!("panic: {e}"))));
                (
                    r,
                    Box::new(move || serde_json::to_value(&case).unwrap_or(Value::Null)),
                )
            }),
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics are observations: they are kept, not printed.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let text = last_panic();
        if text.contains("ill-typed program") || text.contains("alphabet") {
            eprintln!("harness error: {text}");
            std::process::exit(70);
        }
        text
    })
}

/// No execution takes this long unless it does not end.
const HANG: Duration = Duration::from_secs(100);

/// What a worker is doing: the index of the case (plus one), and since when.
#[derive(Default)]
struct Slot {
    case: AtomicU64,
    since: AtomicU64,
}

fn violation(id: &str, tier: &str, space: &str, i: u64, what: &str, case: &Value) {
    let dir = root().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let path = dir.join(format!("{id}.json"));
    let replay = json!({"property": id, "tier": tier, "space": space, "index": i, "what": what, "case": case});
    std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap() + "\n").ok();
    println!("  space {space}, index {i}: {what}");
    println!("  case: {case}");
    println!("VIOLATION property={id} replay={}", path.display());
}

/// The check could not even be set up: the code under test panics on the descriptions it starts from.
pub fn setup_failed(id: &str, tier: &str) -> i32 {
    violation(id, tier, "setup", 0, &format!("panic: {}", last_panic()), &Value::Null);
    1
}

pub struct Check {
    pub id: &'static str,
    pub spaces: Vec<Space>,
    pub assumptions: Vec<&'static str>,
    pub bounds: &'static str,
}

/// FNV-like hash of anything serializable.
pub struct Digest(u64);

impl Digest {
    pub fn new() -> Self {
        Digest(0xcbf29ce484222325)
    }
}

impl std::io::Write for Digest {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        for c in buf.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.0 = (self.0.rotate_left(5) ^ u64::from_le_bytes(w) ^ ((c.len() as u64) << 56))
                .wrapping_mul(0x517cc1b727220a95);
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Hasher for Digest {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        std::io::Write::write(self, bytes).unwrap();
    }
}

pub fn digest<T: Serialize>(t: &T) -> u64 {
    let mut d = Digest::new();
    serde_json::to_writer(&mut d, t).expect("digest");
    d.0
}

pub fn root() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

/// Keys of the findings recorded for a property, with their text.
pub fn findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (prop, l) = l.split_once(" key=")?;
            let (key, text) = l.split_once(' ')?;
            (prop == id).then(|| (key.to_string(), text.to_string()))
        })
        .collect()
}

pub fn run(check: Check, tier: &str) -> i32 {
    let start = Instant::now();
    let known = findings(check.id);
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get());
    let mut states: HashSet<u64> = HashSet::new();
    let mut executions = 0u64;
    let mut transitions = 0u64;
    let mut samples = Vec::new();
    let mut per_space = Vec::new();
    let mut seen_findings: Vec<(String, u64, Value)> = Vec::new();
    let mut violations = Vec::new();
    for space in &check.spaces {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicU64::new(u64::MAX);
        let bad: Mutex<Option<(u64, Bad, Value)>> = Mutex::new(None);
        let found: Mutex<Vec<(String, u64, Value)>> = Mutex::new(Vec::new());
        let merged: Mutex<(HashSet<u64>, u64, u64)> = Mutex::new(Default::default());
        let chunk = (space.len / (threads as u64 * 16)).clamp(1, 4096);
        let slots: Vec<Slot> = (0..threads).map(|_| Slot::default()).collect();
        let work = |slot: &Slot| {
            let mut mine: HashSet<u64> = HashSet::new();
            let (mut n, mut t) = (0u64, 0u64);
            loop {
                let from = next.fetch_add(chunk, Ordering::Relaxed);
                if from >= space.len {
                    break;
                }
                for i in from..(from + chunk).min(space.len) {
                    if i > stop.load(Ordering::Relaxed) {
                        break;
                    }
                    slot.since.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                    slot.case.store(i + 1, Ordering::Relaxed);
                    let (res, case) = (space.run)(i);
                    n += 1;
                    match res {
                        Ok(s) => {
                            t += s.steps;
                            mine.insert(s.state);
                        }
                        Err(b) => {
                            if let Some(k) = b.finding {
                                if known.iter().any(|(key, _)| key == k) {
                                    let mut f = found.lock().unwrap();
                                    match f.iter_mut().find(|f| f.0 == k) {
                                        None => f.push((k.to_string(), i, case())),
                                        Some(f) if f.1 > i => *f = (k.to_string(), i, case()),
                                        _ => {}
                                    }
                                    continue;
                                }
                            }
                            stop.fetch_min(i, Ordering::Relaxed);
                            let mut g = bad.lock().unwrap();
                            if g.as_ref().is_none_or(|(j, _, _)| i < *j) {
                                *g = Some((i, b, case()));
                            }
                        }
                    }
                }
            }
            slot.case.store(0, Ordering::Relaxed);
            let mut m = merged.lock().unwrap();
            if m.0.len() < mine.len() {
                std::mem::swap(&mut m.0, &mut mine);
            }
            m.0.extend(mine);
            m.1 += n;
            m.2 += t;
        };
        let workers = if space.len < 64 { 1 } else { threads };
        let done = AtomicU64::new(0);
        std::thread::scope(|s| {
            for slot in slots.iter().take(workers) {
                let (done, work) = (&done, &work);
                s.spawn(move || {
                    if guarded(|| work(slot)).is_err() {
                        eprintln!("harness panic in space {}: {}", space.name, last_panic());
                        std::process::exit(70);
                    }
                    done.fetch_add(1, Ordering::Relaxed);
                });
            }
            s.spawn(|| {
                let mut ticks = 0u32;
                while done.load(Ordering::Relaxed) < workers as u64 {
                    std::thread::sleep(Duration::from_millis(2));
                    ticks += 1;
                    if ticks % 500 != 0 {
                        continue;
                    }
                    let now = start.elapsed().as_millis() as u64;
                    for slot in &slots {
                        let i = slot.case.load(Ordering::Relaxed);
                        let since = slot.since.load(Ordering::Relaxed);
                        if i > 0 && now.saturating_sub(since) > HANG.as_millis() as u64 {
                            violation(check.id, tier, &space.name, i - 1, "the execution does not end", &Value::Null);
                            std::process::exit(1);
                        }
                    }
                }
            });
        });
        let (set, n, t) = merged.into_inner().unwrap();
        per_space.push(json!({
            "space": space.name, "size": space.len, "executed": n,
            "distinct_states": set.len(), "steps": t,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        executions += n;
        transitions += t;
        if states.len() < set.len() {
            let old = std::mem::replace(&mut states, set);
            states.extend(old);
        } else {
            states.extend(set);
        }
        for i in [0, space.len / 2, space.len.saturating_sub(1)] {
            if i < space.len && samples.len() < 40 {
                let (_, case) = (space.run)(i);
                let mut v = case();
                if v.to_string().len() > 4000 {
                    v = json!(format!("{}...", v.to_string().chars().take(4000).collect::<String>()));
                }
                samples.push(json!({"space": space.name, "index": i, "case": v}));
            }
        }
        for f in found.into_inner().unwrap() {
            if !seen_findings.iter().any(|g| g.0 == f.0) {
                seen_findings.push(f);
            }
        }
        if let Some((i, b, case)) = bad.into_inner().unwrap() {
            violations.push((space.name.clone(), i, b, case));
            // Later spaces may rely on what just failed; one counterexample is enough.
            break;
        }
    }
    for (k, i, case) in &seen_findings {
        let text = &known.iter().find(|f| f.0 == *k).unwrap().1;
        println!("KNOWN-FINDING: property={} {k}: {text} (first at index {i}: {case})", check.id);
    }
    let wall = start.elapsed().as_secs_f64();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let evidence = json!({
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states.len(),
            "transitions": transitions,
            "traces_validated_against_impl": executions,
            "exhaustive": violations.is_empty(),
            "samples": samples,
            "spaces": per_space,
            "bounds": check.bounds,
            "explanation": "states: distinct final states observed (whole content of the built / parsed Thing, or the reported error); transitions: API, parse and serialize steps executed on the real crate; traces_validated_against_impl: behaviours of the model replayed on the real crate and compared step result by step result.",
            "known_findings_seen": seen_findings.iter().map(|f| f.0.clone()).collect::<Vec<_>>(),
        },
        "assumptions": check.assumptions,
        "wall_s": wall,
        "violations": violations.len(),
    });
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(
        dir.join(format!("{}.json", check.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("write evidence");
    println!(
        "{} {tier}: {executions} executions, {} states, {transitions} transitions in {wall:.1} s",
        check.id,
        states.len()
    );
    for (space, i, b, case) in &violations {
        violation(check.id, tier, space, *i, &b.what, case);
    }
    if violations.is_empty() {
        0
    } else {
        1
    }
}

/// Re-executes the case of a replay file.
pub fn replay(check: Check, space: &str, index: u64) -> i32 {
    for s in &check.spaces {
        if s.name == space && index < s.len {
            let (r, case) = (s.run)(index);
            println!("case: {}", case());
            return match r {
                Ok(_) => {
                    println!("the property holds on this case");
                    0
                }
                Err(b) => {
                    println!("VIOLATED: {}", b.what);
                    1
                }
            };
        }
    }
    eprintln!("no such space / index");
    2
}
