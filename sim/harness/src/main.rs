//! Deterministic simulator for async_ui: see /verif/DESIGN.md.
#[macro_use]
mod ctx;
mod alloc;
mod rnd;
mod scn;
mod tape;
mod wk;

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering};
use tape::{hash_str, mix, Tape};
use wasm_bindgen::sim;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

static MODE: AtomicU8 = AtomicU8::new(0); // 1 worker, 2 exec
static CUR_INDEX: AtomicU64 = AtomicU64::new(0);
static RUN_STARTED_MS: AtomicU64 = AtomicU64::new(0);

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_arr<T: ToString>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn json_map(m: &BTreeMap<&'static str, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","))
}

fn now_ms() -> u64 {
    // Real clock: used only by the watchdog, never by a run.
    use std::time::{SystemTime, UNIX_EPOCH};
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

/// Print the violation record and leave without running any destructor.
fn report_and_exit(class: &str, msg: &str, loc: &str) -> ! {
    let (tape, spans, scenario) = ctx::try_take_tape().unwrap_or((vec![], vec![], "?"));
    let (hash, trace) = sim::with(|w| (w.log_hash, w.trace.clone().unwrap_or_default()));
    let rec = format!(
        "{{\"kind\":\"violation\",\"scenario\":{},\"index\":{},\"class\":{},\"msg\":{},\"loc\":{},\"log_hash\":\"{:016x}\",\"tape\":{},\"spans\":[{}],\"trace\":[{}]}}\n",
        json_str(scenario),
        CUR_INDEX.load(Ordering::SeqCst),
        json_str(class),
        json_str(msg),
        json_str(loc),
        hash,
        json_arr(&tape),
        spans.iter().map(|(a, b)| format!("[{a},{b}]")).collect::<Vec<_>>().join(","),
        trace.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
    );
    let mut out = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(1) };
    let _ = out.write_all(rec.as_bytes());
    let _ = out.flush();
    unsafe { libc::_exit(3) }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if ctx::EXPECTED_PANIC.with(|c| c.get()) {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let (class, msg) = if let Some(v) = info.payload().downcast_ref::<ctx::Violation>() {
            (v.class.clone(), v.msg.clone())
        } else {
            let m = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            if m.starts_with("SIM-") {
                eprintln!("HARNESS-ERROR {m} at {loc}");
                unsafe { libc::_exit(4) }
            }
            ("panic".to_string(), m)
        };
        report_and_exit(&class, &msg, &loc)
    }));
}

struct Outcome {
    hash: u64,
    steps: u64,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    stats: sim::Stats,
    sim_time: u64,
    tape: Vec<u64>,
    spans: Vec<(usize, usize)>,
    trace: Vec<String>,
}

fn run_one(sc: &'static scn::Scenario, tape: Tape, trace: bool) -> Outcome {
    RUN_STARTED_MS.store(now_ms(), Ordering::SeqCst);
    let h = std::thread::Builder::new()
        .stack_size(sc.stack)
        .spawn(move || {
            ctx::install(ctx::Run { tape, faults: BTreeMap::new(), probes: BTreeMap::new(), steps: 0, scenario: sc.name });
            // Seeds of the remaining randomness: HashMap keys, the executor's
            // fastrand generator, Math.random.
            let s = ctx::with(|r| r.tape.choose(1 << 16));
            rnd::seed_thread(mix(s, 0x5eed));
            fastrand::seed(mix(s, 0xfa57));
            sim::reset(trace, mix(s, 0x3a7));
            (sc.run)();
            let mut r = ctx::take().unwrap();
            r.tape.close_all();
            let o = sim::with(|w| Outcome {
                hash: w.log_hash,
                steps: r.steps,
                faults: r.faults,
                probes: r.probes,
                stats: w.stats.clone(),
                sim_time: w.now,
                tape: r.tape.rec,
                spans: r.tape.spans,
                trace: w.trace.take().unwrap_or_default(),
            });
            o
        })
        .expect("spawn");
    let r = h.join();
    RUN_STARTED_MS.store(0, Ordering::SeqCst);
    match r {
        Ok(o) => o,
        Err(_) => {
            eprintln!("HARNESS-ERROR run thread panicked past the hook");
            std::process::exit(4)
        }
    }
}

fn add_stats(a: &mut sim::Stats, b: &sim::Stats) {
    a.dom_ops += b.dom_ops;
    a.inserts += b.inserts;
    a.removes += b.removes;
    a.timers_set += b.timers_set;
    a.timers_fired += b.timers_fired;
    a.microtasks += b.microtasks;
    a.events += b.events;
    a.listener_calls += b.listener_calls;
    a.listeners_added += b.listeners_added;
    a.listeners_removed += b.listeners_removed;
    a.intersections += b.intersections;
    a.prevented_passive += b.prevented_passive;
    a.console_errors += b.console_errors;
}

fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let s = RUN_STARTED_MS.load(Ordering::SeqCst);
        if s != 0 && now_ms().saturating_sub(s) > 30_000 {
            let rec = format!(
                "{{\"kind\":\"hang\",\"index\":{},\"class\":\"hang\",\"msg\":\"a single run did not finish within 30 s of real time\"}}\n",
                CUR_INDEX.load(Ordering::SeqCst)
            );
            let mut out = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(1) };
            let _ = out.write_all(rec.as_bytes());
            unsafe { libc::_exit(5) }
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    rnd::seed_thread(1);
    install_hook();
    match cmd {
        "list" => {
            for s in scn::all() {
                println!("{} {} {} {}", s.property, s.name, s.quick, s.thorough);
            }
        }
        // worker <scenario> <seed> <first> <stride> <count> <deadline_ms> <progress> <hashfile>
        "worker" => {
            MODE.store(1, Ordering::SeqCst);
            watchdog();
            let sc = scn::find(&args[2]).expect("scenario");
            let seed: u64 = args[3].parse().unwrap();
            let (first, stride, count): (u64, u64, u64) = (args[4].parse().unwrap(), args[5].parse().unwrap(), args[6].parse().unwrap());
            let deadline = now_ms() + args[7].parse::<u64>().unwrap();
            let prog = std::fs::OpenOptions::new().create(true).write(true).open(&args[8]).unwrap();
            let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut stats = sim::Stats::default();
            let (mut runs, mut steps, mut simt, mut nontrivial, mut choices) = (0u64, 0u64, 0u64, 0u64, 0u64);
            let mut hashes: HashSet<u64> = HashSet::new();
            let mut sample: Vec<String> = vec![];
            for k in 0..count {
                let i = first + k * stride;
                CUR_INDEX.store(i, Ordering::SeqCst);
                use std::os::unix::fs::FileExt;
                let _ = prog.write_at(format!("{i:020}").as_bytes(), 0);
                let rs = mix(mix(seed, hash_str(sc.name)), i);
                let o = run_one(sc, Tape::random(rs), false);
                runs += 1;
                steps += o.steps;
                simt += o.sim_time;
                choices += o.tape.len() as u64;
                let nf: u64 = o.faults.values().sum();
                if nf > 0 && o.tape.len() > 3 {
                    nontrivial += 1;
                    hashes.insert(o.hash);
                }
                for (k, v) in o.faults {
                    *faults.entry(k).or_insert(0) += v;
                }
                for (k, v) in o.probes {
                    *probes.entry(k).or_insert(0) += v;
                }
                add_stats(&mut stats, &o.stats);
                if sample.len() < 2 && k % 97 == 3 {
                    sample.push(format!("{{\"index\":{i},\"choices\":{},\"steps\":{},\"log_hash\":\"{:016x}\"}}", o.tape.len(), o.steps, o.hash));
                }
                if runs % 16 == 0 && now_ms() > deadline {
                    break;
                }
            }
            let mut f = std::fs::File::create(&args[9]).unwrap();
            let mut buf = Vec::with_capacity(hashes.len() * 8);
            for h in &hashes {
                buf.extend_from_slice(&h.to_le_bytes());
            }
            f.write_all(&buf).unwrap();
            println!(
                "{{\"kind\":\"summary\",\"scenario\":{},\"runs\":{runs},\"steps\":{steps},\"sim_ms\":{simt},\"choices\":{choices},\"nontrivial\":{nontrivial},\"distinct\":{},\"faults\":{},\"probes\":{},\"browser\":{{\"dom_ops\":{},\"inserts\":{},\"removes\":{},\"timers_set\":{},\"timers_fired\":{},\"events\":{},\"listener_calls\":{},\"listeners_added\":{},\"listeners_removed\":{},\"intersections\":{}}},\"samples\":[{}]}}",
                json_str(sc.name),
                hashes.len(),
                json_map(&faults),
                json_map(&probes),
                stats.dom_ops, stats.inserts, stats.removes, stats.timers_set, stats.timers_fired, stats.events, stats.listener_calls, stats.listeners_added, stats.listeners_removed, stats.intersections,
                sample.join(",")
            );
            std::io::stdout().flush().ok();
            unsafe { libc::_exit(0) }
        }
        // exec <scenario> : tape on stdin (space separated), prints outcome; with --index SEED I instead of stdin
        "exec" => {
            MODE.store(2, Ordering::SeqCst);
            watchdog();
            let sc = scn::find(&args[2]).expect("scenario");
            let trace = args.iter().any(|a| a == "--trace");
            let tape = if let Some(p) = args.iter().position(|a| a == "--index") {
                let seed: u64 = args[p + 1].parse().unwrap();
                let i: u64 = args[p + 2].parse().unwrap();
                CUR_INDEX.store(i, Ordering::SeqCst);
                Tape::random(mix(mix(seed, hash_str(sc.name)), i))
            } else {
                let mut s = String::new();
                std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
                Tape::replay(s.split_ascii_whitespace().map(|x| x.parse().unwrap()).collect())
            };
            let mut tape = tape;
            if let Some(p) = args.iter().position(|a| a == "--tee") {
                tape.tee = std::fs::File::create(&args[p + 1]).ok();
            }
            let o = run_one(sc, tape, trace);
            println!(
                "{{\"kind\":\"ok\",\"scenario\":{},\"log_hash\":\"{:016x}\",\"steps\":{},\"tape\":{},\"spans\":[{}],\"faults\":{},\"probes\":{},\"trace\":[{}]}}",
                json_str(sc.name),
                o.hash,
                o.steps,
                json_arr(&o.tape),
                o.spans.iter().map(|(a, b)| format!("[{a},{b}]")).collect::<Vec<_>>().join(","),
                json_map(&o.faults),
                json_map(&o.probes),
                o.trace.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
            );
            std::io::stdout().flush().ok();
            unsafe { libc::_exit(0) }
        }
        // hashes <scenario> <seed> <first> <count>: log hash of each run (determinism proof)
        "hashes" => {
            let sc = scn::find(&args[2]).expect("scenario");
            let seed: u64 = args[3].parse().unwrap();
            let (first, count): (u64, u64) = (args[4].parse().unwrap(), args[5].parse().unwrap());
            let mut all = 0u64;
            for i in first..first + count {
                CUR_INDEX.store(i, Ordering::SeqCst);
                let o = run_one(sc, Tape::random(mix(mix(seed, hash_str(sc.name)), i)), false);
                all = mix(all, o.hash);
                println!("{i} {:016x} {}", o.hash, o.tape.len());
            }
            println!("all {all:016x}");
            std::io::stdout().flush().ok();
            unsafe { libc::_exit(0) }
        }
        _ => {
            eprintln!("usage: simcheck list|worker|exec|hashes ...");
            std::process::exit(2)
        }
    }
}
