#[macro_use]
mod engine;
mod io;
mod lay;
mod props;
mod refc;

use engine::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::time::{Duration, Instant};

/// Allocations of controlled threads are scheduling points where a scenario asks for it.
struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rayon_core::mc::alloc_point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        rayon_core::mc::alloc_point();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        rayon_core::mc::alloc_point();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => o += &format!("\\u{:04x}", (c as u32).min(0xffff)),
            c => o.push(c),
        }
    }
    o + "\""
}

fn verif() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

/// `known-findings.txt`: lines `known: property=<id> key=<key> <what fails>` and
/// `fixed: property=<id> <commit> <what failed>` (the latter suppress nothing).
fn known(id: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?;
            let k = it.next()?.strip_prefix("key=")?;
            if p == id {
                Some((k.to_string(), it.next().unwrap_or("").to_string()))
            } else {
                None
            }
        })
        .collect()
}

fn write_replay(id: &str, tier: &str, v: &Violation) -> String {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.txt", id));
    let mut s = String::new();
    s += &format!("property {}\ntier {}\nscenario {}\n", id, tier, v.scenario);
    s += if props::stream::VISIBLE { "build visible\n" } else { "" };
    s += &format!("choices {}\n", v.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
    s += &format!("key {}\nreproduced {}\nmessage {}\n", v.fail.key, v.reproduced, v.fail.msg.replace('\n', " "));
    for n in &v.notes {
        s += &format!("note {}\n", n.replace('\n', " "));
    }
    let _ = std::fs::write(&path, s);
    path.display().to_string()
}

fn write_evidence(id: &str, tier: &str, st: &Stats, viol: Option<&Violation>, wall: f64, assumptions: &[&str], level: &str) {
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let per: Vec<String> = st
        .per_scenario
        .iter()
        .map(|(n, e, s)| format!("{{\"scenario\":{},\"executions\":{},\"states\":{}}}", json_str(n), e, s))
        .collect();
    let exhaustive = !st.capped && st.diverged == 0 && viol.is_none();
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"choice_points\": {},\n  \"max_depth\": {},\n  \"exhaustive\": {},\n  \"samples\": [{}],\n  \"scenarios\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(id),
        json_str(tier),
        seed,
        json_str(level),
        st.states,
        st.steps,
        st.validated,
        st.executions,
        st.outcomes,
        json_str("every sequence of choices of every listed scenario is executed on the real code; states = nodes of the choice trees, transitions = operations of the real code executed, distinct = different observed outcomes (hash of what the code produced)"),
        st.choice_points,
        st.max_depth,
        exhaustive,
        st.samples.iter().take(8).map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        per.join(","),
        assumptions.iter().map(|s| s.to_string()).chain(std::env::var("MC_ALSO")).map(|s| json_str(&s)).collect::<Vec<_>>().join(","),
        wall,
        if viol.is_some() { 1 } else { 0 },
    );
    std::fs::write(dir.join(format!("{}.json", id)), body).expect("evidence");
}

fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
    })
}

fn limit_secs(tier: &str) -> u64 {
    std::env::var("MC_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 420 } else { 7200 })
}

fn report(id: &str, tier: &str, v: &Violation) {
    let p = write_replay(id, tier, v);
    println!("property {} fails in scenario {}: {}", id, v.scenario, v.fail.msg);
    println!("choices {:?}", v.choices);
    for n in &v.notes {
        println!("  {}", n);
    }
    println!("VIOLATION property={} replay={}", id, p);
    let _ = std::io::stdout().flush();
}

fn child(id: &str, tier: &str, slots: Option<&str>) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    let Some(prop) = props::get(id, tier) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    if props::stream::VISIBLE && !props::shared::works() {
        eprintln!("the instrumentation does not work");
        return 2;
    }
    let mut scens = prop.scenarios;
    if let Ok(f) = std::env::var("MC_ONLY") {
        scens.retain(|s| s.name.contains(&f));
    }
    let kn = known(id);
    for (k, what) in &kn {
        println!("KNOWN-FINDING: property={} {} ({})", id, what, k);
    }
    // "i/n": this process has one of n shares
    let share = std::env::var("MC_SHARE").ok().and_then(|s| s.split_once('/').map(|(i, n)| (i.parse().unwrap(), n.parse().unwrap())));
    let cfg = Config {
        threads: if share.is_some() { 1 } else { threads() },
        deadline: t0 + Duration::from_secs(limit_secs(tier)),
        hang: Duration::from_secs(60),
        collect: std::env::var("MC_ALL").is_ok(),
        known: kn.iter().map(|k| k.0.clone()).collect(),
        slots: slots.and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()),
        give_up: if props::stream::VISIBLE && share.is_none() { shares_memory } else { || false },
        share,
        slot0: share.map_or(0, |s| s.0 as usize),
    };
    {
        let (id, tier) = (id.to_string(), tier.to_string());
        let (a, l) = (prop.assumptions.clone(), prop.level);
        *HANG_EXIT.lock().unwrap() = Some(Box::new(move |v| {
            let st = Stats { capped: true, executions: 1, states: 1, steps: 1, ..Default::default() };
            write_evidence(&id, &tier, &st, Some(&v), t0.elapsed().as_secs_f64(), &a, l);
            report(&id, &tier, &v);
            std::process::exit(1);
        }));
    }
    let ops = rayon_core::mc::ops_seen();
    OPS_BEFORE.store(ops[1], std::sync::atomic::Ordering::SeqCst);
    let (mut st, mut v) = explore(&scens, &cfg);
    if share.is_some() {
        println!("share: {} {} {} {} {} {} {} {} {}", st.executions, st.states, st.choice_points, st.steps, st.validated, st.outcomes, st.max_depth, st.capped as u64, st.diverged);
    }
    if props::stream::VISIBLE && share.is_none() {
        let now = rayon_core::mc::ops_seen();
        println!("visible operations of the code under test: {} on static memory, {} others", now[1] - ops[1], now[0] - ops[0]);
        if now[1] > ops[1] {
            // static memory is shared by all that runs in a process: one execution at a time, in
            // processes instead of threads
            match shares(id, tier, slots) {
                Ok(s) => (st, v) = (s, None),
                Err(code) => return code,
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(id, tier, &st, v.as_ref(), wall, &prop.assumptions, prop.level);
    if std::env::var("MC_VERBOSE").is_ok() {
        for (n, e, s) in &st.per_scenario {
            println!("  {:50} executions {:9} states {:9}", n, e, s);
        }
    }
    println!(
        "{} {}: {} executions, {} states, {} operations, {} comparisons, {} outcomes, depth {}, {:.1} s{}",
        id,
        tier,
        st.executions,
        st.states,
        st.steps,
        st.validated,
        st.outcomes,
        st.max_depth,
        wall,
        if st.capped {
            " (time limit reached: NOT exhaustive)".to_string()
        } else if st.diverged > 0 {
            format!(" ({} executions diverged: NOT exhaustive)", st.diverged)
        } else {
            String::new()
        }
    );
    if cfg.collect {
        for (k, m) in &st.known_hits {
            println!("SURVEY {}: {}", k, m);
        }
    }
    match v {
        Some(v) => {
            report(id, tier, &v);
            1
        }
        None => 0,
    }
}

/// Explores in as many processes as there would be threads; an exit code where one of them ends
/// otherwise than with a result.
fn shares(id: &str, tier: &str, slots: Option<&str>) -> Result<Stats, i32> {
    let n = threads();
    let out = |i: usize| std::env::temp_dir().join(format!("mc-share-{}-{}-{}", id, std::process::id(), i));
    let mut ps: Vec<_> = (0..n)
        .map(|i| {
            std::process::Command::new(std::env::current_exe().unwrap())
                .args(["child", id, tier, slots.unwrap_or("")])
                .env("MC_SHARE", format!("{}/{}", i, n))
                .stdout(std::fs::File::create(out(i)).expect("output of a share"))
                .spawn()
                .expect("share")
        })
        .collect();
    let mut done = vec![false; n];
    let mut st = Stats::default();
    let mut end = None;
    while end.is_none() && done.contains(&false) {
        std::thread::sleep(Duration::from_millis(20));
        for i in 0..n {
            let Ok(Some(s)) = ps[i].try_wait() else { continue };
            if done[i] {
                continue;
            }
            done[i] = true;
            let o = std::fs::read_to_string(out(i)).unwrap_or_default();
            match (s.code(), o.lines().find_map(|l| l.strip_prefix("share: "))) {
                (Some(0), Some(l)) => {
                    let x: Vec<u64> = l.split(' ').map(|x| x.parse().unwrap()).collect();
                    st.executions += x[0];
                    st.states += x[1];
                    st.choice_points += x[2];
                    st.steps += x[3];
                    st.validated += x[4];
                    st.outcomes = st.outcomes.max(x[5]);
                    st.max_depth = st.max_depth.max(x[6] as usize);
                    st.capped |= x[7] == 1;
                    st.diverged += x[8];
                }
                (Some(1), _) => {
                    print!("{}", o);
                    end = Some(1);
                    break;
                }
                // died: so does this one, the execution is looked for
                _ => {
                    print!("{}", o);
                    end = Some(3);
                    break;
                }
            }
        }
    }
    for (i, p) in ps.iter_mut().enumerate() {
        let _ = p.kill();
        let _ = p.wait();
        let _ = std::fs::remove_file(out(i));
    }
    end.map_or(Ok(st), Err)
}

static OPS_BEFORE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// The code under test has accessed static memory
fn shares_memory() -> bool {
    rayon_core::mc::ops_seen()[1] > OPS_BEFORE.load(std::sync::atomic::Ordering::SeqCst)
}

/// One execution in a process of its own.
fn one(id: &str, tier: &str, scen: &str, choices: &[u32], verbose: bool) -> i32 {
    install_panic_hook();
    let Some(prop) = props::get(id, tier) else { return 2 };
    let s = match scen.strip_prefix('#') {
        Some(k) => prop.scenarios.get(k.parse::<usize>().unwrap()),
        None => prop.scenarios.iter().find(|s| s.name == scen),
    };
    let Some(s) = s else {
        eprintln!("no scenario {}", scen);
        return 2;
    };
    if verbose {
        println!("scenario {}", s.name);
    }
    let (r, notes, div) = replay(s, choices);
    if verbose {
        for n in notes {
            println!("  {}", n);
        }
        if let Some(d) = div {
            println!("diverged: {}", d);
        }
    }
    match r {
        Ok(()) => 0,
        Err(f) => {
            println!("fails: {} (key {})", f.msg, f.key);
            1
        }
    }
}

fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &c) };
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let code = match arg(1).as_str() {
        "check" => {
            let id = arg(2);
            let tier = if a.len() > 3 { arg(3) } else { tier };
            supervise(&id, &tier)
        }
        "child" => {
            limit_memory();
            let s = arg(4);
            child(&arg(2), &arg(3), if s.is_empty() { None } else { Some(&s) })
        }
        "one" => {
            limit_memory();
            let c: Vec<u32> = a[5..].iter().map(|s| s.parse().unwrap()).collect();
            one(&arg(2), &arg(3), &arg(4), &c, false)
        }
        "replay" => {
            let s = std::fs::read_to_string(arg(2)).expect("replay file");
            let f = |k: &str| {
                s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string()
            };
            let c: Vec<u32> = f("choices").split_whitespace().map(|s| s.parse().unwrap()).collect();
            one(&f("property"), &f("tier"), &f("scenario"), &c, true)
        }
        "list" => {
            for p in props::IDS {
                println!("{}", p);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <property> [quick|thorough] | mc replay <file> | mc list");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

/// Runs the exploration in a child process, so that an abort of the code under check (stack
/// overflow, double panic, allocation failure) is a finding and not the end of the checker.
fn supervise(id: &str, tier: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let slots = std::env::temp_dir().join(format!("mc-slots-{}-{}", id, std::process::id()));
    std::fs::write(&slots, vec![0u8; 4096 * 64]).expect("slot file");
    let mut attempts = 0;
    let code = loop {
        let st = std::process::Command::new(&exe)
            .args(["child", id, tier, slots.to_str().unwrap()])
            .status()
            .expect("child");
        if let Some(c) = st.code() {
            if c == 0 || c == 1 || c == 2 {
                break c;
            }
        }
        let sig = st.signal().unwrap_or(0);
        println!("the exploring process died (signal {}): looking for the execution", sig);
        let bytes = std::fs::read(&slots).unwrap_or_default();
        let mut found = None;
        for (scen, prefix) in read_slots(&bytes) {
            let mut c = std::process::Command::new(&exe);
            c.args(["one", id, tier, &format!("#{}", scen)]);
            c.args(prefix.iter().map(|p| p.to_string()));
            c.stdout(std::process::Stdio::null());
            let Ok(mut ch) = c.spawn() else { continue };
            let t = Instant::now();
            let st = loop {
                match ch.try_wait() {
                    Ok(Some(s)) => break Some(s),
                    _ if t.elapsed() > Duration::from_secs(60) => {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        break None;
                    }
                    _ => std::thread::sleep(Duration::from_millis(20)),
                }
            };
            match st {
                Some(s) if s.signal().is_some() => {
                    found = Some((scen, prefix, format!("the process died with signal {}", s.signal().unwrap())));
                    break;
                }
                None => {
                    found = Some((scen, prefix, "execution did not end within 60 s".to_string()));
                    break;
                }
                _ => {}
            }
        }
        if let Some((scen, prefix, msg)) = found {
            let prop = props::get(id, tier).unwrap();
            let v = Violation {
                scenario: prop.scenarios[scen].name.clone(),
                choices: prefix,
                fail: Fail { key: "abort".into(), msg },
                notes: vec![],
                reproduced: true,
            };
            let st = Stats { capped: true, executions: 1, states: 1, steps: 1, ..Default::default() };
            write_evidence(id, tier, &st, Some(&v), 0.0, &prop.assumptions, prop.level);
            report(id, tier, &v);
            break 1;
        }
        attempts += 1;
        if attempts >= 2 {
            println!("the exploring process keeps dying, no single execution reproduces it");
            break 2;
        }
    };
    let _ = std::fs::remove_file(&slots);
    code
}
