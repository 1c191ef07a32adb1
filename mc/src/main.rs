#![allow(unused_parens)]
//! Bounded explicit-state model checker for raw-cpuid. See /verif/DESIGN.md.
mod alloc;
mod checks;
mod engine;
mod env;
#[allow(deprecated)]
mod groups;
mod known;
mod leaf2;
mod out;
#[cfg(feature = "display")]
mod pty;
mod rich;
mod spaces;
#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
mod step;

use engine::*;
use std::io::Write;
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static HEAP: alloc::Local = alloc::Local;

fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Job {
    prop: String,
    thorough: bool,
}

impl Job {
    fn tier(&self) -> &'static str {
        if self.thorough {
            "thorough"
        } else {
            "quick"
        }
    }
    fn hang(&self) -> Duration {
        Duration::from_secs(if self.thorough { 400 } else { 20 })
    }
    fn threads(&self) -> usize {
        std::thread::available_parallelism().map_or(4, |n| n.get()).min(SLOTS)
    }
}

/// Is this the build without debug assertions and overflow checks?
fn plain() -> bool {
    !cfg!(debug_assertions)
}

fn evidence_file(j: &Job) -> String {
    format!("{}/evidence/{}.json", root(), j.prop)
}

fn write_evidence(j: &Job, coverage: &str, violations: usize, wall: f64) {
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n",
        jstr(&j.prop),
        jstr(j.tier()),
        coverage,
        checks::assumptions(&j.prop).iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        wall
    );
    std::fs::write(evidence_file(j), s).expect("write evidence");
}

fn write_replay(j: &Job, space: &str, space_no: u64, idx: u64, choices: &[u32], error: &str, desc: &str) -> String {
    let dir = format!("{}/replay", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}-{}.txt", j.prop, space_no, if choices.is_empty() { idx.to_string() } else { choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(".") });
    let path = if path.len() > 180 { format!("{}.txt", &path[..170]) } else { path };
    let s = format!(
        "property {}\ntier {}\nbuild {}\nspace_no {space_no}\nidx {idx}\nchoices {}\n# space: {space}\n# error: {error}\n# case: {desc}\n# replay with: {}/check.sh --replay {path}\n",
        j.prop,
        j.tier(),
        if plain() { "plain" } else { "" },
        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "),
        root()
    );
    let mut f = std::fs::File::create(&path).expect("replay file");
    f.write_all(s.as_bytes()).unwrap();
    path
}

fn violation(j: &Job, path: &str, error: &str, desc: &str) {
    println!("property {}: {error}", j.prop);
    println!("  case: {desc}");
    println!("VIOLATION property={} replay={path}", j.prop);
}

fn worker(j: &Job, progress: &str, patient: bool) -> i32 {
    let t0 = Instant::now();
    let base = map_progress(progress, true);
    known::load(&root(), &j.prop);
    let spaces = checks::spaces(&j.prop, j.thorough);
    assert!(!spaces.is_empty(), "no case space for {}", j.prop);
    let rep = explore(&spaces, j.threads(), base, if patient { 8 * j.hang() } else { j.hang() });
    if let Some(e) = &rep.error {
        if rep.violation.is_none() {
            eprintln!("mc: error of the check itself: {e}");
            return 2;
        }
    }
    let cov = format!(
        "{{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"cases_that_read_unexpected_leaves\": {},\n  \"executions_that_varied_those_leaves\": {},\n  \"distinct_outcomes\": {},\n  \"distinct_outcomes_is_lower_bound\": true,\n  \"exhaustive\": {},\n  \"explanation\": {},\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }}",
        rep.states,
        rep.transitions,
        rep.traces,
        rep.surprises,
        rep.varied,
        rep.outcomes,
        rep.violation.is_none(),
        jstr(&checks::explanation(&j.prop)),
        rep.spaces.iter().map(|(n, s, x)| format!("{{\"space\": {}, \"states\": {s}, \"executions\": {x}}}", jstr(n))).collect::<Vec<_>>().join(",\n   "),
        rep.samples.iter().take(24).map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   "),
    );
    let first = std::fs::read_to_string(evidence_file(j)).ok().filter(|_| plain() && rep.violation.is_none());
    match first {
        // The second exploration of a check that held in the first one.
        Some(e) => {
            let more = format!("\"again_without_debug_assertions\": {{\"states\": {}, \"executions\": {}, \"transitions\": {}, \"wall_s\": {:.2}}},\n  \"exhaustive\":", rep.states, rep.executions, rep.transitions, t0.elapsed().as_secs_f64());
            std::fs::write(evidence_file(j), e.replacen("\"exhaustive\":", &more, 1)).expect("write evidence");
        }
        None => write_evidence(j, &cov, rep.violation.is_some() as usize, t0.elapsed().as_secs_f64()),
    }
    if let Some(v) = &rep.violation {
        let p = write_replay(j, &v.space, v.space_no, v.idx, &v.choices, &v.error, &v.desc);
        violation(j, &p, &format!("[{}] {}", v.space, v.error), &v.desc);
        return 1;
    }
    for (id, ex) in rep.known.iter().filter(|_| !plain()) {
        println!("KNOWN-FINDING: property={} {id}: {ex}", j.prop);
    }
    println!(
        "{} {}{}: held on {} states, {} executions, {} comparisons, {} distinct outcomes, {:.1} s",
        j.prop,
        j.tier(),
        if plain() { " without debug assertions" } else { "" },
        rep.states,
        rep.executions,
        rep.transitions,
        rep.outcomes,
        t0.elapsed().as_secs_f64()
    );
    0
}

fn single(j: &Job, space: u64, idx: u64, choices: &[u32]) -> i32 {
    known::load(&root(), &j.prop);
    let spaces = checks::spaces(&j.prop, j.thorough);
    let (r, d) = run_single(&spaces, space, idx, choices);
    println!("space: {}", spaces[space as usize].name);
    println!("case: {d}");
    match r {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(Ok(e)) => {
            println!("error: {e}");
            1
        }
        Err(Err(e)) => {
            println!("machinery error: {e}");
            2
        }
    }
}

/// Runs a child until `limit`; None if it had to be killed. Time is counted in
/// looks at the child, so that a suspended sandbox does not look like a hang.
fn run_limited(mut c: std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let mut looks = 0u64;
    loop {
        if let Some(s) = c.try_wait().expect("wait") {
            return Some(s);
        }
        looks += 1;
        if looks > limit.as_millis() as u64 / 5 {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn supervise(j: &Job) -> i32 {
    match supervise_once(j, false) {
        Some(c) => c,
        // Nothing failed alone: the machine was slow, so explore again, waiting longer.
        None => supervise_once(j, true).unwrap_or_else(|| {
            eprintln!("mc: none of the running cases fails alone");
            2
        }),
    }
}

fn supervise_once(j: &Job, patient: bool) -> Option<i32> {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let prog = std::env::temp_dir().join(format!("mc-progress-{}", std::process::id()));
    let prog = prog.to_str().unwrap().to_string();
    let base = map_progress(&prog, true);
    let child = Command::new(&exe).args(["worker", &j.prop, j.tier(), &prog, if patient { "patient" } else { "" }]).spawn().expect("spawn worker");
    let st = run_limited(child, Duration::from_secs(if j.thorough { 12 * 3600 } else { 840 }));
    let runs = running(base);
    let _ = std::fs::remove_file(&prog);
    let code = st.and_then(|s| s.code());
    if let Some(c) = code {
        if c != EXIT_HANG && c != 101 && c != 134 {
            return Some(c);
        }
    }
    if st.is_none() {
        eprintln!("mc: the exploration did not finish in its time limit");
        return Some(2);
    }
    // The worker crashed or hung in the code under test: find the case.
    eprintln!("mc: worker ended with {:?}; re-running its running cases one by one", st);
    for r in &runs {
        let ch = r.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
        let child = Command::new(&exe)
            .args(["single", &j.prop, j.tier(), &r.space.to_string(), &r.idx.to_string(), &ch])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn single");
        let s = run_limited(child, 2 * j.hang());
        let e = match s {
            None => "does not return (hang)".to_string(),
            Some(s) if s.code() == Some(0) || s.code() == Some(2) => continue,
            Some(s) => format!("crashes or fails: {s}"),
        };
        let desc = format!("space {} case {} choices {:?}", r.space, r.idx, r.choices);
        let cov = format!("{{\"states\": 1, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"samples\": [{}], \"exhaustive\": false, \"explanation\": \"stopped at a crash or hang\"}}", jstr(&desc));
        write_evidence(j, &cov, 1, t0.elapsed().as_secs_f64());
        let p = write_replay(j, "(crash)", r.space, r.idx, &r.choices, &e, &desc);
        violation(j, &p, &e, &desc);
        return Some(1);
    }
    None
}

/// One case of `checks::robust::ub` in Miri: what it says if the library's behaviour is
/// undefined, None if it could not tell.
fn interpreted(case: u64) -> Option<Result<(), String>> {
    let mut c = Command::new("timeout");
    c.args(["200", "cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--manifest-path"]).arg(format!("{}/mc/Cargo.toml", root()));
    c.arg("--target-dir").arg(format!("{}/target/miri", root())).args(["--", "ub", &case.to_string()]);
    let o = c.env("RUSTFLAGS", "-Awarnings").stdin(Stdio::null()).output().ok()?;
    let e = String::from_utf8_lossy(&o.stderr);
    if o.status.success() {
        return Some(Ok(()));
    }
    e.lines().find(|l| l.contains("Undefined Behavior")).map(|l| Err(l.trim().to_string()))
}

/// The second part of C03: a bounded set of CPUs in an interpreter that knows what
/// undefined behaviour is.
fn interpret(j: &Job) -> i32 {
    use std::sync::atomic::{AtomicU64, Ordering};
    let t0 = Instant::now();
    // Builds it.
    if interpreted(u64::MAX).is_none() {
        eprintln!("mc: no interpreter here; undefined behaviour is only seen by its effects");
        return 0;
    }
    let n = checks::robust::ub_cases(j.thorough);
    let next = AtomicU64::new(0);
    let (done, unknown) = (AtomicU64::new(0), AtomicU64::new(0));
    let bad = std::sync::Mutex::new(None);
    let limit = Duration::from_secs(if j.thorough { 3600 } else { 300 });
    std::thread::scope(|s| {
        for _ in 0..j.threads() {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n || t0.elapsed() > limit || bad.lock().unwrap().is_some() {
                    return;
                }
                match interpreted(i) {
                    Some(Ok(())) => done.fetch_add(1, Ordering::SeqCst),
                    None => unknown.fetch_add(1, Ordering::SeqCst),
                    Some(Err(e)) => {
                        *bad.lock().unwrap() = Some((i, e));
                        return;
                    }
                };
            });
        }
    });
    let (done, unknown) = (done.into_inner(), unknown.into_inner());
    let all = if done == n { "all" } else { "not all" };
    let more = format!("\"interpreted_for_undefined_behaviour\": {{\"cases\": {n}, \"finished\": {done}, \"wall_s\": {:.2}}},\n  \"exhaustive\":", t0.elapsed().as_secs_f64());
    let e = std::fs::read_to_string(evidence_file(j)).unwrap_or_default().replacen("\"exhaustive\":", &more, 1);
    if let Some((i, err)) = bad.into_inner().unwrap() {
        let e = e.replacen("\"violations\": 0", "\"violations\": 1", 1).replacen("\"exhaustive\": true", "\"exhaustive\": false", 1);
        std::fs::write(evidence_file(j), e).expect("write evidence");
        let desc = checks::robust::ub_describe(i);
        let p = write_replay(j, "(interpreter)", u32::MAX as u64, i, &[], &err, &desc);
        violation(j, &p, &err, &desc);
        return 1;
    }
    std::fs::write(evidence_file(j), e).expect("write evidence");
    println!("{} {} interpreted: no undefined behaviour in {done} of {n} cases ({all}; {unknown} ended otherwise), {:.1} s", j.prop, j.tier(), t0.elapsed().as_secs_f64());
    0
}

/// Targets that Miri stands in for: one that differs from x86 in everything that a
/// target can differ in, and further ones.
const FOREIGN: [&str; 3] = ["s390x-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "powerpc64-unknown-linux-gnu"];

/// One job of `checks::foreign` here and in Miri for a target: the number of pieces
/// compared, or what is wrong; None if Miri could not tell.
fn abroad(j: &Job, target: &str, k: usize) -> Option<Result<u64, String>> {
    let mut c = Command::new("timeout");
    c.args([if j.thorough { "1500" } else { "250" }, "cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--target", target, "--manifest-path"]).arg(format!("{}/mc/Cargo.toml", root()));
    c.arg("--target-dir").arg(format!("{}/target/foreign", root())).args(["--", "seen", j.tier(), &k.to_string()]);
    c.env("XDG_CACHE_HOME", format!("{}/target/xdg", root())).env("RUSTFLAGS", "-Awarnings").env_remove("RUSTC_WRAPPER");
    let o = c.stdin(Stdio::null()).output().ok()?;
    let e = String::from_utf8_lossy(&o.stderr);
    if !o.status.success() {
        if e.contains("could not compile `raw-cpuid`") {
            let l: Vec<_> = e.lines().filter(|l| l.starts_with("error")).take(3).collect();
            return Some(Err(format!("the library does not build for {target}: {}", l.join("; "))));
        }
        if let Some(l) = e.lines().find(|l| l.contains("Undefined Behavior")) {
            return Some(Err(format!("for {target}: {}", l.trim())));
        }
        e.lines().filter(|l| l.starts_with("error")).for_each(|l| eprintln!("mc: {l}"));
        return None;
    }
    let there = String::from_utf8_lossy(&o.stdout);
    let there = there.lines().find(|l| l.starts_with("saw"))?;
    let here = checks::foreign::line(j.thorough, k);
    let (a, b): (Vec<_>, Vec<_>) = (here.split(' ').collect(), there.split(' ').collect());
    if let Some(i) = (1..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)) {
        return Some(Err(format!("on {target} the library answers differently: {}", checks::foreign::piece(j.thorough, k, i - 1))));
    }
    Some(Ok(a.len() as u64 - 1))
}

/// C34: the same CPUs decoded here and by the library built for other targets.
fn foreign(j: &Job) -> i32 {
    use std::sync::atomic::{AtomicU64, Ordering};
    let t0 = Instant::now();
    let n = checks::foreign::jobs(j.thorough).len();
    let targets = if j.thorough { FOREIGN.len() } else { 1 };
    let next = AtomicU64::new(0);
    let (done, unknown, pieces) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let bad = std::sync::Mutex::new(None);
    let limit = Duration::from_secs(if j.thorough { 4 * 3600 } else { 420 });
    for (t, target) in FOREIGN.iter().enumerate().take(targets) {
        // Builds it.
        match abroad(j, target, usize::MAX) {
            None => {
                eprintln!("mc: no interpreter for {target} here");
                return 2;
            }
            Some(Err(e)) => {
                *bad.lock().unwrap() = Some((t * 10000 + 9999, e));
                break;
            }
            Some(Ok(_)) => {}
        }
        next.store(0, Ordering::SeqCst);
        std::thread::scope(|s| {
            for _ in 0..j.threads() {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, Ordering::SeqCst) as usize;
                    if k >= n || t0.elapsed() > limit || bad.lock().unwrap().is_some() {
                        return;
                    }
                    match abroad(j, target, k) {
                        Some(Ok(m)) => {
                            done.fetch_add(1, Ordering::SeqCst);
                            pieces.fetch_add(m, Ordering::SeqCst);
                        }
                        None => {
                            eprintln!("mc: job {k} for {target} did not finish");
                            unknown.fetch_add(1, Ordering::SeqCst);
                        }
                        Some(Err(e)) => *bad.lock().unwrap() = Some((t * 10000 + k, e)),
                    }
                });
            }
        });
        if bad.lock().unwrap().is_some() {
            break;
        }
    }
    let (done, unknown, pieces) = (done.into_inner(), unknown.into_inner(), pieces.into_inner());
    let bad = bad.into_inner().unwrap();
    let all = done == (n * targets) as u64;
    let first = [0, n / 3, n / 2, n - 1].map(|k| jstr(&checks::foreign::piece(j.thorough, k, 0))).join(",\n   ");
    let cov = format!(
        "{{\n  \"states\": {pieces},\n  \"transitions\": {pieces},\n  \"traces_validated_against_impl\": {pieces},\n  \"jobs\": {},\n  \"jobs_finished\": {done},\n  \"targets\": [{}],\n  \"exhaustive\": {},\n  \"explanation\": {},\n  \"samples\": [\n   {first}\n  ]\n }}",
        n * targets,
        FOREIGN[..targets].iter().map(|t| jstr(t)).collect::<Vec<_>>().join(", "),
        all && bad.is_none(),
        jstr(&checks::explanation(&j.prop)),
    );
    write_evidence(j, &cov, bad.is_some() as usize, t0.elapsed().as_secs_f64());
    if let Some((k, e)) = bad {
        let p = write_replay(j, "(interpreter)", u32::MAX as u64, k as u64, &[], &e, &format!("job {}", k % 10000));
        violation(j, &p, &e, &format!("job {} for {}", k % 10000, FOREIGN[k / 10000]));
        return 1;
    }
    println!("{} {}: held on {pieces} pieces in {done} of {} jobs ({unknown} ended otherwise), {:.1} s", j.prop, j.tier(), n * targets, t0.elapsed().as_secs_f64());
    (done == 0) as i32 * 2
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).cloned().unwrap_or_default();
    let job = |i: usize| Job { prop: s(i), thorough: s(i + 1) == "thorough" };
    if std::env::var_os("MC_PANICS").is_none() {
        std::panic::set_hook(Box::new(|i| {
            // Panics of the code under test are caught and reported as
            // violations; only those of the checker's own code are printed.
            let own = i.location().map_or(false, |l| l.file().starts_with("src/"));
            if own && !i.payload().is::<env::Budget>() && !i.payload().is::<env::Diverged>() {
                eprintln!("{i}");
            }
        }));
    }
    exit(match s(1).as_str() {
        "check" => {
            let j = job(2);
            supervise(&j)
        }
        #[cfg(feature = "display")]
        "renderer" => pty::serve(),
        "digests" => checks::features::serve(s(2) == "thorough", s(3) == "narrow"),
        "ub" => {
            println!("saw {:#x}", checks::robust::ub(s(2).parse().unwrap()));
            0
        }
        "interpret" => interpret(&job(2)),
        "foreign" => foreign(&job(2)),
        "seen" => {
            println!("{}", checks::foreign::line(s(2) == "thorough", s(3).parse().unwrap()));
            0
        }
        "deep" => checks::robust::deep(s(2).parse().unwrap()),
        "baseline" => checks::purity::baseline(s(2).parse().unwrap(), s(3).parse().unwrap()),
        "worker" => worker(&job(2), &s(4), s(5) == "patient"),
        "single" => {
            let ch: Vec<u32> = s(6).split(',').filter_map(|x| x.parse().ok()).collect();
            single(&job(2), s(4).parse().unwrap(), s(5).parse().unwrap(), &ch)
        }
        "spaces" => {
            let j = job(2);
            for sp in checks::spaces(&j.prop, j.thorough) {
                match sp.kind {
                    Kind::Idx(n, _) => println!("{n} {}", sp.name),
                    Kind::Dfs(_) => println!("dfs {}", sp.name),
                }
            }
            0
        }
        "replay" => {
            let t = std::fs::read_to_string(s(2)).expect("replay file");
            let g = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
            let j = Job { prop: g("property "), thorough: g("tier ") == "thorough" };
            let ch: Vec<u32> = g("choices ").split_whitespace().filter_map(|x| x.parse().ok()).collect();
            if j.prop == "C34" {
                let k: u64 = g("idx ").parse().unwrap();
                let r = abroad(&j, FOREIGN[(k / 10000) as usize], (k % 10000) as usize);
                println!("{r:?}");
                exit(matches!(r, Some(Err(_))) as i32);
            }
            if g("space_no ") == u32::MAX.to_string() {
                let r = interpreted(g("idx ").parse().unwrap());
                println!("{r:?}");
                exit(matches!(r, Some(Err(_))) as i32);
            }
            single(&j, g("space_no ").parse().unwrap(), g("idx ").parse().unwrap(), &ch)
        }
        _ => {
            eprintln!("usage: mc check PROP quick|thorough | mc replay FILE | mc spaces PROP TIER");
            2
        }
    })
}
