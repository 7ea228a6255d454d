//! Coordinator and workers. Workers run cases in processes of their own, so that an abort, a
//! stack overflow, an exceeded limit or a hang is an observation and not the end of the check.
use crate::rng::hash_bytes;
use crate::sys;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    /// number of cases per tier
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Out, u64),
    pub assumptions: &'static [&'static str],
    /// least number of distinct non-trivial cases for a verdict
    pub floor: u64,
}

pub struct Out {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub case: u64,
    pub verbose: bool,
    evals: u64,
    sigs: HashSet<u64>,
    stats: BTreeMap<String, u64>,
    samples: Vec<String>,
    viols: Vec<(u64, String)>,
    progress: Option<std::fs::File>,
    result: Option<PathBuf>,
    /// the input being parsed, kept for the replay file
    pub input: Vec<u8>,
}

pub fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

impl Out {
    pub fn new(id: &str, tier: Tier, seed: u64) -> Out {
        Out {
            id: id.into(),
            tier,
            seed,
            case: 0,
            verbose: false,
            evals: 0,
            sigs: HashSet::new(),
            stats: BTreeMap::new(),
            samples: vec![],
            viols: vec![],
            progress: None,
            result: None,
            input: vec![],
        }
    }
    pub fn rng(&self) -> crate::rng::Rng {
        crate::rng::Rng::case(&self.id, self.seed, self.case)
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Notes what is about to be run, so that a crash can be attributed.
    pub fn step(&mut self, label: &str) {
        if let Some(f) = &self.progress {
            use std::os::unix::fs::FileExt;
            let mut b = format!("{} {}", self.case, label.replace('\n', " ")).into_bytes();
            b.truncate(250);
            b.resize(256, b'\n');
            let _ = f.write_all_at(&b, 0);
        }
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    /// A distinct non-trivial case, by its signature.
    pub fn nontrivial(&mut self, sig: u64) {
        self.sigs.insert(sig);
    }
    pub fn nontrivial_bytes(&mut self, b: &[u8]) {
        self.sigs.insert(hash_bytes(b));
    }
    pub fn stat(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn stat_max(&mut self, k: &str, n: u64) {
        let e = self.stats.entry(format!("max {k}")).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut t = s();
            if t.len() > 600 {
                let mut k = 600;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
            }
            self.samples.push(t);
        }
    }
    pub fn violation(&mut self, msg: String) {
        if self.viols.len() < 50 {
            let dir = self.result.as_ref().and_then(|r| r.parent().map(|p| p.to_path_buf()));
            if let (Some(d), false) = (dir, self.input.is_empty()) {
                let _ = std::fs::write(d.join(format!("input-{}-{}", self.case, self.viols.len())), &self.input);
            }
            self.viols.push((self.case, msg));
        }
    }
    pub fn violated(&self) -> bool {
        !self.viols.is_empty()
    }
    pub fn report(&self) -> String {
        let mut s = format!("{} evaluations, {} violations\n", self.evals, self.viols.len());
        for (c, m) in &self.viols {
            s.push_str(&format!("case {c}: {m}\n"));
        }
        s
    }
    fn dump(&self) -> String {
        let mut s = String::new();
        let esc = |t: &str| t.replace('\\', "\\\\").replace('\n', "\\n");
        let _ = writeln!(s, "E {}", self.evals);
        for g in &self.sigs {
            let _ = writeln!(s, "G {g}");
        }
        for (k, v) in &self.stats {
            let _ = writeln!(s, "S {v} {}", esc(k));
        }
        for x in &self.samples {
            let _ = writeln!(s, "X {}", esc(x));
        }
        for (c, m) in &self.viols {
            let _ = writeln!(s, "V {c} {}", esc(m));
        }
        s
    }
    fn merge(&mut self, text: &str) {
        let un = |t: &str| t.replace("\\n", "\n").replace("\\\\", "\\");
        for l in text.lines() {
            let Some((k, rest)) = l.split_once(' ') else { continue };
            match k {
                "E" => self.evals += rest.parse::<u64>().unwrap_or(0),
                "G" => {
                    self.sigs.insert(rest.parse().unwrap_or(0));
                }
                "S" => {
                    if let Some((n, k)) = rest.split_once(' ') {
                        let n: u64 = n.parse().unwrap_or(0);
                        let e = self.stats.entry(un(k)).or_insert(0);
                        if k.starts_with("max ") { *e = (*e).max(n) } else { *e += n }
                    }
                }
                "X" => self.samples.push(un(rest)),
                "V" => {
                    if let Some((c, m)) = rest.split_once(' ') {
                        self.viols.push((c.parse().unwrap_or(0), un(m)));
                    }
                }
                _ => {}
            }
        }
    }
}

pub const STACK: usize = 2 << 20;

/// Runs `f` on a thread with the default stack of a spawned thread.
pub fn on_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(std::env::var("VH_STACK").ok().and_then(|v| v.parse().ok()).unwrap_or(STACK)).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

pub fn worker(check: &Check, tier: Tier, seed: u64, from: u64, stride: u64, end: u64, dir: &Path, secs: f64) {
    sys::quiet_panics();
    let run = check.run;
    let mut out = Out::new(check.id, tier, seed);
    out.progress = Some(std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(dir.join("progress")).unwrap());
    out.result = Some(dir.join("result"));
    let t0 = Instant::now();
    let out = on_stack(move || {
        let mut i = from;
        while i < end {
            if t0.elapsed().as_secs_f64() > secs {
                out.stat("cases left out for lack of time", 1);
                break;
            }
            out.case = i;
            out.step("");
            let before = out.viols.len();
            if let Err(m) = sys::caught(|| run(&mut out, i)) {
                if m.contains("/repo/") {
                    // an accessor or destructor of the library
                    out.violation(format!("the library panicked: {m}"));
                } else {
                    // a panic of the monitor itself
                    out.violation(format!("HARNESS panic in case {i}: {m}"));
                }
            }
            if out.viols.len() > before {
                let mut f = std::fs::OpenOptions::new().create(true).append(true).open(out.result.as_ref().unwrap().with_extension("viol")).unwrap();
                for (c, m) in &out.viols[before..] {
                    let _ = writeln!(f, "V {c} {}", m.replace('\\', "\\\\").replace('\n', "\\n"));
                }
                if out.viols.len() >= 8 {
                    break;
                }
            }
            i += stride;
        }
        sys::cpu_limit(0.0);
        sys::heap_limit(None);
        out
    });
    std::fs::write(dir.join("result"), out.dump()).unwrap();
}

/// Does the end of a worker show undefined behaviour?
fn undefined(stderr: &str, signal: Option<i32>) -> bool {
    let overflow = stderr.contains("stack-overflow") || stderr.contains("overflowed its stack");
    (stderr.contains("SUMMARY: ") && !overflow && !stderr.contains("out-of-memory"))
        || stderr.contains("UNDEFINED")
        || (matches!(signal, Some(4 | 7 | 8 | 11)) && !overflow)
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || (0xd800..0xe000).contains(&(c as u32)) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Known {
    pub property: String,
    pub tag: String,
    pub text: String,
}
pub fn known_findings() -> Vec<Known> {
    let mut v = vec![];
    let text = std::fs::read_to_string(verif().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    for l in text.lines() {
        // KNOWN property=C02 tag=KF1 description
        let Some(r) = l.strip_prefix("KNOWN property=") else { continue };
        let Some((p, r)) = r.split_once(" tag=") else { continue };
        let Some((t, d)) = r.split_once(' ') else { continue };
        v.push(Known { property: p.into(), tag: t.into(), text: d.into() });
    }
    v
}

/// Runs a check and returns the exit status.
pub fn coordinate(check: &Check, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let n = if tier == Tier::Quick { check.quick } else { check.thorough };
    let n = std::env::var("VERIF_CASES").ok().and_then(|v| v.parse().ok()).unwrap_or(n);
    let secs: f64 = std::env::var("VERIF_SECS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 300.0 } else { 240.0 });
    let jobs = std::env::var("VERIF_JOBS").ok().and_then(|v| v.parse().ok()).unwrap_or(8u64).min(n.max(1));
    let base = verif().join("target").join("work").join(format!("{}-{}", check.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();
    // workers may be other builds than the coordinator, taken in turn
    let exes: Vec<PathBuf> = match std::env::var("VH_WORKERS") {
        Ok(v) => v.split(':').map(PathBuf::from).collect(),
        Err(_) => vec![std::env::current_exe().unwrap()],
    };
    let mut total = Out::new(check.id, tier, seed);
    let mut harness_trouble: Vec<String> = vec![];

    struct W {
        child: std::process::Child,
        dir: PathBuf,
        k: u64,
        tries: u32,
        started: Instant,
    }
    let spawn = |k: u64, from: u64, tries: u32| -> W {
        let dir = base.join(format!("w{k}-{tries}"));
        std::fs::create_dir_all(&dir).unwrap();
        let err = std::fs::File::create(dir.join("stderr")).unwrap();
        let left = (secs - t0.elapsed().as_secs_f64()).max(5.0);
        let child = std::process::Command::new(&exes[k as usize % exes.len()])
            .args(["worker", check.id, if tier == Tier::Quick { "quick" } else { "thorough" }])
            .args([seed, from, jobs, n].map(|v| v.to_string()))
            .arg(&dir)
            .arg(left.to_string())
            .env("RUST_BACKTRACE", "0")
            .env("RUST_LIB_BACKTRACE", "0")
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(err)
            .spawn()
            .unwrap();
        W { child, dir, k, tries, started: Instant::now() }
    };
    let mut ws: Vec<W> = (0..jobs).map(|k| spawn(k, k, 0)).collect();
    let mut crashes = 0;
    while !ws.is_empty() {
        let mut next = vec![];
        for mut w in ws {
            match w.child.try_wait().unwrap() {
                None => {
                    if w.started.elapsed().as_secs_f64() > secs + 120.0 {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        harness_trouble.push(format!("worker {} exceeded its wall-clock allowance", w.k));
                    } else {
                        next.push(w);
                    }
                }
                Some(st) => {
                    if let Ok(t) = std::fs::read_to_string(w.dir.join("result")) {
                        total.merge(&t);
                    } else {
                        if let Ok(t) = std::fs::read_to_string(w.dir.join("result.viol")) {
                            total.merge(&t);
                        }
                        let p = std::fs::read(w.dir.join("progress")).unwrap_or_default();
                        let p = String::from_utf8_lossy(&p).trim().to_string();
                        let case: Option<u64> = p.split(' ').next().and_then(|c| c.parse().ok());
                        let stderr = std::fs::read_to_string(w.dir.join("stderr")).unwrap_or_default();
                        use std::os::unix::process::ExitStatusExt;
                        if check.id == "C04" && !undefined(&stderr, st.signal()) {
                            // a stack overflow, a limit or an abort: other properties
                            total.stat("workers that ended early for another reason", 1);
                            if let (Some(case), true) = (case, w.tries < 30) {
                                next.push(spawn(w.k, case + jobs, w.tries + 1));
                            } else {
                                harness_trouble.push(format!("worker {} ended early again and again: {p}", w.k));
                            }
                            continue;
                        }
                        let report = stderr.lines().find_map(|l| l.strip_prefix("SUMMARY: ")).map(|l| l.to_string());
                        let what = match (st.code(), st.signal()) {
                            (Some(77), _) => "heap memory limit exceeded".to_string(),
                            (_, Some(27)) => "processor time limit exceeded".to_string(),
                            (_, Some(9)) => {
                                harness_trouble.push(format!("worker {} was killed: {p}", w.k));
                                continue;
                            }
                            (_, Some(s)) => format!(
                                "process died of signal {s}{}",
                                if stderr.contains("overflowed its stack") { " (stack overflow)" } else { "" }
                            ),
                            (Some(_), _) if report.is_some() => report.clone().unwrap(),
                            (c, _) => {
                                harness_trouble.push(format!("worker {} ended with {c:?}: {p}: {}", w.k, stderr.chars().take(400).collect::<String>()));
                                continue;
                            }
                        };
                        crashes += 1;
                        if let Some(case) = case {
                            let line = stderr.lines().find(|l| !l.trim().is_empty() && !l.starts_with("=====")).unwrap_or("").to_string();
                            total.viols.push((case, format!("{what}: {p} {line}")));
                            if crashes < 12 && w.tries < 4 {
                                next.push(spawn(w.k, case + jobs, w.tries + 1));
                            }
                        } else {
                            harness_trouble.push(format!("worker {} died before its first case: {what}", w.k));
                        }
                    }
                }
            }
        }
        ws = next;
        std::thread::sleep(std::time::Duration::from_millis(if t0.elapsed().as_millis() < 2000 { 5 } else { 30 }));
    }

    // --- verdict ----------------------------------------------------------------------------
    total.viols.retain(|(_, m)| {
        if m.starts_with("HARNESS") {
            harness_trouble.push(m.clone());
            false
        } else {
            true
        }
    });
    let known = known_findings();
    let replay_dir = verif().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&replay_dir);
    if let Ok(d) = std::fs::read_dir(&replay_dir) {
        for e in d.flatten() {
            if e.file_name().to_string_lossy().starts_with(&format!("{}-", check.id)) {
                let _ = std::fs::remove_file(e.path());
            }
        }
    }
    let mut seen_known = HashSet::new();
    let mut reported = 0;
    let mut distinct = HashSet::new();
    total.viols.sort();
    for (case, m) in &total.viols {
        if let Some(k) = known.iter().find(|k| k.property == check.id && m.contains(&format!("[{}]", k.tag))) {
            if seen_known.insert(k.tag.clone()) {
                println!("KNOWN-FINDING: property={} {} {}", check.id, k.tag, k.text);
            }
            continue;
        }
        if !distinct.insert(m.clone()) {
            continue;
        }
        reported += 1;
        if reported > 5 {
            continue;
        }
        let f = replay_dir.join(format!("{}-{}.txt", check.id, reported));
        let mut t = format!(
            "property={}\ntier={}\nseed={}\ncase={}\nmessage={}\nreplay with: /verif/check.sh replay {}\n",
            check.id,
            if tier == Tier::Quick { "quick" } else { "thorough" },
            seed,
            case,
            m,
            f.display()
        );
        // the input, if the worker kept it
        for w in std::fs::read_dir(&base).into_iter().flatten().flatten() {
            let p = w.path().join(format!("input-{case}-0"));
            if p.exists() {
                let to = f.with_extension("bin");
                let _ = std::fs::copy(&p, &to);
                let _ = writeln!(t, "input={}", to.display());
            }
        }
        let _ = std::fs::write(&f, t);
        println!("VIOLATION property={} replay={}", check.id, f.display());
        let mut mm = m.clone();
        if mm.len() > 1500 {
            let mut k = 1500;
            while !mm.is_char_boundary(k) {
                k -= 1;
            }
            mm.truncate(k);
        }
        println!("  case {case}: {mm}");
    }
    let _ = std::fs::remove_dir_all(&base);
    // what workers that died have left behind
    for e in std::fs::read_dir(verif().join("target/work/scratch")).into_iter().flatten().flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        if let Some(pid) = name.split('-').nth(1)
            && !Path::new("/proc").join(pid).exists()
        {
            let _ = std::fs::remove_dir_all(e.path());
        }
    }

    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"cases_planned\": {},\n  \"observed\": {{",
        json(check.id),
        if tier == Tier::Quick { "quick" } else { "thorough" },
        seed,
        json(check.level),
        total.evals,
        total.sigs.len(),
        json(check.rule),
        n
    );
    for (i, (k, v)) in total.stats.iter().enumerate() {
        let _ = write!(s, "{}\n   {}: {}", if i > 0 { "," } else { "" }, json(k), v);
    }
    s.push_str("\n  },\n  \"samples\": [");
    total.samples.truncate(6);
    for (i, x) in total.samples.iter().enumerate() {
        let _ = write!(s, "{}\n   {}", if i > 0 { "," } else { "" }, json(x));
    }
    s.push_str("\n  ]\n },\n \"assumptions\": [");
    for (i, x) in check.assumptions.iter().enumerate() {
        let _ = write!(s, "{}\n  {}", if i > 0 { "," } else { "" }, json(x));
    }
    let _ = write!(s, "\n ],\n \"known_findings_seen\": {},\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n", seen_known.len(), reported, t0.elapsed().as_secs_f64());
    let ev = verif().join("evidence").join(format!("{}.json", check.id));
    std::fs::write(&ev, s).unwrap();
    println!(
        "{} {:?} seed={} evaluations={} distinct={} violations={} wall={:.1}s",
        check.id,
        tier,
        seed,
        total.evals,
        total.sigs.len(),
        reported,
        t0.elapsed().as_secs_f64()
    );
    if reported > 0 {
        return 1;
    }
    if !harness_trouble.is_empty() {
        for h in harness_trouble.iter().take(5) {
            eprintln!("inconclusive: {h}");
        }
        return 3;
    }
    if (total.sigs.len() as u64) < check.floor {
        eprintln!("inconclusive: only {} distinct non-trivial cases observed, {} needed", total.sigs.len(), check.floor);
        return 3;
    }
    0
}
