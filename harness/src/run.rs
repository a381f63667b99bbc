//! Supervisor and worker processes.
use crate::common::*;
use crate::monitor;
use crate::props::{self, Prop};
use crate::rng::{hash_bytes, mix, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
const HANG: i32 = 77;
const HARNESS: i32 = 78;
const MAGIC: &[u8] = b"asemon-replay 1\n";

type Opts = HashMap<String, String>;
fn opts() -> (String, Opts) {
    let mut a = std::env::args().skip(1);
    let mode = a.next().unwrap_or_default();
    let mut o = Opts::new();
    while let Some(k) = a.next() {
        let v = a.next().unwrap_or_default();
        o.insert(k.trim_start_matches("--").to_string(), v);
    }
    (mode, o)
}
fn num(o: &Opts, k: &str, d: u64) -> u64 {
    o.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
}
pub fn main() -> i32 {
    if std::env::args().nth(1).as_deref() == Some("once") {
        monitor::install();
        let b = std::env::args().nth(2).and_then(|f| std::fs::read(f).ok()).unwrap_or_default();
        crate::p_parse::once(&b);
        return 0;
    }
    let (mode, o) = opts();
    let Some(p) = o.get("prop").and_then(|i| props::find(i)).or_else(|| (mode == "replay").then(|| &props::PROPS[0])) else {
        eprintln!("unknown mode or property");
        return 2;
    };
    match mode.as_str() {
        "run" => supervise(p, &o),
        "worker" => worker(p, &o),
        "replay" => replay(&o),
        "dump" => dump(p, &o),
        _ => 2,
    }
}

/// Write the small cases of a range to a file, for the interpreter.
fn dump(p: &'static Prop, o: &Opts) -> i32 {
    let (seed, max, want) = (num(o, "seed", 1), num(o, "max-bytes", 600) as usize, num(o, "n", 40));
    let mut out = Vec::new();
    run_on(512 << 20, || {
        let (mut idx, mut n) = (0, 0);
        while n < want && idx < want * 100 {
            let c = make(p, seed, idx, false);
            idx += 1;
            if c.bytes.len() > max || idx <= 12 || c.kind >= 200 {
                continue;
            }
            n += 1;
            for v in [c.kind as u64, c.aux.len() as u64, c.bytes.len() as u64] {
                out.extend_from_slice(&v.to_le_bytes());
            }
            out.extend_from_slice(&c.aux);
            out.extend_from_slice(&c.bytes);
        }
    });
    fs::write(&o["file"], out).unwrap();
    0
}
fn undump(f: &str) -> Vec<Case> {
    let d = fs::read(f).unwrap();
    let (mut at, mut v) = (0, Vec::new());
    let mut take = |n: usize| {
        at += n;
        &d[at - n..at]
    };
    let total = d.len();
    let mut used = 0;
    while used < total {
        let mut n = [0usize; 3];
        n.iter_mut().for_each(|x| *x = u64::from_le_bytes(take(8).try_into().unwrap()) as usize);
        let aux = take(n[1]).to_vec();
        v.push(Case { kind: n[0] as u8, aux, bytes: take(n[2]).to_vec() });
        used += 24 + n[1] + n[2];
    }
    v
}

// ------------------------------------------------------------------ worker
fn prop_num(id: &str) -> u64 {
    id[1..].parse().unwrap()
}
fn make(p: &Prop, seed: u64, idx: u64, thorough: bool) -> Case {
    let mut r = Rng::new(mix(mix(seed, prop_num(p.id)), idx));
    (p.gen)(&mut r, idx, thorough)
}
static STARTED: AtomicU64 = AtomicU64::new(0);
/// A case that consists of many runs tells the watchdog about each.
pub fn tick() {
    STARTED.fetch_add(1 << 40, SeqCst);
}

extern "C" {
    fn clock() -> i64;
}
fn cpu_ms() -> u64 {
    // process CPU time, microseconds on Linux
    (unsafe { clock() }).max(0) as u64 / 1000
}
/// Ends the process when one case burns or waits too long.
fn watchdog(cpu_limit: u64, wall_limit: u64) {
    std::thread::spawn(move || {
        let mut seen = 0;
        let mut cpu0 = 0;
        let mut t0 = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let s = STARTED.load(SeqCst);
            if s == 0 {
                continue;
            }
            if s != seen {
                seen = s;
                cpu0 = cpu_ms();
                t0 = Instant::now();
            } else if cpu_ms() - cpu0 > cpu_limit || t0.elapsed().as_millis() as u64 > wall_limit {
                std::process::exit(HANG);
            }
        }
    });
}
/// Run one check on a thread with the stack the property asks for.
fn run_on<T: Send>(stack: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(stack).spawn_scoped(s, f).unwrap().join())
        .unwrap_or_else(|_| std::process::exit(HARNESS))
}
fn worker(p: &'static Prop, o: &Opts) -> i32 {
    monitor::install();
    monitor::CAP.store((num(o, "cap-mb", 2048) as usize) << 20, SeqCst);
    let (seed, thorough) = (num(o, "seed", 1), o.get("tier").is_some_and(|t| t == "thorough"));
    let (idx, mut end, step) = (num(o, "from", 0), num(o, "to", 0), num(o, "step", 1));
    let given = o.get("cases").map(|f| undump(f));
    if let Some(g) = &given {
        end = g.len() as u64;
    }
    let limit = Duration::from_millis(num(o, "limit-ms", 1 << 40));
    let want_digest = o.contains_key("digest");
    // the same cases, the last one first: another history
    let (first, last) = (idx, idx + end.saturating_sub(idx + 1) / step * step);
    let reverse = o.contains_key("reverse");
    // sanitizers and the interpreter need more stack than the code has
    let stack = num(o, "stack-mb", 0) as usize * (1 << 20);
    let stack = if stack > 0 { stack } else { p.stack };
    let state = o.get("state").map(|s| fs::OpenOptions::new().create(true).write(true).truncate(false).open(s).unwrap());
    if !o.contains_key("no-watchdog") {
        watchdog(30_000 * if p.id == "C21" { 4 } else { 1 }, 400_000);
    }
    let t0 = Instant::now();
    let mut total = Ctx::default();
    let mut out = std::io::stdout();
    let (mut evals, mut nontriv, mut skipped) = (0u64, 0u64, BTreeMap::<&str, u64>::new());
    let mut cut = false;
    // generation and the harness's own bookkeeping need more stack than the
    // code under test is allowed
    run_on(if stack > p.stack { stack } else { 512 << 20 }, || {
        let mut next = first;
        while next < end {
            if t0.elapsed() > limit {
                cut = true;
                break;
            }
            let idx = if reverse { last - (next - first) } else { next };
            if let Some(s) = &state {
                s.write_all_at(&idx.to_le_bytes(), 0).unwrap();
            }
            let case = match &given {
                Some(g) => g[idx as usize].clone(),
                None => make(p, seed, idx, thorough),
            };
            let mut ctx = Ctx::default();
            STARTED.store(idx + 1, SeqCst);
            let res = {
                let (c, x) = (&case, &mut ctx);
                if stack < 64 << 20 {
                    run_on(stack, move || (p.check)(c, x))
                } else {
                    (p.check)(c, x)
                }
            };
            STARTED.store(0, SeqCst);
            evals += 1;
            match res {
                Ok(()) | Err(Out::Ok) => {}
                Err(Out::Skip(w)) => {
                    *skipped.entry(w).or_default() += 1;
                    ctx.nontrivial = false;
                }
                Err(Out::Known(k)) => {
                    println_to(&mut out, &format!("K {k}"));
                }
                Err(Out::Violation(m)) => {
                    println_to(&mut out, &format!("V {idx} {}", m.replace('\n', " ")));
                    break;
                }
            }
            if want_digest {
                println_to(&mut out, &format!("D {idx} {:x}", ctx.digest));
            }
            for (k, n) in &ctx.stats {
                total.add(k, *n);
            }
            for (k, n) in &ctx.maxima {
                total.max(k, *n);
            }
            total.outcomes.extend(ctx.outcomes.drain());
            if ctx.nontrivial {
                let mut h = mix(case.kind as u64, hash_bytes(&case.bytes));
                h = mix(h, hash_bytes(&case.aux));
                if total.hashes.insert(h) {
                    nontriv += 1;
                    if total.samples.len() < 3 && evals > 9 * total.samples.len() as u64 {
                        total.samples.push(format!("case {idx}: {}", ctx.sample));
                    }
                }
            }
            next += step;
        }
    });
    let w = &mut out;
    println_to(w, &format!("E {evals} {nontriv} {}", cut as u8));
    for (k, n) in &skipped {
        println_to(w, &format!("P {n} {k}"));
    }
    for (k, n) in &total.stats {
        println_to(w, &format!("S {n} {k}"));
    }
    for (k, n) in &total.maxima {
        println_to(w, &format!("M {n} {k}"));
    }
    for h in &total.hashes {
        println_to(w, &format!("H {h:x}"));
    }
    for h in &total.outcomes {
        println_to(w, &format!("O {h:x}"));
    }
    for s in &total.samples {
        println_to(w, &format!("X {}", s.replace('\n', " ")));
    }
    if monitor::HAS_COV {
        let (r, n) = monitor::regions();
        println_to(w, &format!("R {n} {}", r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    }
    println_to(w, "F");
    if let Some(f) = o.get("profile") {
        monitor::dump_profile(f);
    }
    0
}
fn println_to(w: &mut impl Write, s: &str) {
    let _ = writeln!(w, "{s}");
}

// ------------------------------------------------------------------ replay
fn write_replay(dir: &Path, p: &Prop, seed: u64, idx: u64, build: &str, c: &Case, why: &str) -> PathBuf {
    let _ = fs::create_dir_all(dir);
    let build = build.replace(' ', "-");
    let f = dir.join(format!("{}-{build}-{seed}-{idx}.replay", p.id));
    let mut o = MAGIC.to_vec();
    o.extend_from_slice(format!("{} {build} {} {} {}\n# {}\n", p.id, c.kind, c.aux.len(), c.bytes.len(), why.replace('\n', " ")).as_bytes());
    o.extend_from_slice(&c.aux);
    o.extend_from_slice(&c.bytes);
    let _ = fs::write(&f, o);
    f
}
/// Re-run a recorded case in this process. With --digest only prints it.
fn replay(o: &Opts) -> i32 {
    let path = &o["file"];
    let d = fs::read(path).unwrap();
    let d = d.strip_prefix(MAGIC).expect("not a replay file");
    let e = d.iter().position(|&b| b == b'\n').unwrap();
    let head: Vec<String> = String::from_utf8_lossy(&d[..e]).split(' ').map(String::from).collect();
    let e2 = e + 1 + d[e + 1..].iter().position(|&b| b == b'\n').unwrap();
    let body = &d[e2 + 1..];
    let p = props::find(&head[0]).expect("property");
    let (kind, na, nb) = (head[2].parse().unwrap(), head[3].parse::<usize>().unwrap(), head[4].parse::<usize>().unwrap());
    let case = Case { kind, aux: body[..na].to_vec(), bytes: body[na..na + nb].to_vec() };
    eprintln!("{} recorded from build `{}`: {}", p.id, head[1], String::from_utf8_lossy(&d[e + 1..e2]));
    if let Some(f) = o.get("extract") {
        fs::write(f, &case.bytes).unwrap();
    }
    monitor::install();
    monitor::CAP.store(2 << 30, SeqCst);
    watchdog(30_000, 400_000);
    STARTED.store(1, SeqCst);
    let mut ctx = Ctx::default();
    let res = run_on(512 << 20, || {
        let (c, x) = (&case, &mut ctx);
        if p.stack < 64 << 20 {
            run_on(p.stack, move || (p.check)(c, x))
        } else {
            (p.check)(c, x)
        }
    });
    println!("digest {:x}", ctx.digest);
    match res {
        Err(Out::Violation(m)) => {
            println!("VIOLATION property={} replay={path}", p.id);
            println!("{m}");
            1
        }
        Err(Out::Known(k)) => {
            println!("KNOWN-FINDING: property={} {k}", p.id);
            0
        }
        Err(Out::Skip(w)) => {
            println!("no verdict: {w}");
            0
        }
        _ => {
            println!("no violation in this build");
            0
        }
    }
}

// -------------------------------------------------------------- supervisor
#[derive(Default)]
struct Sum {
    evals: u64,
    cut: bool,
    skipped: BTreeMap<String, u64>,
    stats: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
    regions: BTreeSet<u32>,
    nregions: usize,
    digests: HashMap<u64, u64>,
    viol: Vec<(u64, String)>,
    errors: Vec<String>,
}
struct Stage<'a> {
    label: &'a str,
    bin: PathBuf,
    n: u64,
    digest: bool,
    reverse: bool,
    limit: u64,
}
fn stage(p: &Prop, st: &Stage, seed: u64, tier: &str, work: &Path) -> Sum {
    let mut kids: Vec<(u64, Child, PathBuf)> = Vec::new();
    for w in 0..WORKERS.min(st.n) {
        let state = work.join(format!("{}-{w}", st.label));
        let mut c = Command::new(&st.bin);
        c.args(["worker", "--prop", p.id, "--seed", &seed.to_string(), "--tier", tier])
            .args(["--from", &w.to_string(), "--to", &st.n.to_string(), "--step", &WORKERS.to_string()])
            .args(["--limit-ms", &st.limit.to_string(), "--state"])
            .arg(&state)
            .env("LLVM_PROFILE_FILE", "/dev/null")
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        if st.digest {
            c.args(["--digest", "1"]);
        }
        if st.reverse {
            c.args(["--reverse", "1"]);
        }
        kids.push((w, c.spawn().expect("start worker"), state));
    }
    let mut sum = Sum::default();
    let results: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = kids
            .into_iter()
            .map(|(w, mut k, state)| {
                s.spawn(move || {
                    let so = k.stdout.take().unwrap();
                    let mut se = k.stderr.take().unwrap();
                    let eh = std::thread::spawn(move || {
                        let mut b = Vec::new();
                        let _ = std::io::Read::read_to_end(&mut se, &mut b);
                        String::from_utf8_lossy(&b).into_owned()
                    });
                    let lines: Vec<String> = BufReader::new(so).lines().map_while(Result::ok).collect();
                    let st = k.wait().unwrap();
                    (w, st, lines, eh.join().unwrap_or_default(), state)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (w, status, lines, err, state) in results {
        let mut fin = false;
        for l in &lines {
            let (t, rest) = l.split_once(' ').unwrap_or((l, ""));
            let two = || rest.split_once(' ').map(|(a, b)| (a.parse::<u64>().unwrap_or(0), b.to_string())).unwrap_or((0, rest.into()));
            match t {
                "E" => {
                    let v: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    sum.evals += v[0];
                    sum.cut |= v[2] == 1;
                }
                "P" => *sum.skipped.entry(two().1).or_default() += two().0,
                "S" => *sum.stats.entry(two().1).or_default() += two().0,
                "M" => {
                    let e = sum.maxima.entry(two().1).or_default();
                    *e = (*e).max(two().0);
                }
                "H" => drop(sum.hashes.insert(u64::from_str_radix(rest, 16).unwrap_or(0))),
                "O" => drop(sum.outcomes.insert(u64::from_str_radix(rest, 16).unwrap_or(0))),
                "X" => sum.samples.push(rest.to_string()),
                "K" => *sum.known.entry(rest.to_string()).or_default() += 1,
                "D" => {
                    let (i, h) = two();
                    sum.digests.insert(i, u64::from_str_radix(&h, 16).unwrap_or(0));
                }
                "R" => {
                    let mut it = rest.split(' ').filter_map(|x| x.parse::<u32>().ok());
                    sum.nregions = it.next().unwrap_or(0) as usize;
                    sum.regions.extend(it);
                }
                "V" => sum.viol.push(two()),
                "F" => fin = true,
                _ => {}
            }
        }
        let tail: String = err.lines().rev().take(4).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
        if status.success() && fin {
            continue;
        }
        let mut b = [0u8; 8];
        let at = fs::File::open(&state).ok().and_then(|f| f.read_exact_at(&mut b, 0).ok()).map(|_| u64::from_le_bytes(b));
        match (status.signal(), status.code(), at) {
            (_, Some(HANG), Some(i)) => sum.viol.push((i, "the case did not finish within its time limit (hang)".into())),
            (Some(9), ..) => sum.errors.push(format!("worker {w} was killed (out of memory?)")),
            (Some(15 | 2), ..) => sum.errors.push(format!("worker {w} was stopped")),
            (Some(sig), _, Some(i)) => sum.viol.push((i, format!("process died with signal {sig}: {tail}"))),
            _ => sum.errors.push(format!("worker {w} at {at:?}: {status}: {tail}")),
        }
    }
    sum
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "))
}

fn supervise(p: &'static Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let seed = num(o, "seed", 1);
    let tier = o.get("tier").map_or("quick", |s| s.as_str());
    let thorough = tier == "thorough";
    let root = PathBuf::from(o.get("root").map_or("/verif", |s| s.as_str()));
    let work = root.join(format!("work/{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&work).unwrap();
    let me = std::env::current_exe().unwrap();
    let scale = num(o, "scale", 100);
    let n = (p.n[thorough as usize] * scale / 100).max(1);
    let limit = num(o, "limit-s", if thorough { 600 } else { 150 }) * 1000;
    let mut sums: Vec<(String, Sum)> = Vec::new();
    let nd = if thorough { p.digests * 10 } else { p.digests };
    let peer = o.get("peer").map(PathBuf::from);
    let main = Stage { label: "checked", bin: me.clone(), n, digest: nd > 0, reverse: false, limit };
    sums.push(("checked".into(), stage(p, &main, seed, tier, &work)));
    // further builds: label=path=share of cases in percent
    for (k, v) in o.iter().filter(|(k, _)| k.starts_with("also-")) {
        let label = k.trim_start_matches("also-");
        let (path, pct) = v.rsplit_once('=').unwrap_or((v, "50"));
        let st = Stage { label, bin: path.into(), n: (n * pct.parse::<u64>().unwrap_or(50) / 100).max(1), digest: false, reverse: false, limit };
        // other cases than the main stage's
        let s = stage(p, &st, seed ^ mix(7, hash_bytes(label.as_bytes())) >> 20, tier, &work);
        sums.push((label.to_string(), s));
    }
    let mut compared = 0u64;
    let mut peer_viol: Vec<(u64, String)> = Vec::new();
    if nd > 0 {
        let bin = peer.clone().unwrap_or(me);
        let label = if peer.is_some() { "plain" } else { "second process" };
        let st = Stage { label: "peer", bin, n: nd.min(n), digest: true, reverse: peer.is_none(), limit };
        let s = stage(p, &st, seed, tier, &work);
        let first = &sums[0].1;
        for (i, d) in &s.digests {
            if let Some(e) = first.digests.get(i) {
                compared += 1;
                if e != d {
                    peer_viol.push((*i, format!("results differ between the checked build and {label}: digest {e:x} vs {d:x}")));
                }
            }
        }
        peer_viol.sort();
        sums.push((label.to_string(), s));
    }
    let _ = fs::remove_dir_all(&work);

    // ---------------------------------------------------------- verdict
    let mut viol: Vec<(String, u64, u64, String)> = Vec::new();
    let mut errors = Vec::new();
    for (l, s) in &sums {
        let sd = if o.contains_key(&format!("also-{l}")) { seed ^ mix(7, hash_bytes(l.as_bytes())) >> 20 } else { seed };
        let mut v = s.viol.clone();
        v.sort();
        viol.extend(v.into_iter().map(|(i, m)| (l.clone(), sd, i, m)));
        errors.extend(s.errors.iter().map(|e| format!("{l}: {e}")));
    }
    viol.extend(peer_viol.into_iter().map(|(i, m)| ("compare".to_string(), seed, i, m)));
    let mut first = None;
    for (l, sd, i, m) in viol.iter().take(5) {
        let (tx, rx) = std::sync::mpsc::channel();
        let (sd2, i2) = (*sd, *i);
        std::thread::Builder::new().stack_size(512 << 20).spawn(move || tx.send(make(p, sd2, i2, thorough))).unwrap();
        let c = rx.recv().unwrap();
        let f = write_replay(&root.join("replays"), p, *sd, *i, l, &c, m);
        println!("case {i} ({l} build): {m}");
        first.get_or_insert(f);
    }
    let all = |f: fn(&Sum) -> &BTreeMap<String, u64>| {
        let mut t = BTreeMap::<String, u64>::new();
        for (_, s) in &sums {
            for (k, v) in f(s) {
                *t.entry(k.clone()).or_default() += v;
            }
        }
        t
    };
    let stats = all(|s| &s.stats);
    let skipped = all(|s| &s.skipped);
    let known = all(|s| &s.known);
    let mut maxima = BTreeMap::<String, u64>::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut samples = Vec::new();
    for (_, s) in &sums {
        for (k, v) in &s.maxima {
            let e = maxima.entry(k.clone()).or_default();
            *e = (*e).max(*v);
        }
        hashes.extend(&s.hashes);
        outcomes.extend(&s.outcomes);
        samples.extend(s.samples.iter().cloned());
    }
    samples.truncate(8);
    let evals: u64 = sums.iter().map(|s| s.1.evals).sum();
    let builds: BTreeMap<String, u64> = sums.iter().map(|(l, s)| (l.clone(), s.evals)).collect();
    let mut ev = String::from("{\n");
    let field = |ev: &mut String, k: &str, v: String| ev.push_str(&format!("    {}: {v},\n", js(k)));
    ev.push_str(&format!("  \"property\": \"{}\", \"tier\": \"{tier}\", \"seed\": {seed}, \"level\": \"exploration\",\n  \"coverage\": {{\n", p.id));
    field(&mut ev, "evaluations", evals.to_string());
    field(&mut ev, "distinct_nontrivial", hashes.len().to_string());
    field(&mut ev, "rule", js(p.rule));
    field(&mut ev, "distinct_observed_outcomes", outcomes.len().to_string());
    field(&mut ev, "evaluations_by_build", jmap(&builds));
    field(&mut ev, "monitor_events", jmap(&stats));
    field(&mut ev, "maxima", jmap(&maxima));
    field(&mut ev, "no_verdict", jmap(&skipped));
    if compared > 0 {
        field(&mut ev, "digests_compared_across_processes", compared.to_string());
    }
    let cov = &sums[0].1;
    if cov.nregions > 0 {
        field(&mut ev, "code_regions_executed", cov.regions.len().to_string());
        field(&mut ev, "code_regions_total", cov.nregions.to_string());
    }
    field(&mut ev, "stopped_by_time_limit", sums.iter().any(|s| s.1.cut).to_string());
    if !known.is_empty() {
        field(&mut ev, "known_findings_seen", jmap(&known));
    }
    ev.push_str(&format!("    \"samples\": [{}]\n  }},\n", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n      ")));
    ev.push_str(&format!("  \"violations\": {},\n  \"wall_s\": {:.2}\n}}\n", viol.len(), t0.elapsed().as_secs_f64()));
    let _ = fs::create_dir_all(root.join("evidence"));
    fs::write(root.join(format!("evidence/{}.json", p.id)), ev).unwrap();

    println!(
        "{} {tier} seed {seed}: {evals} cases ({}), {} distinct non-trivial, {} distinct outcomes, {} regions, {:.1} s{}",
        p.id,
        builds.iter().map(|(k, v)| format!("{k} {v}")).collect::<Vec<_>>().join(", "),
        hashes.len(),
        outcomes.len(),
        cov.regions.len(),
        t0.elapsed().as_secs_f64(),
        if sums.iter().any(|s| s.1.cut) { ", stopped by time limit" } else { "" }
    );
    for (k, n) in &skipped {
        println!("  no verdict in {n} cases: {k}");
    }
    // known findings are listed in a committed file; unlisted ones count
    let list = fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut unlisted = None;
    for k in known.keys() {
        let line = list.lines().find(|l| l.starts_with(&format!("known: property={} input={k} ", p.id)));
        match line {
            Some(l) => println!("KNOWN-FINDING: property={} {}", p.id, l.splitn(3, ' ').nth(2).unwrap_or("")),
            None => unlisted = Some(k.clone()),
        }
    }
    if let Some(k) = unlisted {
        println!("finding `{k}` is not listed in known_findings.txt");
        println!("VIOLATION property={} replay={}", p.id, root.join("known_findings.txt").display());
        return 1;
    }
    if let Some(f) = first {
        println!("VIOLATION property={} replay={}", p.id, f.display());
        return 1;
    }
    // a run that observed next to nothing is no answer
    let cut = sums.iter().any(|s| s.1.cut);
    if hashes.len() < 25 && n >= 500 && !cut {
        errors.push(format!("only {} cases exercised the property", hashes.len()));
    }
    for e in &errors {
        println!("harness problem: {e}");
    }
    if errors.is_empty() {
        0
    } else {
        2
    }
}
