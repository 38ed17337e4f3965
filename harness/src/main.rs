//! monitor: runs the real library under generated workloads while oracles watch every call.
//! usage: monitor Cxx [--tier quick|thorough] [--seed N] [--scale X] [--repo DIR] [--out DIR] [--replay FILE]
mod alloc; mod api; mod core; mod gen; mod meta; mod metawire; mod model; mod num; mod props; mod quiet; mod ranges; mod rng; mod xml;
#[cfg(rlibphonenumber_verif)]
mod plans;
#[cfg(rlibphonenumber_verif_ops)]
mod ops;
use crate::core::*;
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command};
use std::time::Instant;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

#[derive(Clone)]
struct Args { prop: String, tier: String, seed: u64, scale: f64, repo: String, out: String, known: String, replay: Option<String>, child: Option<String>, one: Option<(String, u64)>, first_use: Option<u64>, race: Option<u64>, sealed: Option<u64>, ways: u64, notes: Vec<String> }
fn args() -> Result<Args, String> {
    let mut a = Args { prop: String::new(), tier: std::env::var("VERIF_TIER").unwrap_or("quick".into()), seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1), scale: 1.0,
        repo: "/repo".into(), out: "/verif/evidence".into(), known: "/verif/known_findings.txt".into(), replay: None, child: None, one: None, first_use: None, race: None, sealed: None, ways: 0, notes: vec![] };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().ok_or(format!("{x} needs a value"));
        match x.as_str() {
            "--tier" => a.tier = v()?, "--seed" => a.seed = v()?.parse().map_err(|e| format!("{e}"))?, "--scale" => a.scale = v()?.parse().map_err(|e| format!("{e}"))?,
            "--repo" => a.repo = v()?, "--out" => a.out = v()?, "--known" => a.known = v()?, "--note" => { let n = v()?; a.notes.push(n); } "--replay" => a.replay = Some(v()?), "--child" => a.child = Some(v()?),
            "--one" => { let s = v()?; let i = v()?; a.one = Some((s, i.parse().map_err(|e| format!("{e}"))?)); }
            "--first-use" => a.first_use = Some(v()?.parse().map_err(|e| format!("{e}"))?),
            "--sealed" => a.sealed = Some(v()?.parse().map_err(|e| format!("{e}"))?),
            "--ways" => a.ways = v()?.parse().map_err(|e| format!("{e}"))?,
            "--race" => a.race = Some(v()?.parse().map_err(|e| format!("{e}"))?),
            p if !p.starts_with('-') => a.prop = p.to_string(),
            o => return Err(format!("unknown option {o}")),
        }
    }
    Ok(a)
}
/// string literals of the sources: the tokens the parser compares with
fn mine_words(repo: &str) -> Vec<String> {
    fn walk(d: &std::path::Path, out: &mut Vec<String>) {
        let Ok(r) = std::fs::read_dir(d) else { return };
        let mut v: Vec<_> = r.flatten().map(|e| e.path()).collect();
        v.sort();
        for p in v {
            let name = p.file_name().map(|s| s.to_string_lossy().to_string()).unwrap_or_default();
            if p.is_dir() { if name != "generated" && name != "tests" { walk(&p, out); } continue; }
            if p.extension().map(|e| e != "rs").unwrap_or(true) { continue; }
            let Ok(s) = std::fs::read_to_string(&p) else { continue };
            for l in s.lines() {
                if l.trim_start().starts_with("//") { continue; }
                for (k, part) in l.split('"').enumerate() {
                    if k % 2 == 1 && !part.is_empty() && part.chars().count() <= 24 && !part.contains(['{', '}', '\\']) { out.push(part.to_string()); }
                }
            }
        }
    }
    let mut v = vec![];
    walk(&std::path::Path::new(repo).join("src"), &mut v);
    v.sort();
    v.dedup();
    v
}
fn env(a: &Args) -> Result<&'static Env, String> {
    let meta: &'static meta::Meta = Box::leak(Box::new(meta::Meta::load(&format!("{}/resources/PhoneNumberMetadata.xml", a.repo))?));
    let util: &'static rlibphonenumber::PhoneNumberUtil = Box::leak(Box::new(rlibphonenumber::PhoneNumberUtil::new()));
    Ok(Box::leak(Box::new(Env { meta, model: model::Model::new(meta), util, words: mine_words(&a.repo), seed: a.seed, thorough: a.tier == "thorough", repo: a.repo.clone(), synthetic: false })))
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn clip(s: &str, n: usize) -> String { if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "…" } }
fn one_line(s: &str) -> String { clip(&format!("{s:?}"), 1500) }
fn save_replay(a: &Args, v: &Violation, n: usize) -> String {
    let dir = format!("{}/replay", a.out);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{n}.txt", a.prop);
    let _ = std::fs::write(&path, format!("property={}\nstream={}\nidx={}\nseed={}\ntier={}\nsignature={}\n{}\n# replay: monitor {} --replay {path}\n", a.prop, v.stream, v.idx, a.seed, a.tier, v.sig, clip(&v.msg, 20_000), a.prop));
    path
}
/// (signature, exact text the message starts with) of the findings listed for this property
fn known(a: &Args) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(&a.known).unwrap_or_default();
    s.lines().filter_map(|l| { let r = l.strip_prefix("known: ")?; let mut p = r.splitn(3, '\t'); let id = p.next()?.strip_prefix("property=")?; let sig = p.next()?; let what = p.next()?; (id == a.prop).then(|| (sig.to_string(), what.to_string())) }).collect()
}
fn evidence(a: &Args, p: &Prop, o: &Obs, wall: f64, violations: usize) {
    let _ = std::fs::create_dir_all(&a.out);
    let mut samples: Vec<String> = o.samples.iter().take(16).map(|s| js(&clip(s, 400))).collect();
    if samples.is_empty() { samples.push(js("none")); }
    let mut notes = o.notes.clone();
    for n in &a.notes { if let Some((k, v)) = n.split_once('=') { notes.insert(k.to_string(), v.to_string()); } }
    let map = |m: &BTreeMap<String, String>| m.iter().map(|(k, v)| format!("{}: {}", js(k), js(v))).collect::<Vec<_>>().join(", ");
    let cnt = o.counters.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", ");
    let s = format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {}, \"library_calls_observed\": {}, \"oracle_checks\": {},\n  \"rule\": {},\n  \"observed\": {{{cnt}}},\n  \"notes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"the reference model and the published XML metadata are right where the oracle is the model\", \"held on the executions counted here, nothing more\"],\n \"wall_s\": {:.2}, \"violations\": {violations}\n}}\n",
        js(&a.prop), js(&a.tier), a.seed, o.cases, o.distinct.len(), o.calls, o.checks, js(p.rule), map(&notes), samples.join(", "), wall);
    if let Err(e) = std::fs::write(format!("{}/{}.json", a.out, a.prop), s) { eprintln!("monitor: evidence not written: {e}"); exit(2); }
}
fn find(props: &'static [Prop], id: &str) -> &'static Prop { props.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("monitor: no property {id}"); exit(2) }) }
fn report(a: &Args, vs: &[Violation]) {
    let path = vs.iter().enumerate().map(|(i, v)| (save_replay(a, v, i), i)).next().map(|x| x.0).unwrap_or_default();
    for v in vs.iter().take(if std::env::var_os("MONITOR_ALL").is_some() { 200 } else { 6 }) { println!("  {}/{} [{}] {}", v.stream, v.idx, v.sig, one_line(&v.msg)); }
    println!("VIOLATION property={} replay={path}", a.prop);
}
fn run_child(a: &Args, crash: &str) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    let e = match env(a) { Ok(e) => e, Err(m) => { eprintln!("monitor: {m}"); return 2 } };
    let props: &'static [Prop] = Box::leak(props::all().into_boxed_slice());
    let p = find(props, &a.prop);
    if let Some((s, i)) = &a.one {
        let Some(st) = p.streams.iter().find(|x| x.name == s) else { eprintln!("monitor: no stream {s}"); return 2 };
        let mut o = Obs::default();
        // on a thread like the runner's: same stack
        let (id, i) = (p.id, *i);
        let st: &'static Stream = st;
        o = std::thread::Builder::new().stack_size(16 << 20).spawn(move || { run_case(e, id, st, i, &mut o); o }).unwrap().join().unwrap();
        for h in &o.harness_errors { eprintln!("monitor: {h}"); }
        if o.violations.is_empty() { println!("case {s}/{i}: nothing found"); return if o.harness_errors.is_empty() { 0 } else { 2 }; }
        report(a, &o.violations);
        return 1;
    }
    let f = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(crash).ok();
    match run_prop(e, p, f.as_ref(), a.scale) {
        Outcome::Hang { stream, idx } => {
            let st = p.streams.iter().find(|s| s.name == stream).unwrap();
            let v = Violation { stream: st.name, idx, sig: "hang".into(), msg: "a call did not return within 15 s of CPU time".into() };
            let mut o = Obs::default();
            o.cases = idx + 1;
            evidence(a, p, &o, t0.elapsed().as_secs_f64(), 1);
            report(a, &[v]);
            1
        }
        Outcome::Stalled(Some((stream, idx))) if matches!(p.id, "C01" | "C25" | "C37") => {
            let st = p.streams.iter().find(|s| s.name == stream).unwrap();
            let mut o = Obs::default();
            o.cases = idx + 1;
            evidence(a, p, &o, t0.elapsed().as_secs_f64(), 1);
            report(a, &[Violation { stream: st.name, idx, sig: "no-return".into(), msg: "a call neither returns nor uses the processor: it waits for a lock for ever".into() }]);
            1
        }
        Outcome::Stalled(_) => { eprintln!("monitor: no progress and no CPU use; inconclusive"); 2 }
        Outcome::Done(o) => {
            let ks = known(a);
            let (old, new): (Vec<Violation>, Vec<Violation>) = o.violations.iter().cloned().partition(|v| ks.iter().any(|(s, w)| *s == v.sig && v.msg.starts_with(w.as_str())));
            for (s, w) in &ks { if old.iter().any(|v| v.sig == *s && v.msg.starts_with(w.as_str())) { println!("KNOWN-FINDING: property={} {s} {w}", a.prop); } }
            evidence(a, p, &o, t0.elapsed().as_secs_f64(), new.len());
            let top: Vec<String> = o.counters.iter().map(|(k, v)| format!("{k}={v}")).collect();
            println!("{}: {} cases, {} library calls observed, {} oracle checks, {} distinct, {:.1} s; {}", a.prop, o.cases, o.calls, o.checks, o.distinct.len(), t0.elapsed().as_secs_f64(), clip(&top.join(" "), 900));
            if !new.is_empty() { report(a, &new); return 1; }
            if !o.harness_errors.is_empty() { for h in o.harness_errors.iter().take(5) { eprintln!("monitor: {h}"); } return 2; }
            if a.scale >= 1.0 { for (k, n) in &p.need { let got = o.counters.get(*k).copied().unwrap_or(0); if got < *n { eprintln!("monitor: observed too little: {k}={got}, needs {n}"); return 2; } } }
            0
        }
    }
}
fn main() {
    let mut a = args().unwrap_or_else(|e| { eprintln!("monitor: {e}"); exit(2) });
    if let Some(s) = a.first_use {
        install_panic_hook();
        let e = env(&a).unwrap_or_else(|m| { eprintln!("monitor: {m}"); exit(2) });
        let mut o = Obs::default();
        let mut c = Case { e, api: api::Api { u: e.util }, r: rng::Rng::new(s), o: &mut o, idx: 0, stream: "first-use" };
        exit(props::first_use_child(&mut c, s));
    }
    if let Some(s) = a.sealed {
        install_panic_hook();
        let e = env(&a).unwrap_or_else(|m| { eprintln!("monitor: {m}"); exit(2) });
        let mut o = Obs::default();
        let mut c = Case { e, api: api::Api { u: e.util }, r: rng::Rng::new(s), o: &mut o, idx: 0, stream: "sealed" };
        exit(quiet::sealed_child(&mut c, s, a.ways));
    }
    if let Some(s) = a.race {
        // the concurrent workload alone, for a build under a race detector
        install_panic_hook();
        let e = env(&a).unwrap_or_else(|m| { eprintln!("monitor: {m}"); exit(2) });
        let mut o = Obs::default();
        let mut c = Case { e, api: api::Api { u: e.util }, r: rng::Rng::new(s), o: &mut o, idx: 0, stream: "race" };
        exit(props::race_child(&mut c, (a.scale * 8.0).ceil() as usize));
    }
    if let Some(f) = &a.replay {
        let s = std::fs::read_to_string(f).unwrap_or_else(|e| { eprintln!("monitor: {f}: {e}"); exit(2) });
        let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
        a.seed = get("seed").parse().unwrap_or(1);
        a.tier = get("tier");
        a.prop = get("property");
        a.one = Some((get("stream"), get("idx").parse().unwrap_or(0)));
        a.out = format!("{}/again", a.out);
        a.replay = None;
    }
    if let Some(c) = a.child.clone() { exit(run_child(&a, &c)); }
    // parent: the workload runs in a child, so that an abort or a stack overflow is an observation, not the end of the monitor
    let crash = format!("/tmp/monitor-crash.{}", std::process::id());
    let exe = std::env::current_exe().expect("own path");
    let run = |extra: &[String]| {
        let mut c = Command::new(&exe);
        c.arg(&a.prop).args(["--tier", &a.tier, "--seed", &a.seed.to_string(), "--scale", &a.scale.to_string(), "--repo", &a.repo, "--out", &a.out, "--known", &a.known, "--child", &crash]).args(extra);
        for n in &a.notes { c.args(["--note", n]); }
        c
    };
    let whole = |mut c: Command| c.status().unwrap_or_else(|e| { eprintln!("monitor: {e}"); exit(2) });
    let extra: Vec<String> = a.one.as_ref().map(|(s, i)| vec!["--one".into(), s.clone(), i.to_string()]).unwrap_or_default();
    let st = whole(run(&extra));
    let code = match (st.code(), st.signal()) {
        (Some(c), _) => c,
        (None, Some(9)) | (None, Some(15)) | (None, Some(2)) | (None, None) => { eprintln!("monitor: the workload was killed; inconclusive"); 2 }
        (None, Some(sig)) => {
            let p = props::all();
            let p = p.iter().find(|p| p.id == a.prop).expect("property");
            let mut cand: Vec<(&'static str, u64)> = vec![];
            let mut named = None;
            if let Some((s, i)) = &a.one { if let Some(s) = p.streams.iter().find(|x| x.name == s) { cand.push((s.name, *i)); } }
            else {
                let b = std::fs::read(&crash).unwrap_or_default();
                for (k, w) in b.chunks_exact(16).enumerate() {
                    let s = u64::from_le_bytes(w[..8].try_into().unwrap());
                    let i = u64::from_le_bytes(w[8..].try_into().unwrap());
                    if s > 0 && (s as usize) <= p.streams.len() { if k == 0 { named = Some((p.streams[s as usize - 1].name, i)); } else { cand.push((p.streams[s as usize - 1].name, i)); } }
                }
            }
            let mut hit = named;
            if hit.is_none() { println!("the workload died of signal {sig}; trying the {} cases that were running", cand.len()); }
            for (s, i) in cand.iter().filter(|_| a.one.is_none()) {
                if hit.is_some() { break; }
                let Ok(mut ch) = run(&["--one".into(), s.to_string(), i.to_string()]).spawn() else { continue };
                let t0 = Instant::now();
                let st = loop {
                    match ch.try_wait() { Ok(Some(st)) => break Some(st), Ok(None) if t0.elapsed().as_secs() < 40 => std::thread::sleep(std::time::Duration::from_millis(20)), _ => { let _ = ch.kill(); let _ = ch.wait(); break None; } }
                };
                if matches!(st.and_then(|s| s.signal()), Some(x) if x != 9 && x != 15 && x != 2) { hit = Some((*s, *i)); }
            }
            if a.one.is_some() { hit = cand.first().copied(); }
            if hit.is_none() && a.prop == "C25" { hit = cand.first().copied(); }
            match hit {
                Some((s, i)) => {
                    let v = Violation { stream: s, idx: i, sig: "abort".into(), msg: format!("the process died of signal {sig} (abort, stack overflow or allocation ceiling) inside the library") };
                    let mut o = Obs::default();
                    o.cases = i + 1;
                    evidence(&a, p, &o, 0.0, 1);
                    report(&a, &[v]);
                    1
                }
                None => { eprintln!("monitor: the crash could not be attributed to a case; inconclusive"); 2 }
            }
        }
    };
    let _ = std::fs::remove_file(&crash);
    exit(code)
}
