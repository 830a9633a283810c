mod engine;
mod model;
mod props;
use engine::*;
use serde_json::{json, Value};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }

fn known_findings(id: &str) -> Vec<String> {
    let p = format!("{}/known_findings.txt", verif_dir());
    std::fs::read_to_string(p).unwrap_or_default().lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={id} key=")).map(|s| s.trim().to_string()))
        .filter(|s| !s.is_empty()).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", id, tier] => supervise(id, tier),
        ["engine", id, tier, slots, out] => engine_main(id, tier, slots, out),
        ["case", id, tier, fam, rest @ ..] => case_main(id, tier, fam, rest),
        ["replay", file] => replay_main(file),
        ["list"] => { for p in props::ids() { println!("{p}") } 0 }
        _ => { eprintln!("usage: mc check ID quick|thorough | mc replay FILE"); 2 }
    };
    std::process::exit(code);
}

fn families(id: &str, tier: &str) -> Vec<Box<dyn Family>> {
    props::families(id, tier == "thorough").unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(2) })
}

/// stands for the construction of the operands, before any family is explored
const BUILD: u64 = u64::MAX;
fn guarded(id: &str, tier: &str) -> R<Vec<Box<dyn Family>>> {
    guard(|| Ok(families(id, tier))).map_err(|m| format!("building the operands {m}"))
}
fn described(id: &str, tier: &str, fam: u64, case: &[u64]) -> (String, String) {
    if fam == BUILD { return ("construction of the operands".into(), "building the operands".into()) }
    match guarded(id, tier) { Ok(f) => (f[fam as usize].name(), f[fam as usize].describe(case)), Err(m) => ("construction of the operands".into(), m) }
}

// ------------------------------------------------------------------ engine process
fn engine_main(id: &str, tier: &str, slots: &str, out: &str) -> i32 {
    limit_memory(20 << 30);
    install_panic_hook();
    let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).min(MAX_SLOTS);
    let e = Engine::new(Slots::map(slots), threads, known_findings(id));
    let only = std::env::var("MC_ONLY").ok();
    e.slots.begin(0, BUILD, &[]);
    let fs = guarded(id, tier).unwrap_or_else(|m| { e.report(BUILD, &[], m); vec![] });
    e.slots.end(0);
    for (k, f) in fs.iter().enumerate() {
        if let Some(o) = &only { if !f.name().contains(o.as_str()) { continue; } }
        let t = Instant::now();
        f.explore(k as u64, &e);
        if std::env::var("MC_VERBOSE").is_ok() {
            let st = e.stats.lock().unwrap();
            if let Some(s) = st.last() { eprintln!("  {:<40} cases={} states={} transitions={} {:.1}s", s.name, s.cases, s.states, s.transitions, t.elapsed().as_secs_f64()); }
        }
        if !e.viols.lock().unwrap().is_empty() { break; }
    }
    let mut v = e.viols.lock().unwrap().clone();
    v.sort_by_key(|v| (v.case.len(), v.case.clone()));
    let stats = e.stats.lock().unwrap();
    let j = json!({
        "violations": v.iter().take(5).map(|v| json!({"family": v.family, "case": v.case, "msg": v.msg})).collect::<Vec<_>>(),
        "known": e.known_hits.lock().unwrap().iter().map(|(k,(n,m))| json!({"key":k,"count":n,"example":m})).collect::<Vec<_>>(),
        "families": stats.iter().map(|s| json!({"name":s.name,"bound":s.bound,"cases":s.cases,"states":s.states,"transitions":s.transitions,"samples":s.samples})).collect::<Vec<_>>(),
    });
    std::fs::write(out, serde_json::to_vec(&j).unwrap()).unwrap();
    0
}

/// one case from scratch. exit 0: holds, 1: violated (message on stdout)
fn case_main(id: &str, tier: &str, fam: &str, rest: &[&str]) -> i32 {
    limit_memory(6 << 30);
    install_panic_hook();
    let fs = match guarded(id, tier) { Ok(f) => f, Err(m) => { println!("{m}"); return 1 } };
    if fam.parse() == Ok(BUILD) { println!("holds: the operands are built"); return 0 }
    let case: Vec<u64> = rest.iter().map(|s| s.parse().unwrap()).collect();
    let f = &fs[fam.parse::<usize>().unwrap()];
    match f.replay(&case) {
        Ok(()) => { println!("holds: {}", f.describe(&case)); 0 }
        Err(m) => { println!("{m}"); 1 }
    }
}

// ------------------------------------------------------------------ supervisor
enum CaseEnd { Holds, Violated(String), Crashed(String), Hung }

fn run_case(exe: &str, id: &str, tier: &str, fam: u64, case: &[u64], secs: u64) -> CaseEnd {
    let mut c = Command::new(exe).args(["case", id, tier, &fam.to_string()]).args(case.iter().map(|c| c.to_string()))
        .stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            use std::io::Read;
            let mut s = String::new();
            c.stdout.take().unwrap().read_to_string(&mut s).ok();
            return match st.code() { Some(0) => CaseEnd::Holds, Some(1) => CaseEnd::Violated(s.trim().into()), _ => CaseEnd::Crashed(format!("process ended abnormally ({st})")) };
        }
        if t.elapsed() > Duration::from_secs(secs) { c.kill().ok(); c.wait().ok(); return CaseEnd::Hung; }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn supervise(id: &str, tier: &str) -> i32 {
    let dir = verif_dir();
    let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
    let mut exes = vec![("checked".to_string(), me.clone())];
    if let Ok(r) = std::env::var("MC_RELEASE_EXE") { if !r.is_empty() { exes.push(("release".into(), r)); } }
    let t0 = Instant::now();
    let mut runs = vec![];
    let mut known: Vec<Value> = vec![];
    let mut viol: Option<(String, u64, Vec<u64>, String)> = None;
    let mut again = true;
    let mut k = 0;
    while k < exes.len() {
        let (profile, exe) = &exes[k];
        k += 1;
        let tmp = std::env::temp_dir().join(format!("mc-{}-{}-{}", id, profile, std::process::id()));
        std::fs::create_dir_all(&tmp).unwrap();
        let (slots, out) = (tmp.join("slots").to_string_lossy().to_string(), tmp.join("out.json").to_string_lossy().to_string());
        // a case slow on a busy machine is given more time at the second exploration
        let r = run_engine(exe, id, tier, &slots, &out, if again { 150 } else { 350 });
        std::fs::remove_file(&slots).ok();
        let j = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok());
        std::fs::remove_file(&out).ok();
        std::fs::remove_dir(&tmp).ok();
        match r {
            EngineEnd::Done => {
                let Some(j) = j else { eprintln!("mc: engine left no result"); return 2 };
                if let Some(v) = j["violations"].as_array().and_then(|v| v.first()) {
                    let fam = v["family"].as_u64().unwrap();
                    let case: Vec<u64> = v["case"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                    // a violation counts only if its case, run alone from scratch, fails again (twice)
                    for _ in 0..2 {
                        match run_case(exe, id, tier, fam, &case, 120) {
                            CaseEnd::Violated(_) | CaseEnd::Crashed(_) | CaseEnd::Hung => {}
                            CaseEnd::Holds => { eprintln!("mc: violation did not replay: {}", v["msg"]); return 2 }
                        }
                    }
                    viol = Some((profile.clone(), fam, case, v["msg"].as_str().unwrap().to_string()));
                }
                for k in j["known"].as_array().unwrap() { known.push(k.clone()); }
                runs.push(json!({"profile": profile, "families": j["families"]}));
            }
            EngineEnd::Suspects(why, cands) => {
                for c in cands {
                    let (fam, case) = (c[0], &c[1..]);
                    match run_case(exe, id, tier, fam, case, 150) {
                        CaseEnd::Holds => {}
                        CaseEnd::Violated(m) => { viol = Some((profile.clone(), fam, case.to_vec(), m)); break; }
                        CaseEnd::Crashed(m) => {
                            // deterministic abnormal end on one case = the code under test aborts there
                            if let CaseEnd::Crashed(_) = run_case(exe, id, tier, fam, case, 150) {
                                viol = Some((profile.clone(), fam, case.to_vec(), format!("{}: {m}", described(id, tier, fam, case).1)));
                                break;
                            }
                        }
                        CaseEnd::Hung => { viol = Some((profile.clone(), fam, case.to_vec(), format!("{}: does not terminate", described(id, tier, fam, case).1))); break; }
                    }
                }
                if viol.is_none() {
                    eprintln!("mc: engine failed ({why}) and no case reproduces it{}", if again { ": once more" } else { "" });
                    if !again { return 2 }
                    // a busy machine: one more run
                    again = false;
                    k -= 1;
                    continue;
                }
                runs.push(json!({"profile": profile, "families": []}));
            }
        }
        if viol.is_some() { break; }
    }
    // evidence
    let sum = |f: &str| -> u64 { runs.iter().flat_map(|r| r["families"].as_array().unwrap().iter().map(|x| x[f].as_u64().unwrap_or(0)).collect::<Vec<_>>()).sum() };
    let samples: Vec<Value> = runs.iter().take(1).flat_map(|r| r["families"].as_array().unwrap().iter()
        .flat_map(|x| x["samples"].as_array().unwrap().iter().map(|s| json!(format!("{}: {}", x["name"].as_str().unwrap(), s.as_str().unwrap()))).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum("states"), "transitions": sum("transitions"), "traces_validated_against_impl": sum("cases"),
            "exhaustive": viol.is_none(),
            "samples": samples,
            "explanation": "states: distinct states of the reference model met as operand or result (summed over families); transitions: calls of the real implementation whose result was compared with the model; traces: complete cases (operation histories or operand tuples) executed on the real code. Every family enumerates its stated bound completely.",
            "runs": runs,
        },
        "assumptions": props::assumptions(id),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if viol.is_some() { 1 } else { 0 },
    });
    std::fs::create_dir_all(format!("{dir}/evidence")).ok();
    std::fs::write(format!("{dir}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    let mut keys: Vec<(String, u64, String)> = vec![];
    for k in &known {
        let key = k["key"].as_str().unwrap().to_string();
        if !keys.iter().any(|x| x.0 == key) { keys.push((key, k["count"].as_u64().unwrap(), k["example"].as_str().unwrap().into())); }
    }
    keys.sort();
    for (k, n, m) in keys { println!("KNOWN-FINDING: property={id} {k} ({n} cases, e.g. {m})"); }
    println!("{id} {tier}: cases={} states={} transitions={} {:.1}s", sum("cases"), sum("states"), sum("transitions"), t0.elapsed().as_secs_f64());
    if let Some((profile, fam, case, msg)) = viol {
        let (name, what) = described(id, tier, fam, &case);
        std::fs::create_dir_all(format!("{dir}/replays")).ok();
        let path = format!("{dir}/replays/{id}.json");
        let j = json!({"property": id, "tier": tier, "profile": profile, "family": fam, "family_name": name, "case": case, "what": what, "violation": msg,
            "how": format!("{dir}/check.sh replay {path}")});
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap() + "\n").expect("replay file");
        println!("  family: {name}");
        println!("  {}", msg);
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    0
}

enum EngineEnd { Done, Suspects(String, Vec<Vec<u64>>) }

fn run_engine(exe: &str, id: &str, tier: &str, slots: &str, out: &str, limit: u64) -> EngineEnd {
    let sl = Slots::map(slots);
    let mut c = Command::new(exe).args(["engine", id, tier, slots, out]).stdout(Stdio::null()).spawn().expect("spawn engine");
    let mut last: Vec<(u64, Instant)> = (0..MAX_SLOTS).map(|_| (0, Instant::now())).collect();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            if st.success() { return EngineEnd::Done; }
            let cands = (0..MAX_SLOTS).map(|s| sl.read(s)).filter(|(q, v)| q % 2 == 1 && !v.is_empty()).map(|x| x.1).collect();
            return EngineEnd::Suspects(format!("{st}"), cands);
        }
        let mut hung = vec![];
        for s in 0..MAX_SLOTS {
            let (q, v) = sl.read(s);
            if q != last[s].0 { last[s] = (q, Instant::now()); }
            else if q % 2 == 1 && last[s].1.elapsed() > Duration::from_secs(limit) { hung.push(v); }
        }
        if !hung.is_empty() { c.kill().ok(); c.wait().ok(); return EngineEnd::Suspects("a case does not terminate".into(), hung); }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn replay_main(file: &str) -> i32 {
    let j: Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("json");
    let (id, tier) = (j["property"].as_str().unwrap(), j["tier"].as_str().unwrap());
    let case: Vec<u64> = j["case"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
    let exe = if j["profile"] == "release" { std::env::var("MC_RELEASE_EXE").unwrap_or(me) } else { me };
    match run_case(&exe, id, tier, j["family"].as_u64().unwrap(), &case, 120) {
        CaseEnd::Holds => { println!("holds now: {}", j["what"]); 0 }
        CaseEnd::Violated(m) => { println!("violated: {m}"); 1 }
        CaseEnd::Crashed(m) => { println!("violated: {}: {m}", j["what"]); 1 }
        CaseEnd::Hung => { println!("violated: {}: does not terminate", j["what"]); 1 }
    }
}
