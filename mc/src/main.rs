mod engine;
mod json;
mod props;
mod refs;
mod util;

use engine::*;
use json::{Json, obj};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, exit};
use std::time::{Duration, Instant};

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0)
}

fn tier_of(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => {
            eprintln!("unknown tier {s}");
            exit(2)
        }
    }
}

fn profile() -> &'static str {
    if cfg!(feature = "sched") {
        "sched"
    } else if cfg!(debug_assertions) {
        "checked"
    } else {
        "wrapping"
    }
}

fn evidence_path(id: &str) -> PathBuf {
    if let Some(p) = std::env::var_os("MC_EVIDENCE") {
        return p.into();
    }
    verif_dir().join("evidence").join(format!("{id}.json"))
}

fn write_replay(id: &str, tier: &str, v: &Violation, profile: &str) -> PathBuf {
    let dir = verif_dir().join("out").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-{}-{}.json", v.scenario, profile));
    let j = obj(vec![
        ("property", Json::s(id)),
        ("tier", Json::s(tier)),
        ("profile", Json::s(profile)),
        ("scenario", Json::s(&v.scenario)),
        ("choices", Json::A(v.choices.iter().map(|&c| Json::I(c as i64)).collect())),
        ("message", Json::s(&v.message)),
        ("reproduced_alone", Json::B(v.reproduced)),
        ("how", Json::s(&format!("/verif/check replay {}", p.display()))),
    ]);
    let _ = std::fs::write(&p, j.text() + "\n");
    p
}

struct Run {
    id: String,
    tier: String,
    t0: Instant,
    results: Vec<(String, String, u32, Stats)>,
}

impl Run {
    fn evidence(&self, violations: i64, note: Option<&str>) {
        let (mut states, mut trans, mut traces, mut outs) = (0u64, 0u64, 0u64, 0u64);
        let mut samples = Vec::new();
        let mut scen = Vec::new();
        let mut all = !self.results.is_empty();
        for (name, bounds, devs, s) in &self.results {
            states += s.states;
            trans += s.transitions;
            traces += s.traces;
            outs += s.outcomes;
            all &= s.complete;
            for x in s.samples.iter().take(2) {
                samples.push(Json::s(&format!("{name}: {x}")));
            }
            scen.push(obj(vec![
                ("scenario", Json::s(name)),
                ("bounds", Json::s(bounds)),
                ("deviation_bound", Json::I(*devs as i64)),
                ("states", Json::I(s.states as i64)),
                ("transitions", Json::I(s.transitions as i64)),
                ("executions", Json::I(s.traces as i64)),
                ("distinct_outcomes", Json::I(s.outcomes as i64)),
                ("max_depth", Json::I(s.max_depth as i64)),
                ("exhausted_within_bounds", Json::B(s.complete)),
                ("wall_s", Json::F(s.wall_s)),
            ]));
        }
        if samples.is_empty() {
            samples.push(Json::s(note.unwrap_or("no sample recorded")));
        }
        let scen_again = Json::A(scen.clone());
        let mut cov = vec![
            ("states", Json::I(states as i64)),
            ("transitions", Json::I(trans as i64)),
            ("traces_validated_against_impl", Json::I(traces as i64)),
            ("distinct_outcomes", Json::I(outs as i64)),
            ("exhaustive", Json::B(all)),
            ("samples", Json::A(samples)),
            ("scenarios", Json::A(scen)),
            (
                "counting",
                Json::s("states: nodes of the choice trees (distinct choice prefixes) plus deduplicated states of the explicit-state searches; transitions: executed calls of the real code whose result was compared with the reference; traces: complete executions run on the real code; distinct_outcomes: different observed results"),
            ),
        ];
        if let Some(second) = std::env::var_os("MC_SECOND").and_then(|p| std::fs::read_to_string(p).ok()) {
            // what the same exploration covered in the build without debug checks
            cov.push(("build_without_debug_checks", Json::Raw(second.trim().to_string())));
        }
        if let Some(third) = std::env::var_os("MC_THIRD").and_then(|p| std::fs::read_to_string(p).ok()) {
            cov.push(("build_with_scheduling_points", Json::Raw(third.trim().to_string())));
        }
        if let Ok(p) = std::env::var("MC_TOTALS") {
            let mut t = vec![
                ("states", Json::I(states as i64)),
                ("transitions", Json::I(trans as i64)),
                ("executions", Json::I(traces as i64)),
                ("exhausted_within_bounds", Json::B(all)),
                ("wall_s", Json::F(self.t0.elapsed().as_secs_f64())),
            ];
            if profile() == "sched" {
                t.push(("scenarios", scen_again));
            }
            let _ = std::fs::write(p, obj(t).text() + "\n");
        }
        if let Some(n) = note {
            cov.push(("note", Json::s(n)));
        }
        let e = obj(vec![
            ("property", Json::s(&self.id)),
            ("tier", Json::s(&self.tier)),
            ("seed", Json::I(seed())),
            ("level", Json::s("model_checking")),
            ("coverage", obj(cov)),
            (
                "assumptions",
                Json::A(vec![
                    Json::s("the reference models in /verif/mc/src/refs are right (they pass the published test vectors at the start of every run and were compared with OpenSSL/Python)"),
                    Json::s("nothing is claimed beyond the bounds listed per scenario"),
                    Json::s(&format!("code under test built with profile '{}' (see mc/Cargo.toml)", profile())),
                ]),
            ),
            ("wall_s", Json::F(self.t0.elapsed().as_secs_f64())),
            ("violations", Json::I(violations)),
        ]);
        let p = evidence_path(&self.id);
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        std::fs::write(&p, e.text() + "\n").expect("write evidence");
    }
}

fn say_violation(id: &str, tier: &str, v: &Violation, profile: &str) {
    let p = write_replay(id, tier, v, profile);
    println!("scenario {}: {}", v.scenario, v.message);
    if !v.reproduced {
        println!("(the same choices alone do not fail again: the failure depends on earlier calls)");
    }
    println!("VIOLATION property={id} replay={}", p.display());
    let _ = std::io::stdout().flush();
}

fn explore_cmd(id: &str, tier_s: &str, journal: &str) -> ! {
    let tier = tier_of(tier_s);
    engine::no_core_dumps();
    engine::limit_memory(22 << 30);
    engine::install_panic_hook();
    if let Err(e) = refs::selftest() {
        eprintln!("reference model self-test failed: {e}");
        exit(2);
    }
    let scs = props::scenarios(id, tier);
    if scs.is_empty() {
        eprintln!("unknown property {id}");
        exit(2);
    }
    let env: &'static Env = Box::leak(Box::new(Env::new(
        Journal::map(journal),
        // the builds are explored one after another within the 900 s a quick check is given
        Some(Duration::from_secs(tier.pick(if profile() == "sched" { 300 } else { 230 }, 8 * 3600))),
    )));
    // watchdog: an execution that does not end
    {
        let limits: Vec<(String, u64)> = scs.iter().map(|s| (s.name.clone(), s.limit_s)).collect();
        let (id, tier_s) = (id.to_string(), tier_s.to_string());
        let t0 = Instant::now();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for w in 0..SLOTS {
                if let Some((start, sc, choices)) = env.journal.read(w) {
                    let Some((name, lim)) = limits.get(sc) else { continue };
                    if env.now_ms().saturating_sub(start) > lim * 1000 {
                        let v = Violation {
                            scenario: name.clone(),
                            choices,
                            message: format!("did not return within {lim} s"),
                            reproduced: true,
                        };
                        let run = Run { id: id.clone(), tier: tier_s.clone(), t0, results: vec![] };
                        run.evidence(1, Some(&format!("stopped: {} {:?} did not return within {lim} s", v.scenario, v.choices)));
                        say_violation(&id, &tier_s, &v, profile());
                        exit(1);
                    }
                }
            }
        });
    }
    let mut run = Run { id: id.to_string(), tier: tier_s.to_string(), t0: Instant::now(), results: vec![] };
    let only = std::env::var("MC_ONLY").ok();
    for (i, sc) in scs.iter().enumerate() {
        if sc.sched != (profile() == "sched") || (sc.once && profile() == "wrapping") {
            continue;
        }
        if only.as_ref().is_some_and(|o| !sc.name.contains(o.as_str())) {
            continue;
        }
        let st = engine::explore(sc, i, env);
        if let Some(e) = env.engine_error.lock().unwrap().clone() {
            eprintln!("engine error: {e}");
            exit(2);
        }
        println!(
            "{id} {:<28} states={} transitions={} executions={} outcomes={} depth={} {} {:.1}s",
            sc.name,
            st.states,
            st.transitions,
            st.traces,
            st.outcomes,
            st.max_depth,
            if st.complete { "exhausted" } else { "stopped" },
            st.wall_s
        );
        let v = st.violation.clone();
        run.results.push((sc.name.clone(), sc.bounds.clone(), sc.devs, st));
        if let Some(v) = v {
            run.evidence(1, None);
            say_violation(id, tier_s, &v, profile());
            exit(1);
        }
    }
    run.evidence(0, None);
    exit(0)
}

/// Explores in a child process, so that an execution that kills its process is a finding.
fn supervised(exe: &std::path::Path, profile: &str, id: &str, tier: &str, envs: &[(&str, PathBuf)]) -> i32 {
    let dir = std::env::temp_dir().join(format!("mc-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let journal = dir.join("journal");
    let _ = std::fs::remove_file(&journal);
    let mut cmd = Command::new(exe);
    cmd.args(["explore", id, tier, journal.to_str().unwrap()]);
    for (k, v) in envs {
        cmd.env(k, v);
    }
    let status = cmd.status().expect("spawn");
    let code = match (status.code(), status.signal()) {
        (Some(c), _) if c == 0 || c == 1 => c,
        (Some(c), _) => {
            eprintln!("exploration ended with code {c}");
            2
        }
        (None, sig) => {
            eprintln!("exploration was killed by signal {sig:?}; looking for the execution that did it");
            let j = Journal::map(journal.to_str().unwrap());
            let scs = props::scenarios(id, tier_of(tier));
            let mut res = 2;
            for w in 0..SLOTS {
                let Some((_, sc, choices)) = j.read(w) else { continue };
                let Some(s) = scs.get(sc) else { continue };
                let list: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
                let again = Command::new(exe)
                    .args(["one", id, tier, &s.name, &list.join(",")])
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status()
                    .expect("spawn");
                if let Some(sig) = again.signal() {
                    let v = Violation {
                        scenario: s.name.clone(),
                        choices,
                        message: format!("the process was killed by signal {sig} (stack overflow, abort or memory exhaustion), and again when run alone"),
                        reproduced: true,
                    };
                    let run = Run { id: id.to_string(), tier: tier.to_string(), t0: Instant::now(), results: vec![] };
                    run.evidence(1, Some(&format!("{} {:?}: {}", v.scenario, v.choices, v.message)));
                    say_violation(id, tier, &v, profile);
                    res = 1;
                    break;
                }
            }
            res
        }
    };
    let _ = std::fs::remove_file(&journal);
    let _ = std::fs::remove_dir(&dir);
    code
}

fn check_cmd(id: &str, tier: &str) -> ! {
    let me = std::env::current_exe().expect("exe");
    let mut envs: Vec<(&str, PathBuf)> = vec![];
    let out = verif_dir().join("out");
    let _ = std::fs::create_dir_all(&out);
    let builds = [
        ("MC_WRAPPING_EXE", "MC_SECOND", "wrapping", "build without debug checks:"),
        ("MC_SCHED_EXE", "MC_THIRD", "sched", "build with scheduling points:"),
    ];
    for (var, report, profile, title) in builds {
        let Some(exe) = std::env::var_os(var) else { continue };
        if profile == "sched" && !props::scenarios(id, tier_of(tier)).iter().any(|s| s.sched) {
            continue;
        }
        let totals = out.join(format!("{id}-{profile}-totals.json"));
        let ev = out.join(format!("{id}-{profile}-evidence.json"));
        println!("{title}");
        let _ = std::io::stdout().flush();
        let c = supervised(std::path::Path::new(&exe), profile, id, tier, &[("MC_TOTALS", totals.clone()), ("MC_EVIDENCE", ev.clone())]);
        if c != 0 {
            if c == 1 && ev.exists() {
                let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
                let _ = std::fs::copy(&ev, evidence_path(id));
            }
            exit(c);
        }
        envs.push((report, totals));
    }
    if !envs.is_empty() {
        println!("build with debug checks:");
        let _ = std::io::stdout().flush();
    }
    exit(supervised(&me, "checked", id, tier, &envs))
}

fn replay_one(id: &str, tier: &str, scenario: &str, choices: &[u32]) -> i32 {
    engine::no_core_dumps();
    engine::limit_memory(6 << 30);
    engine::install_panic_hook();
    let scs = props::scenarios(id, tier_of(tier));
    let Some((i, sc)) = scs.iter().enumerate().find(|(_, s)| s.name == scenario) else {
        eprintln!("no scenario {scenario} in {id}");
        return 2;
    };
    let env = Env::new(Journal::in_memory(), None);
    match engine::replay(sc, i, &env, choices) {
        Err(e) => {
            eprintln!("{e}");
            2
        }
        Ok(Ok(())) => {
            println!("holds");
            0
        }
        Ok(Err(m)) => {
            println!("violated: {m}");
            1
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    match s[1..] {
        ["check", id, tier] => check_cmd(id, tier),
        ["explore", id, tier, journal] => explore_cmd(id, tier, journal),
        ["one", id, tier, sc, choices] => {
            let c: Vec<u32> = choices.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            exit(replay_one(id, tier, sc, &c))
        }
        ["replay", file] => {
            let t = std::fs::read_to_string(file).expect("replay file");
            let j = json::parse_flat(&t);
            let c: Vec<u32> = j.nums("choices");
            println!("recorded: {}", j.str("message"));
            exit(replay_one(&j.str("property"), &j.str("tier"), &j.str("scenario"), &c))
        }
        ["list"] => {
            for id in props::IDS {
                for sc in props::scenarios(id, Tier::Quick) {
                    println!("{id} {} [{}] devs<={}", sc.name, sc.bounds, sc.devs);
                }
            }
        }
        ["selftest"] => match refs::selftest() {
            Ok(()) => println!("reference models pass their published vectors"),
            Err(e) => {
                eprintln!("{e}");
                exit(2)
            }
        },
        ["ref", ..] => refs::cli(&s[2..]),
        ["zygote"] => props::threads::zygote(),
        ["points"] => props::threads::print_points(),
        _ => {
            eprintln!("usage: mc check ID quick|thorough | replay FILE | list | selftest");
            exit(2)
        }
    }
}
