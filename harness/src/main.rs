//! Model checker for cfg-noodle: see /verif/DESIGN.md
//!
//!   noodle-mc check C01 [quick|thorough]   explore, write evidence, report
//!   noodle-mc replay FILE                  re-run one recorded execution with its log
//!   noodle-mc list C01 [quick|thorough]    names of the scenarios
//!   noodle-mc run C01 SCENARIO [BOUND]     explore one scenario (development)
mod arena;
mod dev;
mod exec;
mod hist;
mod mc;
mod nor;
mod p_content;
mod p_flash;
mod p_hist;
mod p_threads;
mod p_value;
mod p_worker;
mod sched;
mod vtime;

use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, exit};
use std::time::{Duration, Instant};

pub struct Scen {
    pub name: String,
    pub bound: u8,
    pub f: Box<dyn Fn() + Sync>,
}
pub fn scen(name: &str, bound: u8, f: impl Fn() + Sync + 'static) -> Scen {
    Scen { name: name.into(), bound, f: Box::new(f) }
}

fn scenarios(id: u32, thorough: bool) -> Vec<Scen> {
    let mut v = vec![];
    v.extend(p_hist::scenarios(id, thorough));
    v.extend(p_worker::scenarios(id, thorough));
    v.extend(p_value::scenarios(id, thorough));
    v.extend(p_threads::scenarios(id, thorough));
    v.extend(p_content::scenarios(id, thorough));
    v.extend(p_flash::scenarios(id, thorough));
    v
}

const THREADS: usize = 8;

fn root() -> PathBuf {
    // the binary is started by /verif/check.sh, which passes its own directory
    PathBuf::from(std::env::var_os("NOODLE_VERIF").unwrap_or_else(|| "/verif".into()))
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Replay file: line based, so that it can be read back without a JSON parser
fn write_replay(id: u32, tier: &str, scen: &str, bound: u8, choices: &[u16], msg: &str, log: &[String]) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("C{id:02}-{scen}.txt"));
    let mut f = std::fs::File::create(&path).expect("replay file");
    let ch: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    writeln!(f, "property=C{id:02}\ntier={tier}\nscenario={scen}\nbound={bound}\nchoices={}", ch.join(",")).unwrap();
    writeln!(f, "message={}", msg.replace('\n', " ")).unwrap();
    writeln!(f, "# re-run with: /verif/check.sh replay {}", path.display()).unwrap();
    for l in log {
        writeln!(f, "#  {l}").unwrap();
    }
    path
}

struct Running {
    id: u32,
    tier: String,
    scen: String,
}
static RUNNING: std::sync::Mutex<Option<Running>> = std::sync::Mutex::new(None);

/// An execution has not ended for two minutes: the code under test loops without ever reaching a
/// scheduling point or storage operation
pub fn on_hang(bound: u8, choices: Vec<u16>) -> ! {
    if let Ok(Some(r)) = RUNNING.try_lock().as_deref().map(|r| r.as_ref()) {
        let p = write_replay(r.id, &r.tier, &r.scen, bound, &choices, "execution does not end", &[]);
        println!("VIOLATION property=C{:02} replay={}", r.id, p.display());
        println!("  execution does not end ({})", r.scen);
        exit(1)
    }
    exit(3)
}

fn tier_of(s: Option<&String>) -> String {
    let t = s.cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_default();
    if t == "thorough" { t } else { "quick".into() }
}

fn worker(id: u32, tier: &str, cur: &Path) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let total = Duration::from_secs(if thorough { 780 } else { 300 });
    let scens = scenarios(id, thorough);
    if scens.is_empty() {
        eprintln!("no scenarios for C{id:02}");
        return 2;
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut reps: Vec<(String, mc::Report)> = vec![];
    let mut code = 0;
    let n = scens.len();
    for (i, s) in scens.iter().enumerate() {
        *RUNNING.lock().unwrap() = Some(Running { id, tier: tier.into(), scen: s.name.clone() });
        std::fs::write(cur.with_extension("scen"), format!("{} {}", s.bound, s.name)).unwrap();
        let left = total.saturating_sub(t0.elapsed());
        let o = mc::Opts {
            threads: THREADS,
            time_cap: (left / (n - i) as u32).max(Duration::from_secs(5)),
            cur: Some(cur.to_path_buf()),
        };
        let r = mc::explore(&*s.f, s.bound, &o);
        println!(
            "C{id:02} {}: {} executions, {} transitions, {} states, {} outcomes, {} non-trivial, {} out of scope, <= {} choice points, bound {}{} ({:.1} s)",
            s.name, r.executions, r.transitions, r.states, r.outcomes, r.nontrivial, r.pruned, r.max_points, s.bound,
            if r.capped { ", CAPPED by time" } else { "" }, r.wall
        );
        if let Some(d) = &r.diverged {
            eprintln!("harness error in {}: {d}", s.name);
            return 2;
        }
        let stop = if let Some(f) = &r.found {
            let p = write_replay(id, tier, &s.name, f.bound, &f.choices, &f.msg, &f.log);
            println!("VIOLATION property=C{id:02} replay={}", p.display());
            println!("  {}", f.msg);
            code = 1;
            true
        } else {
            false
        };
        reps.push((s.name.clone(), r));
        if stop {
            break;
        }
    }
    evidence(id, tier, seed, &reps, n, t0.elapsed().as_secs_f64(), code);
    code
}

fn evidence(id: u32, tier: &str, seed: u64, reps: &[(String, mc::Report)], planned: usize, wall: f64, code: i32) {
    let sum = |f: &dyn Fn(&mc::Report) -> u64| reps.iter().map(|r| f(&r.1)).sum::<u64>();
    let scen: Vec<String> = reps
        .iter()
        .map(|(n, r)| {
            format!(
                "{{\"name\":{},\"executions\":{},\"transitions\":{},\"states\":{},\"distinct_outcomes\":{},\"nontrivial\":{},\"out_of_scope\":{},\"max_choice_points\":{},\"deviation_bound\":{},\"capped\":{},\"wall_s\":{:.2}}}",
                jstr(n), r.executions, r.transitions, r.states, r.outcomes, r.nontrivial, r.pruned, r.max_points, r.bound, r.capped, r.wall
            )
        })
        .collect();
    let samples: Vec<String> =
        reps.iter().flat_map(|(n, r)| r.samples.iter().map(move |s| jstr(&format!("{n}: {s}")))).collect();
    let capped = reps.iter().any(|r| r.1.capped) || reps.len() < planned;
    let rule = "stateless exploration: every choice sequence within the deviation bound is one execution of the real code; \
        non-trivial executions are those in which the scenario reached what the property is about (a fault, a power loss, a contended step)";
    let j = format!(
        "{{\"property\":\"C{id:02}\",\"tier\":\"{tier}\",\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\
        \"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_nontrivial\":{},\
        \"distinct_outcomes\":{},\"rule\":{},\"exhaustive\":{},\"scenarios\":[{}],\"samples\":[{}]}},\
        \"assumptions\":[\"bounds as listed per scenario\",\"the explored executions run the real code of /repo; the reference model runs in lockstep and every one of its steps is compared\",\"sequentially consistent memory\"],\
        \"wall_s\":{wall:.2},\"violations\":{}}}\n",
        sum(&|r| r.states),
        sum(&|r| r.transitions),
        sum(&|r| r.executions - r.pruned),
        sum(&|r| r.nontrivial),
        sum(&|r| r.outcomes),
        jstr(rule),
        !capped && code == 0,
        scen.join(","),
        samples.join(","),
        (code == 1) as u8,
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("C{id:02}.json")), j).expect("evidence file");
}

fn parse_id(s: &str) -> u32 {
    s.trim_start_matches('C').parse().expect("property id")
}

/// Runs the worker as a child, so that a crash of the code under test (memory corruption, stack
/// overflow, abort) is attributed to the execution that caused it instead of ending the check
fn check(id: u32, tier: &str) -> i32 {
    let tmp = root().join("harness/target/cur");
    let _ = std::fs::create_dir_all(&tmp);
    let cur = tmp.join(format!("C{id:02}-{}", std::process::id()));
    let me = std::env::current_exe().expect("exe");
    let st = Command::new(&me)
        .args(["worker", &format!("C{id:02}"), tier])
        .arg(&cur)
        .status()
        .expect("cannot start worker");
    let code = match st.code() {
        Some(c) => c,
        None => {
            println!("worker died: {st}");
            attribute(id, tier, &cur, &me)
        }
    };
    for t in 0..THREADS {
        let _ = std::fs::remove_file(cur.with_extension(format!("{t}")));
    }
    let _ = std::fs::remove_file(cur.with_extension("scen"));
    code
}
fn attribute(id: u32, tier: &str, cur: &Path, me: &Path) -> i32 {
    let Ok(s) = std::fs::read_to_string(cur.with_extension("scen")) else { return 2 };
    let (bound, scen) = s.split_once(' ').unwrap();
    for t in 0..THREADS {
        let Ok(b) = std::fs::read(cur.with_extension(format!("{t}"))) else { continue };
        if b.len() < 4 {
            continue;
        }
        let n = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
        let choices: Vec<u16> = b[4..].chunks(2).take(n).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
        let p = write_replay(id, tier, scen, bound.parse().unwrap(), &choices, "the process crashes", &[]);
        let st = Command::new(me).arg("replay").arg(&p).stdout(std::process::Stdio::null()).status().expect("replay");
        if st.code().is_none() {
            println!("VIOLATION property=C{id:02} replay={}", p.display());
            println!("  the process crashes ({st}) in {scen}");
            return 1;
        }
        if st.code() == Some(1) {
            println!("VIOLATION property=C{id:02} replay={}", p.display());
            println!("  memory corruption or violation in {scen}");
            return 1;
        }
        let _ = std::fs::remove_file(&p);
    }
    eprintln!("the crash does not reproduce");
    2
}

fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or_default().to_string();
    let id = parse_id(&get("property"));
    let name = get("scenario");
    let choices: Vec<u16> = get("choices").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let sc = scenarios(id, get("tier") == "thorough");
    let Some(sc) = sc.iter().find(|s| s.name == name) else {
        eprintln!("no scenario {name}");
        return 2;
    };
    let (m, log, d) = mc::replay(&*sc.f, get("bound").parse().unwrap(), &choices);
    for l in log {
        println!("{l}");
    }
    match (m, d) {
        (_, Some(d)) => {
            eprintln!("{d}");
            2
        }
        (Some(m), _) => {
            println!("VIOLATION property=C{id:02} replay={path}\n  {m}");
            1
        }
        _ => {
            println!("no violation");
            0
        }
    }
}

fn main() {
    mc::install_panic_hook();
    cfg_noodle::mc_hooks::set_point_hook(sched::point);
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "check" => check(parse_id(&a[2]), &tier_of(a.get(3))),
        "worker" => worker(parse_id(&a[2]), &a[3], Path::new(&a[4])),
        "replay" => replay(&a[2]),
        "list" => {
            for s in scenarios(parse_id(&a[2]), tier_of(a.get(3)) == "thorough") {
                println!("{} bound {}", s.name, s.bound);
            }
            0
        }
        "run" => {
            for s in scenarios(parse_id(&a[2]), tier_of(None) == "thorough") {
                if a.get(3).is_some_and(|x| *x != s.name && x != "all") {
                    continue;
                }
                let b = a.get(4).map(|x| x.parse().unwrap()).unwrap_or(s.bound);
                let cap = std::env::var("CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
                let o = mc::Opts { threads: THREADS, time_cap: Duration::from_secs(cap), cur: None };
                let r = mc::explore(&*s.f, b, &o);
                println!(
                    "{} {} bound {b}: execs {} trans {} states {} outcomes {} nontriv {} pruned {} maxpts {} capped {} {:.1}s",
                    a[2], s.name, r.executions, r.transitions, r.states, r.outcomes, r.nontrivial, r.pruned, r.max_points, r.capped, r.wall
                );
                if let Some(d) = r.diverged {
                    println!("DIVERGED {d}");
                }
                if let Some(f) = r.found {
                    println!("VIOLATION {} {:?}", f.msg, f.choices);
                    for l in f.log {
                        println!("    {l}");
                    }
                }
            }
            0
        }
        _ => {
            eprintln!("usage: noodle-mc check|replay|list|run ...");
            2
        }
    };
    exit(code)
}
