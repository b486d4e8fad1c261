mod acts;
mod c_amend;
mod c_e2e;
mod c_hostile;
mod c_ident;
mod c_issue;
mod c_line;
mod c_net;
mod c_pdf;
mod enc_tables;
mod c_ref;
#[cfg(feature = "sem")]
mod c_sem;
mod c_struct;
mod c_tree;
mod lines;
mod mon;
mod pdfgen;
mod rng;
// The repository's own interactive editor module, compiled from its source.
#[cfg(feature = "editor")]
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../work/scope/bin_src/mods.rs"));
#[cfg(not(feature = "editor"))]
mod fixup_editor {
    //! The program's editor module did not compile on its own: C20 gives no answer.
    pub fn run_fixup_editor(_: &hun_law::parser::mk_act_section::ActRawText, _: &str) -> anyhow::Result<()> {
        eprintln!("HARNESS ERROR: built without the editor");
        std::process::exit(2)
    }
}

use std::{collections::BTreeMap, time::Instant};

use mon::{Env, Mon};

/// A check: runs its workloads under its monitors.
type CheckFn = fn(&Env, &mut Mon);

struct Check {
    id: &'static str,
    level: &'static str,
    rule: &'static str,
    assumptions: &'static [&'static str],
    run: CheckFn,
}

fn checks() -> Vec<Check> {
    let mut v = vec![];
    v.extend(c_ident::checks());
    v.extend(c_ref::checks());
    v.extend(c_line::checks());
    v.extend(c_struct::checks());
    v.extend(c_amend::checks());
    v.extend(c_tree::checks());
    v.extend(c_issue::checks());
    v.extend(c_pdf::checks());
    v.extend(c_net::checks());
    v.extend(c_e2e::checks());
    v.extend(c_hostile::checks());
    #[cfg(feature = "sem")]
    v.extend(c_sem::checks());
    v
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF").unwrap_or_else(|_| "/verif".into()).into()
}

/// Known findings: lines "finding: property=<id> key=<violation key> <what>"
fn known_findings(id: &str) -> BTreeMap<String, String> {
    let mut r = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix(&format!("finding: property={id} key=")) {
                let (key, what) = rest.split_once(' ').unwrap_or((rest, ""));
                r.insert(key.to_string(), what.to_string());
            }
        }
    }
    r
}

fn boost(id: &str) -> u64 {
    match id {
        "C01" | "C02" | "C05" => 2,
        "C06" => 3,
        "C14" => 4,
        "C03" | "C16" | "C20" => 6,
        "C17" => 8,
        "C08" | "C09" | "C26" => 10,
        "C12" | "C13" | "C19" => 15,
        "C11" | "C15" => 20,
        "C10" | "C18" => 30,
        _ => 1,
    }
}

fn main() {
    // errors of the library would capture backtraces, one thread at a time
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    std::env::set_var("RUST_BACKTRACE", "0");
    let args: Vec<String> = std::env::args().collect();
    let argv0 = std::path::PathBuf::from(&args[0]);
    if argv0.file_name().map_or(false, |n| n.to_string_lossy().starts_with("ed_")) {
        c_line::fake_editor_main(&argv0, &args);
    }
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "c21-child" {
        mon::install_hook();
        c_net::child_main(&args);
    }
    mon::install_hook();
    if id == "c22-child" {
        c_hostile::child_main(&args);
    }
    let all = checks();
    if id == "list" {
        for c in &all {
            println!("{}", c.id);
        }
        return;
    }
    let Some(check) = all.iter().find(|c| c.id == id) else {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let only = match (args.get(2).map(|s| s.as_str()), args.get(3), args.get(4)) {
        (Some("--case"), Some(s), Some(c)) => Some((s.clone(), c.parse().expect("case number"))),
        _ => None,
    };
    let env = Env {
        id: id.clone(),
        seed,
        thorough: tier == "thorough",
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
        start: Instant::now(),
        only,
        scale: 1,
        boost: boost(&id),
        progress: None,
        skip: vec![],
    };
    let _ = std::fs::remove_file(verif_dir().join("replays").join(format!("{id}.txt")));
    let mut m = Mon::new();
    let mut m_err = false;
    // a big stack for the main thread's own workloads
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || (check.run)(&env, &mut m))
            .unwrap();
        if h.join().is_err() {
            eprintln!("HARNESS ERROR");
            m_err = true;
        }
    });
    let harness_errors = m.harness_errors + m_err as u64;

    let known = known_findings(&id);
    let (mut reported, mut known_seen) = (vec![], BTreeMap::new());
    for v in &m.violations {
        if let Some(what) = known.get(&v.key) {
            known_seen.entry(v.key.clone()).or_insert_with(|| what.clone());
        } else {
            reported.push(v.clone());
        }
    }
    for what in known_seen.values() {
        println!("KNOWN-FINDING: property={id} {what}");
    }
    let mut coverage = serde_json::Map::new();
    coverage.insert("evaluations".into(), m.evaluations.into());
    coverage.insert("distinct_nontrivial".into(), (m.distinct.len() as u64).into());
    coverage.insert("rule".into(), check.rule.into());
    coverage.insert("samples".into(), m.samples.clone().into());
    coverage.insert(
        "observed".into(),
        serde_json::Value::Object(m.counters.iter().map(|(k, v)| (k.clone(), (*v).into())).collect()),
    );
    let ev = serde_json::json!({
        "property": id,
        "tier": if env.thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": check.level,
        "coverage": coverage,
        "assumptions": check.assumptions,
        "wall_s": env.start.elapsed().as_secs_f64(),
        "violations": reported.len(),
    });
    if env.only.is_none() {
        let dir = verif_dir().join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    }
    eprintln!(
        "{id}: {} evaluations, {} distinct, {} violations, {:.1}s",
        m.evaluations,
        m.distinct.len(),
        reported.len(),
        env.start.elapsed().as_secs_f64()
    );
    if !reported.is_empty() {
        let dir = verif_dir().join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{id}.txt"));
        let mut text = String::new();
        for v in reported.iter().take(20) {
            text += &format!(
                "property {id} key {}\nreplay: VERIF_SEED={seed} VERIF_TIER={tier} ./check.sh {id} --case {} {}\n{}\n\n",
                v.key, v.suite, v.case, v.detail
            );
        }
        std::fs::write(&path, &text).unwrap();
        let mut keys: Vec<_> = reported.iter().map(|v| v.key.clone()).collect();
        keys.dedup();
        keys.truncate(8);
        let head: String = text.chars().take(3000).collect();
        eprintln!("{head}\nkeys: {keys:?}");
        println!("VIOLATION property={id} replay={}", path.display());
        std::process::exit(1);
    }
    if harness_errors > 0 {
        eprintln!("{harness_errors} harness errors: no answer");
        std::process::exit(2);
    }
}
