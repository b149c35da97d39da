//! Runs one property's enumeration: budget, watchdog, known findings, evidence, exit status.
use crate::common::*;
use std::time::Duration;

pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub f: fn(&Run),
}
pub fn main(specs: &[Spec]) {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(spec) = specs.iter().find(|s| s.id == id) else {
        eprintln!("usage: <property>");
        std::process::exit(2);
    };
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    install_panic_hook();
    let r = Run::new(thorough);
    // a call that never returns is a violation, not a hang of the check
    {
        let sh = r.sh.clone();
        let (id, root) = (id.clone(), root.clone());
        let limit = if thorough { 840 } else { 240 };
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(1));
            if sh.t0.elapsed().as_secs() > limit {
                let p = write_replay(&root, &id, &["{\"what\":\"a call did not return\"}".to_string()]);
                println!("VIOLATION property={id} replay={p}");
                std::process::exit(1);
            }
        });
    }
    (spec.f)(&r);
    let i = r.sh.inner.lock().unwrap();
    let known = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    let mut violations = i.violations.clone();
    for (k, d) in &i.known {
        if known.lines().any(|l| l.starts_with(&format!("known: property={id} key={k} "))) {
            println!("KNOWN-FINDING: property={id} {d}");
        } else {
            violations.push(format!("{{\"what\":{},\"case\":{}}}", jesc(k), jesc(d)));
        }
    }
    let evals = r.sh.evals.load(std::sync::atomic::Ordering::SeqCst);
    let trans = r.sh.transitions.load(std::sync::atomic::Ordering::SeqCst);
    let capped = r.sh.capped.load(std::sync::atomic::Ordering::SeqCst);
    let wall = r.sh.t0.elapsed().as_secs_f64();
    let mut cov = if spec.level == "model_checking" {
        format!("\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{evals}", i.distinct.len(), trans)
    } else {
        format!("\"evaluations\":{evals},\"distinct_nontrivial\":{}", i.distinct.len())
    };
    cov += &format!(
        ",\"rule\":{},\"exhaustive\":{},\"samples\":[{}],\"worst_accepted_deviation\":{:e},\"notes\":[{}]",
        jesc(spec.rule),
        !capped && violations.is_empty(),
        i.samples.join(","),
        i.maxdev,
        i.notes.iter().map(|s| jesc(s)).collect::<Vec<_>>().join(",")
    );
    let ev = format!(
        "{{\"property\":\"{id}\",\"tier\":\"{}\",\"seed\":{seed},\"level\":\"{}\",\"coverage\":{{{cov}}},\"assumptions\":[{}],\"wall_s\":{wall:.2},\"violations\":{}}}\n",
        if thorough { "thorough" } else { "quick" },
        spec.level,
        spec.assumptions.iter().map(|s| jesc(s)).collect::<Vec<_>>().join(","),
        violations.len()
    );
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{id}.json"), ev).unwrap();
    println!("{id}: {evals} evaluations, {} distinct, capped={capped}, worst accepted deviation {:e}, {wall:.1} s", i.distinct.len(), i.maxdev);
    if !violations.is_empty() {
        let p = write_replay(&root, &id, &violations);
        for v in violations.iter().take(6) {
            println!("  {v}");
        }
        println!("VIOLATION property={id} replay={p}");
        std::process::exit(1);
    }
}
pub fn write_replay(root: &str, id: &str, v: &[String]) -> String {
    let d = format!("{root}/evidence/replay");
    let _ = std::fs::create_dir_all(&d);
    let p = format!("{d}/{id}.json");
    let _ = std::fs::write(&p, format!("{{\"property\":\"{id}\",\"replay\":\"the enumeration is deterministic: run the check of {id} again\",\"cases\":[{}]}}\n", v.join(",\n")));
    p
}
