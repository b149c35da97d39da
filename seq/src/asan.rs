//! C28: the enumerations of the other properties, and every width, height and layout for every metric,
//! with all memory accesses monitored (AddressSanitizer: allocations are byte exact).
use crate::common::*;
use crate::{frames, video, y4m};
use std::io::Write;
use std::process::{Command, Stdio};

#[cfg(verif_asan)]
mod cb {
    extern "C" {
        fn __sanitizer_set_death_callback(f: extern "C" fn());
    }
    extern "C" fn dying() {
        super::CUR.with(|c| eprintln!("CASE {}", c.borrow()));
    }
    pub fn install() {
        unsafe { __sanitizer_set_death_callback(dying) }
    }
}
#[cfg(not(verif_asan))]
mod cb {
    pub fn install() {}
}
thread_local!(static CUR: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

/// every width and height, byte exact planes
fn shapes(r: &Run) {
    let (mw, mh) = if r.thorough { (140, 40) } else { (72, 12) };
    let mut t = vec![];
    for w in 1..=mw {
        for h in (1..=mh).chain([16, 17, 33]) {
            t.push((w, h));
        }
    }
    t.extend([(176, 176), (177, 179), (257, 5), (5, 257)]);
    r.par(&t, Some(1), |c, &(w, h)| {
        for cs in ALL_CS {
            for depth in [8, 10, 12] {
                let a = Pat::Noise(1).pic(w, h, cs, depth);
                let b = Pat::NoiseInv(1).pic(w, h, cs, depth);
                for (li, l) in [Layout::Tight, Layout::New, Layout::Pad(5, 2), Layout::Origin(3, 5, 2, 1)].into_iter().enumerate() {
                    for m in FRAME_METRICS {
                        CUR.with(|s| *s.borrow_mut() = format!("{m:?} {w}x{h} {} {depth}bit {l:?}", cs_name(cs)));
                        let o = pic_metric_lay(m, &a, &b, [l; 3], &|i| i as u16 & 255, &|_| 0);
                        c.count(h64(&[28, m as u64, w as u64, h as u64, cs as u64, depth as u64, li as u64]));
                        c.sample(|| format!("{{\"case\":{},\"outcome\":{}}}", CUR.with(|s| jesc(&s.borrow())), jesc(&format!("{o:?}").chars().take(80).collect::<String>())));
                    }
                }
            }
        }
    });
}
/// every pair of small sizes, plane by plane: the frames differ in geometry, or one frame's planes do not fit together
fn pairs(r: &Run) {
    let n = if r.thorough { 12 } else { 8 };
    let mut t = vec![];
    for a in 1..=n * n {
        for b in 1..=n * n {
            t.push(((1 + (a - 1) % n, 1 + (a - 1) / n), (1 + (b - 1) % n, 1 + (b - 1) / n)));
        }
    }
    r.par(&t, Some(1), |c, &(s1, s2)| {
        for cs in ALL_CS {
            for depth in [8, 10] {
                let (a, b) = (Pat::Noise(1).pic(s1.0, s1.1, cs, depth), Pat::Noise(2).pic(s2.0, s2.1, cs, depth));
                for m in FRAME_METRICS {
                    for k in 0..4 {
                        // one plane, or all, of the other size
                        let mut x = a.clone();
                        for p in 0..3 {
                            if k == 3 || k == p {
                                x.p[p] = b.p[p].clone();
                            }
                        }
                        // or both frames alike
                        let mut y = x.clone();
                        for p in &mut y.p {
                            p.d.iter_mut().for_each(|v| *v ^= 1);
                        }
                        for (i, (p, q)) in [(&a, &x), (&x, &a), (&x, &y)].into_iter().enumerate() {
                            CUR.with(|s| *s.borrow_mut() = format!("{m:?} {s1:?} against {s2:?} in plane {k} {} {depth}bit, pair {i}", cs_name(cs)));
                            pic_metric(m, p, q);
                            c.count(h64(&[29, m as u64, s1.0 as u64, s1.1 as u64, s2.0 as u64, s2.1 as u64, cs as u64, depth as u64, k as u64, i as u64]));
                        }
                    }
                }
            }
        }
    });
}
pub fn child() {
    install_panic_hook();
    cb::install();
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let parts: [(&str, fn(&Run)); 13] = [
        ("shapes", shapes),
        ("pairs", pairs),
        ("C07", frames::c07),
        ("C07 clips", video::c07),
        ("C08", frames::c08),
        ("C10", video::c10),
        ("C11", frames::c11),
        ("C13", frames::c13),
        ("C15", frames::c15),
        ("C20", y4m::c20),
        ("C21", y4m::c21),
        ("C22", y4m::c22),
        ("C23", y4m::c23),
    ];
    let all = Run::new(thorough);
    for (name, f) in parts {
        let r = Run::new(thorough && !matches!(name, "C08" | "C10" | "C11" | "C13" | "C22" | "C23"));
        eprintln!("PART {name}");
        CUR.with(|s| *s.borrow_mut() = name.to_string());
        f(&r);
        let i = r.sh.inner.lock().unwrap();
        use std::sync::atomic::Ordering::SeqCst;
        println!("PART {} {} {} {}", r.sh.evals.load(SeqCst), i.distinct.len(), r.sh.capped.load(SeqCst) as u8, name);
        for s in &i.samples {
            println!("SAMPLE {s}");
        }
        let _ = std::io::stdout().flush();
        if std::time::Instant::now() > all.sh.deadline {
            println!("PART 0 0 1 remaining");
            break;
        }
    }
    println!("END");
    let _ = std::io::stdout().flush();
    // skip leak checks and destructors
    unsafe { libc::_exit(0) };
}
pub fn c28(r: &Run) {
    let exe = std::env::var("VERIF_SEQ_ASAN").unwrap_or_else(|_| std::env::current_exe().unwrap().display().to_string());
    let o = Command::new(exe)
        .arg("asan-child")
        .env("ASAN_OPTIONS", "exitcode=77:halt_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:symbolize=0")
        .stdin(Stdio::null())
        .output()
        .expect("start the monitored enumeration");
    let (out, err) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    let parse = |i: &mut Inner, ended: &mut bool| {
        for l in out.lines() {
            if let Some(s) = l.strip_prefix("SAMPLE ") {
                if i.samples.len() < 12 {
                    i.samples.push(s.into());
                }
            } else if let Some(s) = l.strip_prefix("PART ") {
                let f: Vec<&str> = s.splitn(4, ' ').collect();
                let n = |k: usize| f.get(k).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
                use std::sync::atomic::Ordering::SeqCst;
                r.sh.evals.fetch_add(n(0), SeqCst);
                for k in 0..n(1) {
                    i.distinct.insert(h64(&[i.notes.len() as u64, k as u64]));
                }
                if n(2) == 1 {
                    r.sh.capped.store(true, SeqCst);
                }
                i.notes.push(format!("{}: {} evaluations, {} distinct", f.get(3).unwrap_or(&""), n(0), n(1)));
            } else if l == "END" {
                *ended = true;
            }
        }
    };
    let mut ended = false;
    let mut i = r.sh.inner.lock().unwrap();
    parse(&mut i, &mut ended);
    if !ended || !o.status.success() {
        let pick: Vec<&str> = err.lines().filter(|l| l.contains("ERROR: AddressSanitizer") || l.starts_with("CASE") || l.starts_with("READ of") || l.starts_with("WRITE of") || l.contains("unsafe precondition") || l.contains("located ")).take(8).collect();
        let part = err.lines().filter(|l| l.starts_with("PART")).last().unwrap_or("");
        i.violations.push(format!("{{\"what\":{},\"case\":{}}}", jesc(&format!("invalid memory access or abnormal end ({})", o.status)), jesc(&format!("{part}: {}", pick.join("; ")))));
    }
}
