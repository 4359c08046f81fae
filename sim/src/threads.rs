//! C12: threads that compile and render at the same time.
use crate::driver::{hash_text, panic_text, Case, Outcome};
use crate::entropy::{self, Entropy};
use crate::proc::{in_fork, pack, unpack, End};
use crate::repro::{compile, observe, texts_of, Text};
use crate::sched::{self, Turn};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// A thread works off a list of these.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Task {
    text: usize,
    render: u32,
}

fn perform(t: Task, texts: &[Text]) -> String {
    match catch_unwind(AssertUnwindSafe(|| observe(&compile(&texts[t.text]), t.render))) {
        Ok(v) => v.join("\n"),
        Err(_) => format!("panic: {}", panic_text()),
    }
}

const BAD: [&str; 4] = ["process", "deadlock", "livelock", "hang"];

/// All tasks on their threads in a process of its own.
fn together(plans: &[Vec<Task>], texts: &[Text], turns: Vec<Turn>, focus: bool, verbose: bool) -> Result<(Vec<Vec<String>>, Vec<String>), (usize, String)> {
    let end = in_fork(|| {
        // SAFETY: limits of this process.
        unsafe {
            libc::alarm(150);
            let l = libc::rlimit { rlim_cur: 60, rlim_max: 60 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
        }
        colored::control::set_override(true);
        let texts: &'static [Text] = Box::leak(texts.to_vec().into_boxed_slice());
        let got: &'static Vec<Mutex<Vec<String>>> = Box::leak(Box::new(plans.iter().map(|_| Mutex::new(Vec::new())).collect()));
        let threads = plans
            .iter()
            .cloned()
            .enumerate()
            .map(|(i, plan)| {
                let f = move || {
                    entropy::install(Entropy::new(1000 + i as u64, None, 0));
                    for t in plan {
                        let r = perform(t, texts);
                        got[i].lock().unwrap().push(r);
                    }
                };
                Box::new(f) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let s = sched::run(turns, focus, threads);
        let mut out = vec![];
        let hash = hash_text(s.log.iter().flat_map(|(a, n, b)| [*a, *b].into_iter().chain(n.to_le_bytes())));
        out.push(format!(
            "{} {} {} {} {} {} {} {} {}",
            s.points, s.switches, s.waits, s.spurious, s.timeouts, s.deadlock as u8, s.livelock as u8, hash, s.hot_points
        ));
        let mut shown = String::new();
        if verbose {
            for (a, n, b) in s.log.iter().take(60) {
                shown += &format!("thread {} is stopped at point {}, thread {} goes on\n", a, n, b);
            }
        }
        out.push(shown);
        // Lists within the list are packed as bytes that need not be text.
        let mut bytes = pack(&out);
        for g in got {
            // A thread that is stopped may hold the lock.
            let g = g.try_lock().map(|g| g.clone()).unwrap_or_default();
            let inner = pack(&g);
            bytes.extend_from_slice(&(inner.len() as u32).to_le_bytes());
            bytes.extend_from_slice(&inner);
        }
        bytes
    });
    match end {
        End::Done(b) => {
            let mut parts = Vec::new();
            let mut rest = &b[..];
            while rest.len() >= 4 {
                let n = u32::from_le_bytes(rest[..4].try_into().unwrap()) as usize;
                parts.push(&rest[4..4 + n]);
                rest = &rest[4 + n..];
            }
            if parts.len() < 2 {
                return Err((0, "the process ends early".into()));
            }
            let head: Vec<String> = parts[..2].iter().map(|p| String::from_utf8_lossy(p).into_owned()).collect();
            Ok((parts[2..].iter().map(|p| unpack(p)).collect(), head))
        }
        End::Signal(libc::SIGALRM | libc::SIGXCPU) => Err((3, "the threads do not come to an end".into())),
        End::Signal(s) => Err((0, format!("the process is ended by signal {}", s))),
        End::Code(c) => Err((0, format!("the process ends with code {}", c))),
    }
}

fn alone(t: Task, texts: &[Text]) -> String {
    let end = in_fork(|| {
        colored::control::set_override(true);
        std::thread::scope(|s| {
            let b = std::thread::Builder::new().stack_size(64 << 20);
            let r = b.spawn_scoped(s, || perform(t, texts)).expect("thread").join();
            pack(&[r.unwrap_or_else(|_| "panic".into())])
        })
    });
    match end {
        End::Done(b) => unpack(&b).pop().unwrap_or_default(),
        End::Signal(s) => format!("the process is ended by signal {}", s),
        End::Code(c) => format!("the process ends with code {}", c),
    }
}

pub fn scenario(case: &Case, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let mut ps = case.p.open();
    let mut hs = case.h.open();
    let mut damaged = Outcome::default();
    let case_small = Case { big: false, ..case.clone() };
    let texts = texts_of(&case_small, &mut ps, &mut hs, &mut damaged);
    let n = 2 + ps.below(3);
    let plans: Vec<Vec<Task>> = (0..n)
        .map(|_| (0..1 + ps.below(3)).map(|_| Task { text: ps.below(texts.len() as u32) as usize, render: ps.below(4) }).collect())
        .collect();
    let focus = hs.below(3) > 0;
    let turns: Vec<Turn> = (0..[1u32, 4, 16, 64, 200][hs.below(5) as usize])
        .map(|_| {
            // 0: until the thread blocks or ends.
            let m = hs.below(40);
            let gap = (m > 0).then(|| {
                let m = 1 + (m - 1) % if focus { 9 } else { 18 };
                hs.below(1 << m)
            });
            let next = hs.below(6);
            Turn { gap, next, spurious: next == 5 && hs.below(2) == 1 }
        })
        .collect();
    match together(&plans, &texts, turns, focus, verbose) {
        Err((k, d)) => o.violate(BAD[k], d),
        Ok((got, head)) => {
            let counts: Vec<u64> = head[0].split(' ').filter_map(|x| x.parse().ok()).collect();
            o.sim_time = counts[0];
            o.nontrivial = counts[1] >= n as u64;
            o.sig = counts[7];
            o.stat("points where a thread may be stopped", counts[0]);
            if focus {
                o.stat("runs focused on static memory", 1);
                o.stat("points at static memory", counts[8]);
            }
            for (k, name) in [(1, "switches of threads"), (2, "waits on a lock"), (3, "wake-ups for nothing"), (4, "time-outs")] {
                if counts[k] > 0 {
                    *o.faults.entry(name).or_default() += counts[k];
                }
            }
            if verbose {
                for (i, p) in plans.iter().enumerate() {
                    o.show.push(format!("thread {}: {:?}", i, p));
                }
                o.show.extend(head[1].lines().map(|l| l.to_string()));
            }
            if counts[5] == 1 {
                o.violate("deadlock", "all threads wait");
            } else if counts[6] == 1 {
                o.violate("livelock", "the threads do not come to an end");
            }
            let mut known: Vec<(Task, String)> = Vec::new();
            for (i, (plan, results)) in plans.iter().zip(&got).enumerate() {
                for (j, (t, r)) in plan.iter().zip(results).enumerate() {
                    if o.viol.is_some() {
                        break;
                    }
                    let want = match known.iter().find(|k| k.0 == *t) {
                        Some(k) => k.1.clone(),
                        None => {
                            let w = alone(*t, &texts);
                            known.push((*t, w.clone()));
                            w
                        }
                    };
                    o.stat("results compared", 1);
                    if want != *r {
                        let (a, b) = want.lines().zip(r.lines()).find(|(a, b)| a != b).unwrap_or((&want, r));
                        let cut = |s: &str| s.chars().take(300).collect::<String>();
                        o.violate("differs", format!("thread {}, task {}: {:?} alone, {:?} here", i, j, cut(a), cut(b)));
                    }
                }
                if o.viol.is_none() && results.len() != plan.len() {
                    o.violate("lost", format!("thread {} has {} of {} results", i, results.len(), plan.len()));
                }
            }
        }
    }
    o.p = std::mem::take(&mut ps.rec);
    o.h = hs.rec;
    o
}
