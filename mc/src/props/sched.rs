//! Two host operations on two threads whose callbacks are scheduling points.
use super::ops::{HOSTS, host};
use crate::engine::*;
use std::sync::{Arc, Condvar, Mutex};

struct S {
    /// whose turn it is (2: the controller)
    turn: usize,
    done: [bool; 2],
}

type Shared = Arc<(Mutex<S>, Condvar)>;

fn wait(sh: &Shared, me: usize) {
    let mut s = sh.0.lock().unwrap();
    while s.turn != me {
        s = sh.1.wait(s).unwrap();
    }
}
fn give(sh: &Shared, to: usize) {
    sh.0.lock().unwrap().turn = to;
    sh.1.notify_all();
}

const POINTS: usize = 4;

/// The default continues the running thread; every switch is a deviation.
pub fn callbacks(c: &mut Ctx) -> R {
    let hs = [c.choose(HOSTS.len()), c.choose(HOSTS.len())];
    let sh: Shared = Arc::new((Mutex::new(S { turn: 2, done: [false; 2] }), Condvar::new()));
    let mut joins = vec![];
    for me in 0..2 {
        let sh = sh.clone();
        let h = hs[me];
        joins.push(std::thread::spawn(move || {
            wait(&sh, me);
            let r = observe(|| {
                host(h, &|i| {
                    if i < POINTS {
                        give(&sh, 2);
                        wait(&sh, me);
                    }
                })
            });
            let mut s = sh.0.lock().unwrap();
            s.done[me] = true;
            s.turn = 2;
            sh.1.notify_all();
            drop(s);
            r
        }));
    }
    let mut cur = 0;
    let mut trace = vec![];
    loop {
        let done = sh.0.lock().unwrap().done;
        if done[0] && done[1] {
            break;
        }
        if done[cur] {
            cur = 1 - cur;
        } else if !done[1 - cur] && c.deviate(2) == 1 {
            cur = 1 - cur;
        }
        trace.push(cur);
        give(&sh, cur);
        wait(&sh, 2);
    }
    c.calls += 2;
    for (me, j) in joins.into_iter().enumerate() {
        let what = || format!("{} on thread {me} with {} on the other, schedule {trace:?}", HOSTS[hs[me]], HOSTS[hs[1 - me]]);
        let (got, want) = j.join().map_err(|_| "thread died".to_string())?.map_err(|p| format!("{} panicked: {p}", what()))?;
        eq_bytes(&got, &want, what)?;
    }
    c.outcome(&(hs, &trace));
    c.sample(|| format!("{} / {}: {trace:?}", HOSTS[hs[0]], HOSTS[hs[1]]));
    Ok(())
}
