//! Not a property of xi-editor: a planted lost-update race that the simulator has to find.
use crate::driver::Prop;
use crate::rt::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
fn gen(r: &mut Rng, _t: bool) -> Value {
    json!({"ops": [r.below(100)]})
}
fn run(_sc: &Value) {
    let a = Arc::new(AtomicU64::new(0));
    let m = Arc::new((Mutex::new(0), Condvar::new()));
    let hs: Vec<_> = (0..3)
        .map(|i| {
            let a = a.clone();
            let m = m.clone();
            spawn(0, &format!("w{}", i), move || {
                for _ in 0..3 {
                    let x = a.load(Ordering::SeqCst);
                    yield_point();
                    a.store(x + 1, Ordering::SeqCst);
                }
                std::thread::sleep(std::time::Duration::from_millis(10));
                *m.0.lock().unwrap() += 1;
                m.1.notify_all();
            })
        })
        .collect();
    let mut g = m.0.lock().unwrap();
    while *g < 3 {
        g = m.1.wait(g).unwrap();
    }
    drop(g);
    for h in hs {
        h.join().unwrap();
    }
    note("nontrivial", 1);
    if a.load(Ordering::SeqCst) != 9 {
        violation!("lost-update", "counter is {}", a.load(Ordering::SeqCst));
    }
}
pub const PROP: Prop = Prop { id: "S00", gen, run, rule: "self test", real: &[], stub: &[], assumptions: &[] };
