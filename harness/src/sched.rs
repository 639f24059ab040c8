//! A controlled scheduler for real threads: exactly one task runs at a time, and at every scheduling
//! point the explorer decides which one goes on.
use crate::Cx;
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq)]
enum St {
    Waiting,
    Running,
    Done,
}
struct Shared {
    st: Mutex<Vec<St>>,
    cv: Condvar,
}
thread_local! {
    static ME: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
}

/// A scheduling point; does nothing outside a controlled task.
pub fn point() {
    ME.with(|m| {
        if let Some((s, i)) = &*m.borrow() {
            let mut st = s.st.lock().unwrap();
            st[*i] = St::Waiting;
            s.cv.notify_all();
            while st[*i] != St::Running {
                st = s.cv.wait(st).unwrap();
            }
        }
    })
}

/// Run the tasks to their ends under every schedule of their scheduling points (each task also has
/// one at its start). Returns their results (a panic as its message) and the schedule taken.
pub fn run<T: Send + 'static>(
    cx: &mut Cx,
    tasks: Vec<Box<dyn FnOnce() -> T + Send>>,
) -> (Vec<Result<T, String>>, Vec<usize>) {
    let n = tasks.len();
    let s = Arc::new(Shared {
        st: Mutex::new(vec![St::Waiting; n]),
        cv: Condvar::new(),
    });
    let hs: Vec<_> = tasks
        .into_iter()
        .enumerate()
        .map(|(i, f)| {
            let s = s.clone();
            std::thread::spawn(move || {
                {
                    let mut st = s.st.lock().unwrap();
                    while st[i] != St::Running {
                        st = s.cv.wait(st).unwrap();
                    }
                }
                ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
                let r = crate::catch(f);
                ME.with(|m| *m.borrow_mut() = None);
                s.st.lock().unwrap()[i] = St::Done;
                s.cv.notify_all();
                r
            })
        })
        .collect();
    let mut taken = vec![];
    // the explorer's own unwinding must not leave threads behind: collect it and resume at the end
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| loop {
        let en: Vec<usize> = {
            let mut st = s.st.lock().unwrap();
            while st.iter().any(|x| *x == St::Running) {
                st = s.cv.wait(st).unwrap();
            }
            (0..n).filter(|&i| st[i] == St::Waiting).collect()
        };
        if en.is_empty() {
            break;
        }
        let k = if en.len() == 1 { 0 } else { cx.choose("schedule", en.len()) };
        taken.push(en[k]);
        cx.step();
        s.st.lock().unwrap()[en[k]] = St::Running;
        s.cv.notify_all();
    }));
    if let Err(p) = r {
        // let everything run to its end
        loop {
            let mut st = s.st.lock().unwrap();
            while st.iter().any(|x| *x == St::Running) {
                st = s.cv.wait(st).unwrap();
            }
            let Some(i) = (0..n).find(|&i| st[i] == St::Waiting) else { break };
            st[i] = St::Running;
            s.cv.notify_all();
        }
        for h in hs {
            let _ = h.join();
        }
        std::panic::resume_unwind(p);
    }
    let out = hs.into_iter().map(|h| h.join().expect("task")).collect();
    (out, taken)
}
