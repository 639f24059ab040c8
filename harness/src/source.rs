//! A parallel source for the parallel writer, with splitting and interleaving in the explorer's hands.
use mc::Cx;
use rayon::iter::plumbing::*;
use rayon::iter::ParallelIterator;

/// A parallel source whose splitting and interleaving the explorer controls.
pub struct Source<P> {
    pub items: Vec<P>,
    pub known_len: bool,
    pub leaves: usize,
    pub cx: *mut Cx,
}
unsafe impl<P> Send for Source<P> {}

enum Tree<R> {
    Leaf(usize),
    Node(Box<Tree<R>>, R, Box<Tree<R>>),
}
impl<P: Send> ParallelIterator for Source<P> {
    type Item = P;
    fn opt_len(&self) -> Option<usize> {
        self.known_len.then_some(self.items.len())
    }
    fn drive_unindexed<C: UnindexedConsumer<P>>(self, consumer: C) -> C::Result {
        let cx = unsafe { &mut *self.cx };
        let n = self.items.len();
        let mut parts: Vec<(usize, C)> = vec![];
        fn build<P, C: UnindexedConsumer<P>>(
            cx: &mut Cx,
            c: C,
            n: usize,
            known: bool,
            budget: &mut usize,
            parts: &mut Vec<(usize, C)>,
        ) -> Tree<C::Reducer> {
            if *budget > 1 {
                // 0: do not split; else the size of the left part, empty parts included when the
                // length is unknown
                let lo = if known { 1 } else { 0 };
                let hi = if known { n.saturating_sub(1) } else { n };
                let k = if hi + 1 > lo { cx.choose("split", hi - lo + 2) } else { 0 };
                if k > 0 {
                    let at = lo + k - 1;
                    *budget -= 1;
                    let (l, r, red) = if known {
                        c.split_at(at)
                    } else {
                        let l = c.split_off_left();
                        let red = c.to_reducer();
                        (l, c, red)
                    };
                    let a = build(cx, l, at, known, budget, parts);
                    let b = build(cx, r, n - at, known, budget, parts);
                    return Tree::Node(Box::new(a), red, Box::new(b));
                }
            }
            parts.push((n, c));
            Tree::Leaf(parts.len() - 1)
        }
        let mut budget = self.leaves;
        let tree = build(cx, consumer, n, self.known_len, &mut budget, &mut parts);
        let shape: Vec<usize> = parts.iter().map(|p| p.0).collect();
        let mut items = self.items.into_iter();
        let mut run: Vec<(std::collections::VecDeque<P>, Option<C::Folder>)> = parts
            .into_iter()
            .map(|(k, c)| (items.by_ref().take(k).collect(), Some(c.into_folder())))
            .collect();
        let mut order = vec![];
        loop {
            let en: Vec<usize> = (0..run.len()).filter(|&k| !run[k].0.is_empty()).collect();
            if en.is_empty() {
                break;
            }
            let k = en[if en.len() == 1 { 0 } else { cx.choose("schedule", en.len()) }];
            order.push(k);
            let x = run[k].0.pop_front().unwrap();
            let f = run[k].1.take().unwrap();
            if f.full() {
                run[k].0.clear();
                run[k].1 = Some(f);
            } else {
                run[k].1 = Some(f.consume(x));
            }
            cx.step();
            cx.state(&(&shape, run.iter().map(|r| r.0.len()).collect::<Vec<_>>()));
        }
        cx.note(|| format!("parts {shape:?}, order {order:?}"));
        // complete the parts in a chosen order
        let mut done: Vec<Option<C::Result>> = (0..run.len()).map(|_| None).collect();
        let rev = run.len() > 1 && cx.flag("complete in reverse");
        let ix: Vec<usize> = if rev { (0..run.len()).rev().collect() } else { (0..run.len()).collect() };
        for k in ix {
            done[k] = Some(run[k].1.take().unwrap().complete());
        }
        fn fold<R, D: Reducer<R>>(t: Tree<D>, done: &mut Vec<Option<R>>) -> R {
            match t {
                Tree::Leaf(k) => done[k].take().unwrap(),
                Tree::Node(a, d, b) => {
                    let a = fold(*a, done);
                    let b = fold(*b, done);
                    d.reduce(a, b)
                }
            }
        }
        fold(tree, &mut done)
    }
}


/// A sequential source whose size hint is anything the contract of `Iterator::size_hint` allows.
pub struct Hinted<T> {
    items: std::vec::IntoIter<T>,
    slack_below: usize,
    above: Option<usize>,
}
pub const HINTS: usize = 7;
impl<T> Hinted<T> {
    /// kinds: exact; nothing known; only an upper bound (tight, loose, enormous); only a lower bound
    /// (tight, loose)
    pub fn new(items: Vec<T>, kind: usize) -> Self {
        let (slack_below, above) = [
            (0, Some(0)),
            (usize::MAX, None),
            (usize::MAX, Some(0)),
            (2, Some(3)),
            (usize::MAX, Some(usize::MAX)),
            (0, None),
            (1, None),
        ][kind];
        Hinted { items: items.into_iter(), slack_below, above }
    }
}
impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        (n.saturating_sub(self.slack_below), self.above.map(|a| n.saturating_add(a)))
    }
}
