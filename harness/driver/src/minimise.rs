//! Shrinks a failing plan while the same kind of violation of the same property remains.
use crate::plan::*;
use crate::runner::*;
use simrt::Class;
use std::time::{Duration, Instant};

struct Min {
    best: Plan,
    class: Class,
    end: Instant,
    pub runs: u64,
}
impl Min {
    fn try_(&mut self, q: Plan) -> bool {
        if q == self.best || Instant::now() > self.end {
            return false;
        }
        self.runs += 1;
        let o = eval(&q, false);
        match hit(&q, &o) {
            Some(v) if v.class == self.class => {
                self.best = q;
                true
            }
            _ => false,
        }
    }
    /// Removes chunks of a list, halving the chunk size.
    fn chunks(&mut self, len: impl Fn(&Plan) -> usize, del: impl Fn(&mut Plan, usize, usize)) -> bool {
        let mut any = false;
        let mut n = len(&self.best);
        while n > 0 {
            let mut i = 0;
            while i < len(&self.best) {
                let k = n.min(len(&self.best) - i);
                let mut q = self.best.clone();
                del(&mut q, i, k);
                if self.try_(q) {
                    any = true;
                } else {
                    i += n;
                }
                if Instant::now() > self.end {
                    return any;
                }
            }
            n /= 2;
        }
        any
    }
}
pub fn minimise(p: &Plan, class: Class, secs: u64) -> (Plan, u64) {
    let end = Instant::now() + Duration::from_secs(secs);
    FAST.store(class == Class::Hang, std::sync::atomic::Ordering::Relaxed);
    let mut m = Min { best: p.clone(), class, end, runs: 0 };
    // make the schedule explicit
    let o = eval(p, false);
    let mut q = p.clone();
    q.switches = Some(o.switches);
    m.try_(q);
    loop {
        let mut any = false;
        for t in (0..m.best.ops.len()).rev() {
            let mut q = m.best.clone();
            q.ops[t].clear();
            any |= !m.best.ops[t].is_empty() && m.try_(q);
        }
        for t in 0..m.best.ops.len() {
            any |= m.chunks(|p| p.ops[t].len(), |p, i, k| drop(p.ops[t].drain(i..i + k)));
        }
        // trailing threads without work
        while m.best.ops.len() > 1 && m.best.ops.last().unwrap().is_empty() {
            let mut q = m.best.clone();
            q.ops.pop();
            q.own.pop();
            if !m.try_(q) {
                break;
            }
            any = true;
        }
        if m.best.switches.is_some() {
            any |= m.chunks(|p| p.switches.as_ref().unwrap().len(), |p, i, k| drop(p.switches.as_mut().unwrap().drain(i..i + k)));
        }
        for t in 0..m.best.ops.len() {
            for i in 0..m.best.ops[t].len() {
                let edits: [fn(&mut Op); 13] = [
                    |o| o.f = Fault::default(),
                    |o| o.f.nth = 0,
                    |o| o.f.all = false,
                    |o| o.f.err = 0,
                    |o| o.f.panic = 0,
                    |o| o.f.stall = 0,
                    |o| o.f.unw = false,
                    |o| {
                        o.nested = None;
                        o.f.reenter = 0
                    },
                    |o| {
                        o.f.eintr = 0;
                        o.f.short = 0
                    },
                    |o| o.lit = 0,
                    |o| o.form = 0,
                    |o| {
                        if let Some(n) = &mut o.nested {
                            n.lit = 0
                        }
                    },
                    |o| o.y = 0,
                ];
                for e in edits {
                    let mut q = m.best.clone();
                    e(&mut q.ops[t][i]);
                    any |= m.try_(q);
                }
            }
        }
        let simple: [fn(&mut Plan); 3] = [|p| p.reuse = false, |p| p.move_shrink = false, |p| p.hot = false];
        for e in simple {
            let mut q = m.best.clone();
            e(&mut q);
            any |= m.try_(q);
        }
        // values
        let n = m.best.shared.len();
        for j in 0..n {
            for words in [vec![], vec![1]] {
                let mut q = m.best.clone();
                q.shared[j].words = words;
                let w = q.shared[j].w;
                mask(&mut q.shared[j].words, w);
                if q.shared[j] != m.best.shared[j] && m.best.shared[j].words.iter().any(|x| *x > 1) {
                    any |= m.try_(q);
                }
            }
        }
        while m.best.shared.len() > 1 {
            let mut q = m.best.clone();
            q.shared.pop();
            if !m.try_(q) {
                break;
            }
            any = true;
        }
        for t in 0..m.best.own.len() {
            for i in 0..m.best.own[t].len() {
                for words in [vec![], vec![1]] {
                    let mut q = m.best.clone();
                    q.own[t][i].words = words;
                    let w = q.own[t][i].w;
                    mask(&mut q.own[t][i].words, w);
                    if q.own[t][i] != m.best.own[t][i] && m.best.own[t][i].words.iter().any(|x| *x > 1) {
                        any |= m.try_(q);
                    }
                }
            }
        }
        // widths: the same smaller width for everything of one width
        let mut ws: Vec<usize> = m.best.own.iter().flatten().chain(&m.best.shared).map(|i| i.w).collect();
        ws.sort();
        ws.dedup();
        for w in ws {
            for to in [1, 8, 64, 65, 128, 129, w / 2, w - 64.min(w - 1), w - 1] {
                if to == 0 || to >= w {
                    continue;
                }
                let mut q = m.best.clone();
                for i in q.own.iter_mut().flatten().chain(q.shared.iter_mut()) {
                    if i.w == w {
                        i.w = to;
                        mask(&mut i.words, to);
                    }
                }
                if m.try_(q) {
                    any = true;
                    break;
                }
            }
        }
        if !any || Instant::now() > m.end {
            break;
        }
    }
    FAST.store(false, std::sync::atomic::Ordering::Relaxed);
    if class == Class::Hang && !hit(&m.best, &eval(&m.best, false)).is_some_and(|v| v.class == class) {
        m.best = p.clone();
    }
    (m.best, m.runs)
}
