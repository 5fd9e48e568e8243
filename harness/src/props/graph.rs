//! C16: dominators and traversal order (through the hook), and validation's
//! use of them.

use crate::run::*;

// With the hook out of order dominance is only seen through validation.
#[cfg(regalloc2_verif)]
mod direct {
use crate::rng::Rng;
use crate::run::*;
use crate::valid::*;
use crate::gen::*;
use crate::prog::*;
use regalloc2::verif_hooks::cfg::{CFGInfo, CFGInfoCtx};
use regalloc2::verif_hooks::{domtree, postorder};
use regalloc2::{Block, Inst, ProgPoint};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Graph {
    pub entry: usize,
    pub succs: Vec<Vec<usize>>,
    pub rev_preds: bool,
}

pub struct Graphs {
    pub big: bool,
}

/// The textbook definition: `a` dominates `b` iff `b` cannot be reached once
/// `a` is removed.
fn reach_without(entry: usize, succs: &[Vec<usize>], a: usize) -> Vec<bool> {
    let mut r = vec![false; succs.len()];
    if a == entry {
        return r;
    }
    let mut w = vec![entry];
    r[entry] = true;
    while let Some(b) = w.pop() {
        for &s in &succs[b] {
            if s != a && !r[s] {
                r[s] = true;
                w.push(s);
            }
        }
    }
    r
}

/// A depth-first postorder of the reachable blocks? Says whether it met a
/// cycle.
fn check_postorder(n: usize, entry: usize, succs: &[Vec<usize>], post: &[Block]) -> Result<bool, String> {
    let reach = reachable(entry, succs);
    let mut pos = vec![usize::MAX; n];
    for (i, b) in post.iter().enumerate() {
        let b = b.index();
        if b >= n || pos[b] != usize::MAX || !reach[b] {
            return Err(format!("{:?} lists block{} twice or although it is unreachable", post, b));
        }
        pos[b] = i;
    }
    for b in 0..n {
        if reach[b] && pos[b] == usize::MAX {
            return Err(format!("{:?} lacks reachable block{}", post, b));
        }
    }
    if post.last() != Some(&Block::new(entry)) {
        return Err(format!("{:?} does not end with the entry", post));
    }
    // In a depth-first postorder an edge to a later block leads to an
    // ancestor, which then reaches back through earlier blocks only.
    let mut back = false;
    for u in 0..n {
        for &v in &succs[u] {
            if reach[u] && pos[v] > pos[u] {
                back = true;
                let mut seen = vec![false; n];
                let mut w = vec![v];
                seen[v] = true;
                while let Some(x) = w.pop() {
                    for &s in &succs[x] {
                        if !seen[s] && pos[s] < pos[v] {
                            seen[s] = true;
                            w.push(s);
                        }
                    }
                }
                if !seen[u] && u != v {
                    return Err(format!("{:?}: block{} precedes its successor block{} without being its descendant", post, u, v));
                }
            }
        }
    }
    Ok(back)
}

impl Part for Graphs {
    type In = Graph;
    fn name(&self) -> String {
        if self.big { "graphs-big" } else { "graphs" }.into()
    }
    fn flavor(&self) -> Flavor {
        Flavor::Checked
    }
    fn count(&self, t: Tier) -> u64 {
        let q = if self.big { 30_000 } else { 800_000 };
        match t {
            Tier::Quick => q,
            Tier::Thorough => q * 10,
        }
    }
    fn must_finish(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Graph {
        let n = if self.big { r.range(20, 150) } else { r.range(1, 14) };
        let mut succs = vec![vec![]; n];
        let entry = if r.pct(70) { 0 } else { r.below(n) };
        match r.below(5) {
            // Random with some density.
            0 => {
                let m = r.range(0, n * 3);
                for _ in 0..m {
                    let a = r.below(n);
                    let b = r.below(n);
                    succs[a].push(b);
                }
            }
            // A spanning chain plus random edges.
            1 => {
                let mut order: Vec<usize> = (0..n).filter(|x| *x != entry).collect();
                r.shuffle(&mut order);
                let mut prev = entry;
                for &b in &order {
                    succs[prev].push(b);
                    prev = b;
                }
                for _ in 0..r.range(0, n) {
                    let a = r.below(n);
                    let b = r.below(n);
                    succs[a].push(b);
                }
            }
            // A spanning tree plus edges.
            2 => {
                let mut seen = vec![entry];
                for b in 0..n {
                    if b != entry {
                        let p = *r.pick(&seen);
                        succs[p].push(b);
                        seen.push(b);
                    }
                }
                for _ in 0..r.range(0, 2 * n) {
                    let a = r.below(n);
                    let b = r.below(n);
                    succs[a].push(b);
                }
            }
            // Ladders: hard for iterative algorithms.
            3 => {
                for b in 0..n {
                    if b + 1 < n {
                        succs[b].push(b + 1);
                    }
                    if b > 0 && r.pct(60) {
                        succs[b].push(b - 1);
                    }
                    if r.pct(25) {
                        let t = (b + r.range(1, 4)).min(n - 1);
                        succs[b].push(t);
                    }
                }
            }
            // DAG with skips and back edges to random ancestors.
            _ => {
                for b in 0..n {
                    for _ in 0..r.range(0, 3) {
                        if b + 1 < n {
                            let t = r.range(b + 1, (b + 5).min(n - 1));
                            succs[b].push(t);
                        }
                    }
                    if r.pct(20) {
                        let t = r.below(b + 1);
                        succs[b].push(t);
                    }
                }
            }
        }
        for l in &mut succs {
            r.shuffle(l);
        }
        Graph { entry, succs, rev_preds: r.bool() }
    }
    fn valid(&self, g: &Graph) -> bool {
        g.entry < g.succs.len() && g.succs.iter().flatten().all(|&s| s < g.succs.len())
    }
    fn eval(&self, g: &Graph) -> Outcome {
        let n = g.succs.len();
        let succs: Vec<Vec<Block>> = g.succs.iter().map(|l| l.iter().map(|&b| Block::new(b)).collect()).collect();
        let mut preds: Vec<Vec<Block>> = vec![vec![]; n];
        for (b, l) in g.succs.iter().enumerate() {
            for &s in l {
                preds[s].push(Block::new(b));
            }
        }
        if g.rev_preds {
            for l in &mut preds {
                l.reverse();
            }
        }
        // Scratch space with leftovers of an earlier use.
        let mut visited = vec![true; n + 3];
        let mut post = vec![Block::new(0); 5];
        if let Err(e) = postorder::calculate(n, Block::new(g.entry), &mut visited, &mut post, |b| &succs[b.index()]) {
            return Outcome::fail("postorder", format!("error {:?}", e));
        }
        let reach = reachable(g.entry, &g.succs);
        let back = match check_postorder(n, g.entry, &g.succs, &post) {
            Ok(b) => b,
            Err(e) => return Outcome::fail("postorder", e),
        };
        let mut scratch = vec![Some(7u32); n + 2];
        let mut idom = vec![Block::new(0); 2];
        domtree::calculate(n, |b| &preds[b.index()], &post, &mut scratch, &mut idom, Block::new(g.entry));
        if idom.len() != n {
            return Outcome::fail("domtree", format!("{} entries for {} blocks", idom.len(), n));
        }
        for a in 0..n {
            if !reach[a] {
                continue;
            }
            let without = reach_without(g.entry, &g.succs, a);
            for b in 0..n {
                if !reach[b] {
                    continue;
                }
                let want = a == b || !without[b];
                let got = domtree::dominates(&idom, Block::new(a), Block::new(b));
                if want != got {
                    return Outcome::fail("dominates", format!("block{} dominates block{}: reported {}, by definition {}", a, b, got, want));
                }
            }
        }
        let joins = preds.iter().enumerate().any(|(b, l)| reach[b] && l.iter().filter(|p| reach[p.index()]).count() > 1);
        let mut o = Outcome::ok(joins && n > 2);
        if back {
            o.tags.push("cyclic");
        }
        if reach.iter().any(|r| !r) {
            o.tags.push("unreachable-blocks");
        }
        o
    }
    fn shrink(&self, x: &Graph, max: usize, pred: &mut dyn FnMut(&Graph) -> bool) -> Graph {
        let mut best = x.clone();
        let mut left = max;
        // Drop edges, then the last blocks while unused.
        let edges: Vec<(usize, usize)> = x.succs.iter().enumerate().flat_map(|(a, l)| l.iter().map(move |&b| (a, b))).collect();
        let rebuild = |n: usize, e: &[(usize, usize)]| {
            let mut s = vec![vec![]; n];
            for &(a, b) in e {
                s[a].push(b);
            }
            s
        };
        let n = x.succs.len();
        let small = shrink_list(&edges, &mut left, &mut |l| pred(&Graph { succs: rebuild(n, l), ..x.clone() }));
        best.succs = rebuild(n, &small);
        while best.succs.len() > 1 {
            let mut t = best.clone();
            t.succs.pop();
            if left == 0 || !self.valid(&t) || !pred(&t) {
                break;
            }
            left -= 1;
            best = t;
        }
        best
    }
    fn show(&self, g: &Graph) -> String {
        format!("entry block{}: {}", g.entry, g.succs.iter().enumerate().map(|(a, l)| format!("{}->{:?}", a, l)).collect::<Vec<_>>().join(" "))
    }
}

/// The control-flow tables of whole programs, built one after the other in
/// the same storage.
pub struct Programs;

impl Part for Programs {
    type In = Vec<Case>;
    fn name(&self) -> String {
        "programs".into()
    }
    fn flavor(&self) -> Flavor {
        Flavor::Checked
    }
    fn count(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 600_000,
        }
    }
    fn must_finish(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Vec<Case> {
        (0..r.range(1, 3))
            .map(|_| {
                let emph = [Emph::General, Emph::Edges, Emph::Tiny][r.below(3)];
                generate(r, &Profile { algo: Algo::Ion, room: Room::Unbounded, emph, size: 1, labels: false })
            })
            .collect()
    }
    fn valid(&self, x: &Vec<Case>) -> bool {
        x.iter().all(|c| check(c, Algo::Ion, Room::Unbounded).is_ok())
    }
    fn eval(&self, x: &Vec<Case>) -> Outcome {
        let mut info = CFGInfo::default();
        let mut ctx = CFGInfoCtx::default();
        let mut o = Outcome::ok(false);
        for (k, c) in x.iter().enumerate() {
            let p = &c.prog;
            let f = p.flat();
            let fail = |w: &'static str, e: String| Outcome::fail(w, format!("program {}: {}", k, e));
            if let Err(e) = info.init(&f, &mut ctx) {
                return fail("cfg", format!("error {:?}", e));
            }
            let n = p.blocks.len();
            let succs: Vec<Vec<usize>> = p.blocks.iter().map(|b| b.succs.clone()).collect();
            match check_postorder(n, p.entry, &succs, &info.postorder) {
                Ok(true) => o.tags.push("cyclic"),
                Ok(false) => {}
                Err(e) => return fail("postorder", e),
            }
            for a in 0..n {
                let without = reach_without(p.entry, &succs, a);
                for b in 0..n {
                    let want = a == b || !without[b];
                    let got = info.dominates(Block::new(a), Block::new(b));
                    if want != got {
                        return fail("dominates", format!("block{} dominates block{}: reported {}, by definition {}", a, b, got, want));
                    }
                }
            }
            let mut i = 0;
            if info.block_entry.len() != n || info.block_exit.len() != n {
                return fail("blocks", format!("{} entries and {} exits for {} blocks", info.block_entry.len(), info.block_exit.len(), n));
            }
            for (b, blk) in p.blocks.iter().enumerate() {
                let (first, last) = (i, i + blk.insts.len() - 1);
                if info.block_entry[b] != ProgPoint::before(Inst::new(first)) || info.block_exit[b] != ProgPoint::after(Inst::new(last)) {
                    return fail("blocks", format!("block{} goes from {:?} to {:?}", b, info.block_entry[b], info.block_exit[b]));
                }
                for j in first..=last {
                    if info.insn_block.get(j) != Some(&Block::new(b)) {
                        return fail("blocks", format!("inst{} is said to be in {:?}, it is in block{}", j, info.insn_block.get(j), b));
                    }
                }
                i = last + 1;
            }
            if info.insn_block.len() != i {
                return fail("blocks", format!("{} entries for {} instructions", info.insn_block.len(), i));
            }
            o.nontrivial |= n > 1;
        }
        o.tags.sort();
        o.tags.dedup();
        o
    }
    fn shrink(&self, x: &Vec<Case>, max: usize, pred: &mut dyn FnMut(&Vec<Case>) -> bool) -> Vec<Case> {
        let mut left = max;
        let mut best = shrink_list(x, &mut left, &mut |l| pred(&l.to_vec()));
        for i in 0..best.len() {
            let b = best.clone();
            best[i] = crate::shrink::shrink(&b[i], max / 3, &mut |c| {
                let mut y = b.clone();
                y[i] = c.clone();
                pred(&y)
            })
            .0;
        }
        best
    }
    fn show(&self, x: &Vec<Case>) -> String {
        x.iter().map(|c| show(c)).collect::<Vec<_>>().join("\n")
    }
}

}

pub fn prop() -> Prop {
    let mut parts: Vec<Box<dyn DynPart>> = vec![];
    #[cfg(regalloc2_verif)]
    for big in [false, true] {
        parts.push(Box::new(direct::Graphs { big }));
    }
    #[cfg(regalloc2_verif)]
    parts.push(Box::new(direct::Programs));
    parts.extend(super::malformed::dominance_parts());
    Prop {
        id: "C16",
        rule: "Random graphs (unreachable blocks, self-loops, parallel edges, irreducible, ladders) against the removal definition of dominance and the depth-first postorder conditions; the control-flow tables of generated programs built in reused storage; programs with uses moved to places that their definition may not dominate, against an independent dominance test; non-trivial: a reachable join, or a program with a moved use.",
        assumptions: vec!["Dominance is claimed for reachable blocks only; the functions are reached through the verification hook and through validation."],
        parts,
    }
}
