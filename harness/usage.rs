// Usage trees: exactly the touched cells are recorded, and tracked cells behave as the originals.
use crate::vp::*;
use tycho_types::cell::*;
use tycho_types::merkle::*;

fn must<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(v) => v,
        Err(_) => {
            check(false, "unexpected error");
            unreachable!()
        }
    }
}
fn plain(tag: u8, refs: &[&Cell]) -> Cell {
    let mut b = CellBuilder::new();
    must(b.store_raw(&[tag; 4], 9 + tag as u16));
    for r in refs {
        must(b.store_reference((*r).clone()));
    }
    must(b.build())
}
fn graph(n: usize) -> Vec<Cell> {
    let mut v: Vec<Cell> = Vec::new();
    for i in 0..n {
        let c = if i == 0 {
            plain(0, &[])
        } else {
            let mut refs = vec![&v[i - 1]];
            if pick(1, "refs") == 1 {
                refs.push(&v[pick(i as u64 - 1, "child") as usize]);
            }
            plain(i as u8, &refs)
        };
        v.push(c);
    }
    v
}
fn child(v: &[Cell], i: usize, k: u8) -> Option<usize> {
    let c = v[i].as_ref().reference(k)?;
    v.iter().position(|x| x.repr_hash() == c.repr_hash())
}

harnesses! {
fn us_track() {
    let n = 2 + pick(1, "n") as usize;
    let v = graph(n);
    let live = heap_live();
    let on_load = pick(1, "mode") == 1;
    let t = UsageTree::new(if on_load { UsageTreeMode::OnLoad } else { UsageTreeMode::OnDataAccess });
    check(t.is_empty() && t.len() == 0, "a new tree is empty");
    let mut seen = vec![false; n];
    let mut held: Vec<(Cell, usize)> = Vec::new();
    held.push((t.track(&v[n - 1]), n - 1));
    seen[n - 1] = on_load;
    for _ in 0..if thorough() { 4 } else { 3 } {
        let (c, i) = &held[pick(held.len() as u64 - 1, "cell") as usize];
        let (c, i) = (c.clone(), *i);
        let o = v[i].as_ref();
        match pick(6, "op") {
            0 => {
                check(c.repr_hash() == o.repr_hash() && c.repr_depth() == o.repr_depth() && c.descriptor().d1 == o.descriptor().d1 && c.descriptor().d2 == o.descriptor().d2
                    && c.bit_len() == o.bit_len() && c.reference_count() == o.reference_count(), "properties of a tracked cell");
                reach("properties");
            }
            1 => {
                check(c.data() == o.data(), "data of a tracked cell");
                seen[i] = true;
            }
            2 => {
                // owned child
                let k = pick(2, "k") as u8;
                match (c.reference_cloned(k), child(&v, i, k)) {
                    (Some(x), Some(j)) => {
                        check(x.repr_hash() == v[j].repr_hash(), "child of a tracked cell");
                        seen[j] |= on_load;
                        held.push((x, j));
                    }
                    (None, None) => {}
                    _ => check(false, "child of a tracked cell"),
                }
            }
            3 => {
                // borrowed child, with or without looking at its data
                let k = pick(2, "k") as u8;
                match (c.as_ref().reference(k), child(&v, i, k)) {
                    (Some(x), Some(j)) => {
                        seen[j] |= on_load;
                        if pick(1, "look") == 1 {
                            check(x.data() == v[j].data(), "data of a child");
                            seen[j] = true;
                        }
                    }
                    (None, None) => {}
                    _ => check(false, "child of a tracked cell"),
                }
            }
            4 => {
                // untracked: nothing is recorded from here on
                let u = Cell::untrack(c.clone());
                check(u.data() == o.data(), "data of an untracked cell");
                if let Some(x) = u.as_ref().reference(0) {
                    check(Some(x.data()) == o.reference(0).map(|x| x.data()), "data of an untracked child");
                }
            }
            5 => {
                let mut s = CellSlice::new_allow_exotic(c.as_ref());
                // reading through a slice
                check(s.load_uint(9).is_ok(), "read");
                seen[i] = true;
                if let Some(j) = child(&v, i, 0) {
                    check(s.load_reference().is_ok(), "read child");
                    seen[j] |= on_load;
                }
            }
            _ => {
                let w = c.as_ref().virtualize();
                check(w.repr_hash() == o.repr_hash() && w.data() == o.data(), "virtualized tracked cell");
                seen[i] = true;
            }
        }
    }
    for (c, s) in v.iter().zip(&seen) {
        check(t.contains(c.repr_hash()) == *s, "exactly the touched cells are recorded");
    }
    check(t.len() == seen.iter().filter(|s| **s).count(), "number of touched cells");
    check(t.is_empty() == seen.iter().all(|s| !*s), "emptiness");
    reach("recorded");
    // a proof of the touched cells
    if seen[n - 1] {
        let p = must(MerkleProof::create(v[n - 1].as_ref(), &t).build());
        check(p.cell.hash(0) == v[n - 1].repr_hash(), "proof of the touched cells");
    }
    // cells may outlive their tree
    drop(t);
    for (c, i) in held.drain(..) {
        check(c.data() == v[i].data() && c.reference_count() == v[i].reference_count(), "a tracked cell without its tree");
        if let Some(j) = child(&v, i, 0) {
            check(matches!(c.reference_cloned(0), Some(x) if x.data() == v[j].data()), "a tracked child without its tree");
        }
    }
    drop(held);
    drop(seen);
    let _ = live;
}
fn us_subtrees() {
    // whole subtrees are kept by the filter
    let v = graph(3);
    let t = UsageTree::new(UsageTreeMode::OnLoad);
    let c = t.track(&v[2]);
    if pick(1, "load") == 1 {
        check(c.reference_cloned(0).is_some(), "child");
    }
    let loaded = t.contains(v[1].repr_hash());
    let mut t = t.with_subtrees();
    let k = pick(2, "subtree") as usize;
    check(t.add_subtree(v[k].as_ref()), "a new subtree");
    check(!t.add_subtree(v[k].as_ref()), "a subtree once");
    for i in 0..3 {
        check(t.contains_subtree(v[i].repr_hash()) == (i == k), "subtrees");
        check(t.contains_direct(v[i].repr_hash()) == (i == 2 || i == 1 && loaded), "cells");
        let want = if i == 2 || i == 1 && loaded { FilterAction::Include } else if i == k { FilterAction::IncludeSubtree } else { FilterAction::Skip };
        check(t.check(v[i].repr_hash()) == want, "filter action");
    }
    let d = t.track(&v[0]);
    check(d.data() == v[0].data() && t.contains_direct(v[0].repr_hash()), "tracking goes on");
    reach("subtree");
}
fn us_touch() {
    // touching a whole subtree records each of its cells, through whatever kind of access
    let n = 2 + pick(2, "n") as usize;
    let v = graph(n);
    let on_load = pick(1, "mode") == 1;
    let mode = if on_load { UsageTreeMode::OnLoad } else { UsageTreeMode::OnDataAccess };
    let t = if pick(1, "capacity") == 1 { UsageTree::with_mode_and_capacity(mode, pick(2, "cap") as usize) } else { UsageTree::new(mode) };
    let top = t.track(&v[n - 1]);
    let at = pick(n as u64 - 1, "at") as usize;
    // descend along the chain of first references
    let mut c = top;
    for _ in at..n - 1 {
        c = match c.reference_cloned(0) {
            Some(x) => x,
            None => {
                check(false, "first child");
                unreachable!()
            }
        };
    }
    match pick(2, "how") {
        0 => c.as_ref().touch_recursive(),
        1 => c.as_ref().virtualize().touch_recursive(),
        _ => Cell::virtualize(c).as_ref().touch_recursive(),
    }
    // what is reachable from the touched cell
    let mut below = vec![false; n];
    below[at] = true;
    for i in (0..n).rev() {
        if below[i] {
            for k in 0..2 {
                if let Some(j) = child(&v, i, k) {
                    below[j] = true;
                }
            }
        }
    }
    let mut len = 0;
    for i in 0..n {
        let want = below[i] || on_load && i >= at;
        len += want as usize;
        check(t.contains(v[i].repr_hash()) == want, "touching records exactly the cells below");
    }
    check(t.len() == len, "number of touched cells");
    reach("touched");
    if on_load || at == n - 1 {
        // and the proof has all of them
        let p = must(MerkleProof::create(v[n - 1].as_ref(), &t).build());
        check(p.cell.hash(0) == v[n - 1].repr_hash(), "proof of the touched cells");
        check((p.cell.level() == 0) == below.iter().enumerate().all(|(i, b)| *b || on_load && i >= at), "no branch is pruned when all are touched");
    }
}
}
