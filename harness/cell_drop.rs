// Ownership of cell trees: dropping frees exactly what is no longer referenced, in any order.
use crate::vp::*;
use tycho_types::cell::*;

fn mk(tag: u8, len: u16, refs: &[&Cell]) -> Cell {
    let mut b = CellBuilder::new();
    let mut ok = b.store_u8(tag).is_ok();
    ok &= b.store_zeros(len).is_ok();
    for r in refs {
        ok &= b.store_reference((*r).clone()).is_ok();
    }
    match (ok, b.build()) {
        (true, Ok(c)) => c,
        _ => {
            check(false, "build");
            unreachable!()
        }
    }
}
fn pruned(tag: u8) -> Cell {
    let mut b = CellBuilder::new();
    b.set_exotic(true);
    let mut d = [tag; 36];
    d[0] = 1;
    d[1] = 1;
    d[34] = 0;
    d[35] = 0;
    match (b.store_raw(&d, 288), b.build()) {
        (Ok(()), Ok(c)) => c,
        _ => {
            check(false, "build");
            unreachable!()
        }
    }
}
/// Walks the whole tree (touching all memory) and checks the node tags against the model.
fn walk(c: &DynCell, id: usize, shape: &[Vec<usize>]) {
    check(c.data()[0] == if shape[id].is_empty() && c.is_exotic() { 1 } else { id as u8 }, "tag");
    check(c.reference_count() as usize == shape[id].len(), "children");
    for (i, &k) in shape[id].iter().enumerate() {
        match c.reference(i as u8) {
            Some(r) => walk(r, k, shape),
            None => check(false, "child lost"),
        }
    }
}

harnesses! {
fn cd_dag() {
    let _ = Cell::empty_cell();
    let base = heap_live();
    {
        let n = 1 + pick(if thorough() { 4 } else { 3 }, "n") as usize;
        let exotic = any_bool("exotic");
        let mut nodes: Vec<Option<Cell>> = Vec::new();
        let mut shape: Vec<Vec<usize>> = Vec::new();
        for i in 0..n {
            let k = if i == 0 { 0 } else { pick(if i + 1 == n { 3 } else { 2 }, "refs") as usize };
            let mut refs = Vec::new();
            for _ in 0..k {
                refs.push(pick(i as u64 - 1, "child") as usize);
            }
            let cs: Vec<&Cell> = refs.iter().map(|&r| nodes[r].as_ref().unwrap()).collect();
            let c = if i == 0 && exotic { pruned(7) } else { mk(i as u8, [0, 100, 200, 400, 900][i], &cs) };
            nodes.push(Some(c));
            shape.push(refs);
        }
        // optionally hold the last one through a virtual wrapper
        let virt = any_bool("virt");
        let weak = match &nodes[n - 1] { Some(c) => Cell::downgrade(c), None => return };
        if virt {
            let c = nodes[n - 1].take().unwrap();
            nodes[n - 1] = Some(Cell::virtualize(c));
        }
        // drop in one of two orders, keeping one node to the end
        let keep = pick(n as u64 - 1, "keep") as usize;
        let rev = any_bool("rev");
        for j in 0..n {
            let i = if rev { n - 1 - j } else { j };
            if i != keep {
                nodes[i] = None;
                if let Some(k) = &nodes[keep] {
                    walk(k.as_ref(), keep, &shape);
                }
            }
        }
        // the last one is alive iff it is reachable from the one kept
        check(weak.upgrade().is_some() == (keep == n - 1), "weak reference");
        let c = nodes[keep].take();
        let d = c.clone();
        drop(c);
        if let Some(d) = &d {
            walk(d.as_ref(), keep, &shape);
        }
        drop(d);
        check(weak.upgrade().is_none(), "released");
        reach("released");
    }
    check(heap_live() == base, "all memory is freed");
}

fn cd_deep() {
    let _ = Cell::empty_cell();
    let base = heap_live();
    {
        let n = [3usize, 40, 300, 12000][pick(3, "n") as usize];
        let refs = 1 + pick(3, "refs") as usize;
        let at = pick(3, "at") as usize; // which child continues the chain
        assume(n < 1000 || at + 1 == refs && refs != 3);
        let shared = n > 1000 || any_bool("shared");
        let first = mk(0, 0, &[]);
        let mut hold = Vec::new();
        let mut c = first.clone();
        for i in 1..n {
            let mut v: Vec<&Cell> = vec![&first; refs];
            let side = mk(1, i as u16 % 500, &[]);
            if !shared {
                for s in v.iter_mut() {
                    *s = &side;
                }
            }
            v[at.min(refs - 1)] = &c;
            c = mk(0, 7, &v);
            if i == n / 2 {
                hold.push(c.clone());
            }
        }
        drop(first);
        if any_bool("hold first") {
            hold.clear();
        }
        drop(c);
        if let Some(h) = hold.pop() {
            // the held half is still intact
            let mut x = h.as_ref();
            let mut left = n / 2;
            while left > 0 {
                x = match x.reference(at.min(refs - 1) as u8) { Some(r) => r, None => { check(false, "child lost"); return } };
                left -= 1;
            }
            check(x.reference_count() == 0 && x.data()[0] == 0, "bottom");
            reach("held");
        }
    }
    check(heap_live() == base, "all memory is freed");
    reach("done");
}

fn cd_tree() {
    // builders and slices own and share cells as well
    let _ = Cell::empty_cell();
    let base = heap_live();
    {
        let a = mk(0, 0, &[]);
        let b = mk(1, 8, &[&a, &a]);
        let c = mk(2, 8, &[&b, &a, &b]);
        let mut bld = CellBuilder::new();
        let s = match c.as_slice() { Ok(s) => s, Err(_) => return };
        let k = pick(3, "refs") as u8;
        let mut s1 = s;
        let pre = s1.load_prefix(8, k);
        if let Ok(p) = pre {
            check(bld.store_slice(p).is_ok(), "fits");
        }
        let parts = s1.load_reference_cloned();
        check(parts.is_ok() == (k < 3), "next reference");
        let fail = bld.store_reference(a.clone()).is_ok() && bld.store_reference(a.clone()).is_ok();
        check(fail == (k <= 2), "capacity");
        let clone = bld.clone();
        drop(c);
        if any_bool("build") {
            match bld.build() {
                Ok(x) => {
                    drop(b);
                    drop(a);
                    check(x.reference_count() == (k + 2).min(4), "references");
                    reach("built");
                }
                Err(_) => check(false, "build"),
            }
        } else {
            drop(bld);
        }
        drop(parts);
        check(clone.references().len() as u8 == (k + 2).min(4), "clone");
    }
    check(heap_live() == base, "all memory is freed");
    reach("done");
}
}
