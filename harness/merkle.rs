// Merkle proofs and updates: what is kept, what is pruned, and that hashes still vouch for the original.
use crate::vp::*;
use tycho_types::cell::*;
use tycho_types::error::Error;
use tycho_types::merkle::*;

fn must<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(v) => v,
        Err(_) => {
            check(false, "unexpected error");
            unreachable!()
        }
    }
}
fn mk(data: &[u8], bits: u16, refs: &[&Cell], exotic: bool) -> Cell {
    let mut b = CellBuilder::new();
    must(b.store_raw(data, bits));
    for r in refs {
        must(b.store_reference((*r).clone()));
    }
    b.set_exotic(exotic);
    must(b.build())
}
/// A Merkle proof cell above `c`.
fn proof_cell(c: &Cell) -> Cell {
    let mut d = vec![3u8];
    d.extend_from_slice(c.hash(0).as_slice());
    d.extend_from_slice(&c.depth(0).to_be_bytes());
    mk(&d, 280, &[c], true)
}
/// A Merkle update cell from `c` to `e`.
fn update_cell(c: &Cell, e: &Cell) -> Cell {
    let mut d = vec![4u8];
    d.extend_from_slice(c.hash(0).as_slice());
    d.extend_from_slice(e.hash(0).as_slice());
    d.extend_from_slice(&c.depth(0).to_be_bytes());
    d.extend_from_slice(&e.depth(0).to_be_bytes());
    mk(&d, 552, &[c, e], true)
}
/// A pruned branch of the given level mask.
fn pruned(mask: u8, tag: u8) -> Cell {
    let n = mask.count_ones() as usize;
    let mut d = vec![tag; 2 + 34 * n];
    d[0] = 1;
    d[1] = mask;
    for i in 0..n {
        d[2 + 32 * n + 2 * i] = 0;
    }
    mk(&d, d.len() as u16 * 8, &[], true)
}
/// An ordinary cell with contents depending on `tag` only.
fn plain(tag: u8, big: bool, refs: &[&Cell]) -> Cell {
    let d = [tag; 40];
    mk(&d, if big { 289 } else { 16 + tag as u16 % 3 }, refs, false)
}

/// Action per cell, found by representation hash.
struct Rules<'a> {
    cells: &'a [Cell],
    acts: &'a [FilterAction],
    other: FilterAction,
}
impl MerkleFilter for Rules<'_> {
    fn check(&self, h: &HashBytes) -> FilterAction {
        for (c, a) in self.cells.iter().zip(self.acts) {
            if c.repr_hash() == h {
                return *a;
            }
        }
        self.other
    }
}
fn same_cell(a: &DynCell, b: &DynCell) -> bool {
    a.repr_hash() == b.repr_hash()
}

/// Checks that `p`, at Merkle depth `m`, is `c` with exactly the skipped children pruned.
fn check_kept(p: &DynCell, c: &DynCell, m: u8, f: &dyn MerkleFilter, big: bool) {
    check(p.bit_len() == c.bit_len() && p.data() == c.data(), "kept data");
    check(p.descriptor().is_exotic() == c.descriptor().is_exotic(), "kept kind");
    check(p.reference_count() == c.reference_count(), "kept children");
    check(p.hash(m) == c.hash(m) && p.depth(m) == c.depth(m), "the original hash below the pruning");
    let m = m + c.descriptor().is_merkle() as u8;
    for i in 0..c.reference_count() {
        let (Some(pc), Some(cc)) = (p.reference(i), c.reference(i)) else { return check(false, "child") };
        match f.check(cc.repr_hash()) {
            FilterAction::IncludeSubtree => check(same_cell(pc, cc), "a whole subtree is kept"),
            FilterAction::Skip if cc.reference_count() > 0 || big && cc.bit_len() > 288 => check_pruned(pc, cc, m),
            _ => check_kept(pc, cc, m, f, big),
        }
    }
}
/// Checks that `p` is the pruned branch standing for `c` at Merkle depth `m`.
fn check_pruned(p: &DynCell, c: &DynCell, m: u8) {
    let d = p.descriptor();
    let mask = c.descriptor().level_mask().to_byte();
    check(d.is_pruned_branch() && p.reference_count() == 0, "a skipped subtree is pruned");
    check(d.level_mask().to_byte() == mask | 1 << m, "level of a pruned branch");
    // 1 type, 2 mask, then hashes and depths of all levels up to m
    let mut want = vec![1u8, mask | 1 << m];
    let levels: Vec<u8> = (0..=m).filter(|l| *l == 0 || mask >> (l - 1) & 1 == 1).collect();
    for l in &levels {
        want.extend_from_slice(c.hash(*l).as_slice());
    }
    for l in &levels {
        want.extend_from_slice(&c.depth(*l).to_be_bytes());
    }
    check(p.data() == &want[..] && p.bit_len() as usize == want.len() * 8, "contents of a pruned branch");
    for l in 0..=m {
        check(p.hash(l) == c.hash(l) && p.depth(l) == c.depth(l), "a pruned branch stands for the original");
    }
}

/// `n` cells, each with children among the earlier ones; `exotic`: one of them is a Merkle cell.
fn graph(n: usize, exotic: bool, max_refs: u64) -> Vec<Cell> {
    let mut v: Vec<Cell> = Vec::new();
    let kind = if exotic { 1 + pick(3, "exotic") } else { 0 };
    let at = if kind == 0 { 0 } else { 1 + pick(n as u64 - 2, "at") as usize };
    for i in 0..n {
        let c = if kind == 1 && i == at || kind == 3 && i == at {
            proof_cell(&v[i - 1])
        } else if kind == 2 && i == at {
            update_cell(&v[i - 1], &v[0])
        } else if i == 0 {
            if kind == 3 || kind == 4 { pruned(1, 5) } else { plain(0, true, &[]) }
        } else {
            let k = 1 + pick(max_refs - 1, "refs") as usize;
            let mut refs = vec![&v[i - 1]];
            for _ in 1..k {
                refs.push(&v[pick(i as u64 - 1, "child") as usize]);
            }
            plain(i as u8, false, &refs)
        };
        v.push(c);
    }
    v
}
fn action(i: u64) -> FilterAction {
    [FilterAction::Skip, FilterAction::Include, FilterAction::IncludeSubtree][i as usize]
}

fn proof(n: usize, exotic: bool, subtrees: bool) {
    let v = graph(n, exotic, 2);
    // the whole tree must not depend on cells pruned outside of it
    assume(v[n - 1].level() == 0);
    let acts: Vec<_> = (0..n).map(|_| action(pick(1 + subtrees as u64, "act"))).collect();
    let f = Rules { cells: &v, acts: &acts, other: FilterAction::Include };
    let root = v[n - 1].as_ref();
    let big = pick(1, "big") == 1;
    let any_root = pick(1, "any root") == 1;
    let r = MerkleProof::create(root, &f).allow_different_root(any_root).prune_big_cells(big).build();
    if !any_root && acts[n - 1] == FilterAction::Skip {
        check(matches!(r, Err(Error::EmptyProof)), "a proof without its root is refused");
        return;
    }
    let p = must(r);
    check(p.hash == *root.repr_hash() && p.depth == root.repr_depth(), "proof of the root");
    check(p.cell.hash(0) == &p.hash && p.cell.depth(0) == p.depth, "the pruned tree has the original hash");
    check_kept(p.cell.as_ref(), root, 0, &f, big);
    reach("proof");
    let c = must(CellBuilder::build_from(&p));
    check(c.descriptor().is_exotic() && c.level() == 0, "proof cell");
    check(matches!(c.parse_exotic::<MerkleProof>(), Ok(x) if x == p), "a proof loads back");
    check(matches!(c.parse_exotic::<MerkleProofRef<'_>>(), Ok(x) if x == p), "a proof loads back");
}

fn update(n: usize, inside: bool) {
    let old = graph(n, inside, 2);
    assume(old[n - 1].level() == 0);
    let exotic = pick(2, "exotic");
    // the new tree: up to two new cells above any old ones
    let x = &old[pick(n as u64 - 1, "reuse") as usize];
    // cells inside a Merkle proof may have a level
    assume(x.level() <= (exotic == 1) as u8);
    let x2 = &old[pick(n as u64 - 1, "reuse") as usize];
    assume(x2.level() == 0);
    let fresh = if exotic == 1 { proof_cell(x) } else { plain(50, false, &[x, x2]) };
    let new = match pick(3, "top") {
        0 => plain(51, false, &[&fresh, x2]),
        1 if x.level() == 0 => plain((n - 1) as u8, false, &[x2, &fresh, x]),
        2 if x.level() == 0 => x.clone(),
        _ => plain(52, exotic == 2, &[]),
    };
    let root = &old[n - 1];
    // visited cells: the root and cells below visited ones
    let mut vis = vec![false; n];
    vis[n - 1] = true;
    for i in (0..n - 1).rev() {
        let parent = (i + 1..n).any(|j| vis[j] && old[j].references().any(|r| same_cell(r, old[i].as_ref())));
        vis[i] = parent && pick(1, "visit") == 1;
    }
    let acts: Vec<_> = vis.iter().map(|v| action(*v as u64)).collect();
    let f = Rules { cells: &old, acts: &acts, other: FilterAction::Skip };
    let u = must(MerkleUpdate::create(root.as_ref(), new.as_ref(), &f).build());
    check(u.old_hash == *root.repr_hash() && u.old_depth == root.repr_depth(), "old root");
    check(u.new_hash == *new.repr_hash() && u.new_depth == new.repr_depth(), "new root");
    check(u.old.hash(0) == &u.old_hash && u.old.depth(0) == u.old_depth, "the pruned old tree has the original hash");
    check(u.new.hash(0) == &u.new_hash && u.new.depth(0) == u.new_depth, "the pruned new tree has the original hash");
    let c = must(CellBuilder::build_from(&u));
    check(matches!(c.parse_exotic::<MerkleUpdate>(), Ok(x) if x == u), "an update loads back");
    match u.apply(root) {
        Ok(g) => {
            check(same_cell(g.as_ref(), new.as_ref()), "the update leads to the new tree");
            fn equal(a: &DynCell, b: &DynCell) -> bool {
                a.data() == b.data() && a.repr_hash() == b.repr_hash() && a.descriptor().d1 == b.descriptor().d1
                    && a.reference_count() == b.reference_count()
                    && a.references().zip(b.references()).all(|(x, y)| equal(x, y))
            }
            check(equal(g.as_ref(), new.as_ref()), "the update leads to the new tree");
            reach("applied");
        }
        Err(_) => check(false, "the update applies to the old tree"),
    }
    let other = plain(60, false, &[&old[0]]);
    check(u.apply(&other).is_err(), "the update applies to no other tree");
}

/// Which of the old cells are part of the new tree, and which of them the update shows (as nodes or pruned).
fn parts(old: &[Cell], new: &[&Cell]) -> (Vec<bool>, Vec<bool>) {
    let n = old.len();
    let mut shown = vec![false; n];
    let mut used = vec![false; n];
    for i in (0..n).rev() {
        shown[i] = new.iter().any(|c| same_cell(c.as_ref(), old[i].as_ref()));
        used[i] = shown[i] || (i + 1..n).any(|j| used[j] && old[j].references().any(|r| same_cell(r, old[i].as_ref())));
    }
    (used, shown)
}
/// Removed cells: how many references each old cell loses. `hidden`: some kept cell, with children
/// of its own, is referenced by a removed one but kept only deep inside what the update prunes.
fn removed(n: usize, inside: bool, hidden: bool) {
    let old = graph(n, inside, 2);
    let root = &old[n - 1];
    assume(root.level() == 0);
    let x = &old[pick(n as u64 - 1, "reuse") as usize];
    let fresh = (inside && pick(1, "merkle") == 1).then(|| proof_cell(x));
    assume(x.level() <= fresh.is_some() as u8);
    let new = if pick(1, "same") == 1 { root.clone() } else { plain(51, false, &[fresh.as_ref().unwrap_or(x)]) };
    // an old cell is shown pruned, with nothing below it
    let mut at_all = vec![&new];
    if !same_cell(new.as_ref(), root.as_ref()) {
        let f = fresh.as_ref().unwrap_or(x);
        at_all.push(f);
        if !old.iter().any(|c| same_cell(c.as_ref(), f.as_ref())) {
            at_all.push(x);
        }
    }
    let (used, shown) = parts(&old, &at_all);
    let is_hidden = (0..n).any(|i| used[i] && !shown[i] && old[i].reference_count() > 0
        && (i + 1..n).any(|j| !used[j] && old[j].references().any(|r| same_cell(r, old[i].as_ref()))));
    assume(is_hidden == hidden);
    let acts = vec![FilterAction::Include; n];
    let f = Rules { cells: &old, acts: &acts, other: FilterAction::Skip };
    let u = must(MerkleUpdate::create(root.as_ref(), new.as_ref(), &f).build());
    let m = must(u.compute_removed_cells(root.as_ref()));
    let mut total = 0;
    for i in 0..n {
        let mut lost = if i == n - 1 && !used[i] { 1 } else { 0 };
        for j in i + 1..n {
            if !used[j] {
                lost += old[j].references().filter(|r| same_cell(*r, old[i].as_ref())).count() as u32;
            }
        }
        let got = m.get(old[i].repr_hash()).copied().unwrap_or(0);
        if used[n - 1] && i == n - 1 {
            // the old root itself is kept inside the new tree
            continue;
        }
        if hidden {
            check(got >= lost, "references lost");
            check(got == lost, "references of a kept cell count as lost");
        } else {
            check(got == lost, "references lost");
        }
        total += (lost > 0) as usize;
    }
    check(m.len() <= total + 1 || hidden, "no other cells");
    check(u.compute_removed_cells(x.as_ref()).is_err() || same_cell(x.as_ref(), root.as_ref()), "another tree is refused");
    reach("removed");
}

harnesses! {
fn mk_proof() {
    // trees and shared subtrees of ordinary cells
    let n = 2 + pick(if thorough() { 3 } else { 2 }, "n") as usize;
    proof(n, false, true);
}
fn mk_proof_exotic() {
    // with a Merkle proof, update or pruned branch inside
    let n = 3 + pick(if thorough() { 2 } else { 1 }, "n") as usize;
    proof(n, true, thorough());
}
fn mk_load() {
    // a proof or update cell is accepted exactly if it vouches for its contents
    let a = plain(1, false, &[&plain(2, false, &[])]);
    let b = plain(3, false, &[&pruned([1, 3][pick(1, "mask") as usize], 9)]);
    let (x, y) = if pick(1, "order") == 0 { (&a, &b) } else { (&b, &a) };
    let update = pick(1, "update") == 1;
    let mut d = if update { vec![4u8] } else { vec![3u8] };
    d.extend_from_slice(x.hash(0).as_slice());
    if update {
        d.extend_from_slice(y.hash(0).as_slice());
    }
    d.extend_from_slice(&x.depth(0).to_be_bytes());
    if update {
        d.extend_from_slice(&y.depth(0).to_be_bytes());
    }
    let n = d.len();
    let at = pick(n as u64 - 1, "at") as usize;
    let delta = any_u8("delta");
    let orig = d[at];
    d[at] ^= delta;
    let bits = n as u16 * 8;
    // without the builder's own checks: as an ordinary cell is enough for a wrong type
    let mut bl = CellBuilder::new();
    must(bl.store_raw(&d, bits));
    must(bl.store_reference(x.clone()));
    if update {
        must(bl.store_reference(y.clone()));
    }
    bl.set_exotic(true);
    let c = match bl.build() {
        Ok(c) => c,
        Err(_) => {
            check(delta != 0, "a correct proof cell builds");
            return;
        }
    };
    check(d[0] == [3, 4][update as usize], "only the right type builds");
    let ok = delta == 0;
    if update {
        let r = c.parse_exotic::<MerkleUpdate>();
        check(r.is_ok() == ok, "an update is accepted exactly if both hashes and depths match");
        check(c.parse_exotic::<MerkleProof>().is_err(), "an update is no proof");
        if let Ok(u) = r {
            check(u.old_hash == *x.hash(0) && u.new_hash == *y.hash(0) && u.old_depth == x.depth(0) && u.new_depth == y.depth(0), "update fields");
            check(same_cell(u.old.as_ref(), x.as_ref()) && same_cell(u.new.as_ref(), y.as_ref()), "update cells");
            reach("update");
        }
    } else {
        let r = c.parse_exotic::<MerkleProof>();
        check(r.is_ok() == ok && c.parse_exotic::<MerkleProofRef<'_>>().is_ok() == ok, "a proof is accepted exactly if hash and depth match");
        check(c.parse_exotic::<MerkleUpdate>().is_err(), "a proof is no update");
        if let Ok(p) = r {
            check(p.hash == *x.hash(0) && p.depth == x.depth(0) && same_cell(p.cell.as_ref(), x.as_ref()), "proof fields");
            reach("proof");
        }
    }
    // the same data in an ordinary cell
    let o = if update { mk(&d, bits, &[x, y], false) } else { mk(&d, bits, &[x], false) };
    check(<MerkleProof as LoadCell>::load_from_cell(o.as_ref()).is_err(), "an ordinary cell is no proof");
    check(<MerkleProofRef<'_> as LoadCell>::load_from_cell(o.as_ref()).is_err(), "an ordinary cell is no proof");
    check(<MerkleUpdate as LoadCell>::load_from_cell(o.as_ref()).is_err(), "an ordinary cell is no update");
    let _ = orig;
}
fn mk_path() {
    // a proof for a single cell keeps a path to it
    let n = 2 + pick(if thorough() { 3 } else { 2 }, "n") as usize;
    let v = graph(n, false, 3);
    let t = pick(n as u64, "target") as usize;
    let missing = plain(77, false, &[]);
    let (root, target) = (v[n - 1].as_ref(), if t < n { &v[t] } else { &missing });
    let r = MerkleProof::create_for_cell(root, target.repr_hash()).build();
    if t == n {
        check(r.is_err(), "no proof of a cell that is not there");
        reach("missing");
        return;
    }
    let p = must(r);
    check(p.hash == *root.repr_hash() && p.cell.hash(0) == &p.hash && p.cell.depth(0) == p.depth, "the pruned tree has the original hash");
    // walk both trees: the target is reachable through kept cells
    fn find(p: &DynCell, c: &DynCell, h: &HashBytes) -> bool {
        if p.descriptor().is_pruned_branch() {
            return false;
        }
        check(p.data() == c.data() && p.reference_count() == c.reference_count(), "kept cell");
        if c.repr_hash() == h {
            return true;
        }
        (0..c.reference_count()).any(|i| match (p.reference(i), c.reference(i)) {
            (Some(x), Some(y)) => find(x, y, h),
            _ => false,
        })
    }
    check(find(p.cell.as_ref(), root, target.repr_hash()), "the cell is in its proof");
    reach("found");
}
fn mk_update() {
    // old and new trees over common cells; the filter covers what was visited of the old tree
    update(3 + pick(1, "n") as usize, false)
}
fn mk_update_exotic() {
    // a Merkle proof, update or pruned branch inside the old tree
    update(if thorough() { 3 + pick(1, "n") as usize } else { 3 }, true)
}
fn mk_hostile() {
    // an update whose parts do not belong together never leads to anything but its new hash
    let a0 = plain(1, false, &[]);
    let a = plain(2, false, &[&a0]);
    let old = plain(3, false, &[&a]);
    let other = plain(4, false, &[&a0]);
    // new tree with a pruned branch for one of several cells
    let target = [&a0, &a, &old, &other][pick(3, "target") as usize];
    let pb = must(make_pruned_branch(target.as_ref(), pick(2, "level") as u8, Cell::empty_context()));
    let depth = pick(1, "inside") == 1;
    let new = if depth {
        let inner = plain(6, false, &[&pb]);
        plain(5, false, &[&proof_cell(&inner)])
    } else {
        plain(5, false, &[&pb])
    };
    let old_part = [old.clone(), must(make_pruned_branch(old.as_ref(), 0, Cell::empty_context())), plain(3, false, &[&must(make_pruned_branch(a.as_ref(), 0, Cell::empty_context()))]), other.clone()][pick(3, "old") as usize].clone();
    let u = MerkleUpdate {
        old_hash: *old.repr_hash(),
        old_depth: old.repr_depth(),
        new_hash: *new.hash(0),
        new_depth: new.depth(0),
        old: old_part,
        new,
    };
    match u.apply(&old) {
        Ok(x) => {
            check(x.repr_hash() == &u.new_hash, "an applied update has the promised hash");
            reach("applied");
        }
        Err(_) => reach("refused"),
    }
    let _ = u.compute_removed_cells(old.as_ref());
}
fn mk_removed() {
    removed(3 + pick(1, "n") as usize, false, false)
}
fn mk_removed_exotic() {
    removed(3 + pick(if thorough() { 2 } else { 1 }, "n") as usize, true, false)
}
fn mk_removed_hidden() {
    removed(4, false, true)
}
}
