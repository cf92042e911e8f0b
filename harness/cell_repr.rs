// Cell identity: representation hashes, depths, descriptors and exotic cell validation against an
// independent model of the cell format.
use crate::vp::*;
use sha2::Digest;
use tycho_types::cell::*;
use tycho_types::error::Error;

type HD = ([u8; 32], u16);

/// What a cell looks like from its parent: hash and depth at each of the four levels.
#[derive(Clone)]
struct Node {
    cell: Cell,
    lv: [HD; 4],
    mask: u8,
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Ord,
    Pruned,
    Lib,
    Proof,
    Update,
}

/// The number of significant levels up to `l`.
fn idx(mask: u8, l: usize) -> usize {
    (mask & ((1u16 << l) - 1) as u8 & 7).count_ones() as usize
}
/// Hashes and depths at each level; `None` if the depth limit is exceeded.
fn model(kind: Kind, data: &Bits, mask: u8, ch: &[Node]) -> Option<[HD; 4]> {
    let n = data.len();
    let mut d = data.clone();
    if n % 8 != 0 {
        d.fill(1, 1);
        while d.len() % 8 != 0 {
            d.fill(0, 1);
        }
    }
    let raw: Vec<u8> = (0..d.len() / 8).map(|i| d.byte(i)).collect();
    let d2 = (n / 8 + n.div_ceil(8)) as u8;
    let exotic = if kind == Kind::Ord { 0 } else { 8 };
    let off = (kind == Kind::Proof || kind == Kind::Update) as usize;
    let mut own: Vec<HD> = Vec::with_capacity(4);
    for l in 0..4usize {
        if kind == Kind::Pruned {
            if l != 0 {
                break;
            }
        } else if l > 0 && mask >> (l - 1) & 1 == 0 {
            continue;
        }
        let m = if kind == Kind::Pruned { mask } else { ((1u16 << l) - 1) as u8 };
        let mut h = sha2::Sha256::new();
        h.update([m << 5 | exotic | ch.len() as u8, d2]);
        match own.last() {
            None => h.update(&raw),
            Some(p) => h.update(p.0),
        }
        let mut depth = 0u16;
        for c in ch {
            let cd = c.lv[(l + off).min(3)].1;
            if cd == u16::MAX {
                return None;
            }
            depth = depth.max(cd + 1);
            h.update(cd.to_be_bytes());
        }
        for c in ch {
            h.update(c.lv[(l + off).min(3)].0);
        }
        own.push((h.finalize().into(), depth));
    }
    let mut r = [([0u8; 32], 0u16); 4];
    for l in 0..4usize {
        let i = idx(mask, l);
        r[l] = if kind == Kind::Pruned {
            let total = idx(mask, 3);
            if i == total {
                own[0]
            } else {
                let mut hh = [0u8; 32];
                hh.copy_from_slice(&raw[2 + 32 * i..2 + 32 * i + 32]);
                let o = 2 + 32 * total + 2 * i;
                (hh, u16::from_be_bytes([raw[o], raw[o + 1]]))
            }
        } else {
            own[i]
        };
    }
    Some(r)
}

fn eq32(a: &[u8], b: &[u8; 32]) -> bool {
    let mut d = 0;
    for i in 0..32 {
        d |= a[i] ^ b[i];
    }
    d == 0
}

fn put(b: &mut CellBuilder, data: &Bits) {
    let raw: Vec<u8> = (0..data.len().div_ceil(8)).map(|i| data.byte(i)).collect();
    check(b.store_raw(&raw, data.len() as u16).is_ok(), "fits");
}
fn build(kind: Kind, data: &Bits, ch: &[Node]) -> Result<Cell, Error> {
    let mut b = CellBuilder::new();
    put(&mut b, data);
    b.set_exotic(kind != Kind::Ord);
    for c in ch {
        check(b.store_reference(c.cell.clone()).is_ok(), "fits");
    }
    b.build()
}
fn verify(c: &Cell, kind: Kind, data: &Bits, mask: u8, ch: &[Node], lv: &[HD; 4]) {
    let d = c.descriptor();
    check(d.level_mask().to_byte() == mask, "level mask");
    check(d.is_exotic() == (kind != Kind::Ord), "exotic flag");
    check(d.reference_count() as usize == ch.len() && c.reference_count() as usize == ch.len(), "reference count");
    let ty = match kind {
        Kind::Ord => CellType::Ordinary,
        Kind::Pruned => CellType::PrunedBranch,
        Kind::Lib => CellType::LibraryReference,
        Kind::Proof => CellType::MerkleProof,
        Kind::Update => CellType::MerkleUpdate,
    };
    check(c.cell_type() == ty, "cell type");
    check(c.level() as usize == idx(mask, 3), "level");
    check(c.bit_len() as usize == data.len(), "bit length");
    let mut t = data.clone();
    if t.len() % 8 != 0 {
        t.fill(1, 1);
    }
    check(c.data().len() == data.len().div_ceil(8), "byte length");
    t.check_raw(c.data(), "data with completion tag");
    for l in 0..4u8 {
        check(eq32(c.hash(l).as_ref(), &lv[l as usize].0), "hash at a level");
        check(c.depth(l) == lv[l as usize].1, "depth at a level");
    }
    check(eq32(c.repr_hash().as_ref(), &lv[3].0), "representation hash");
    check(c.repr_depth() == lv[3].1, "representation depth");
    let full = (lv[0].1 == u16::MAX) | (lv[1].1 == u16::MAX) | (lv[2].1 == u16::MAX) | (lv[3].1 == u16::MAX);
    check(c.has_max_depth() == full, "whether a depth is the largest");
    for i in 0..=4u8 {
        match c.reference(i) {
            Some(r) => check((i as usize) < ch.len() && std::ptr::eq(r.data().as_ptr(), ch[i as usize].cell.data().as_ptr()), "reference order"),
            None => check(i as usize >= ch.len(), "reference missing"),
        }
    }
}

fn leaf(data: &Bits) -> Node {
    match (build(Kind::Ord, data, &[]), model(Kind::Ord, data, 0, &[])) {
        (Ok(cell), Some(lv)) => Node { cell, lv, mask: 0 },
        _ => {
            check(false, "leaf");
            unreachable!()
        }
    }
}
/// An arbitrary pruned branch with the given level mask.
fn pruned(mask: u8) -> Node {
    let n = idx(mask, 3);
    let mut d = Bits::new();
    d.uint(1, 8);
    d.uint(mask as u128, 8);
    for _ in 0..n {
        d.bytes(&any_bytes::<32>("ph"), 256);
    }
    for _ in 0..n {
        d.bytes(&any_bytes::<2>("pd"), 16);
    }
    match (build(Kind::Pruned, &d, &[]), model(Kind::Pruned, &d, mask, &[])) {
        (Ok(cell), Some(lv)) => Node { cell, lv, mask },
        _ => {
            check(false, "pruned branch");
            unreachable!()
        }
    }
}
fn child(kind: u64) -> Node {
    match kind {
        0 => {
            let mut d = Bits::new();
            d.bytes(&any_bytes::<2>("leaf"), 9);
            leaf(&d)
        }
        1 => pruned(1),
        2 => pruned(3),
        _ => pruned(7),
    }
}

harnesses! {
fn ce_leaf() {
    let n = pick(if thorough() { 1023 } else { 66 }, "n") as usize;
    let n = if thorough() { n } else if n > 56 { 1013 + (n - 56) } else if n > 40 { 436 + n } else { n };
    let mut d = Bits::new();
    d.bytes(&any_bytes::<128>("d"), n);
    let x = leaf(&d);
    verify(&x.cell, Kind::Ord, &d, 0, &[], &x.lv);
    let y = leaf(&d);
    check(x.cell == y.cell && x.cell.as_ref() == y.cell.as_ref(), "same content, same identity");
    let mut e = d.clone();
    if n > 0 {
        let k = n - 1;
        e.0[k] ^= 1;
        let z = leaf(&e);
        check((x.cell == z.cell) == eq32(x.cell.repr_hash().as_ref(), &z.lv[3].0), "equality is hash equality");
    }
    if n == 0 {
        check(x.cell.as_ref() == Cell::empty_cell_ref(), "empty cell");
        reach("empty");
    }
    if n == 1023 {
        reach("full");
    }
}

fn ce_tree() {
    let k = pick(4, "k") as usize;
    let mut ch = Vec::new();
    for i in 0..k {
        // all mixes for up to two children, leaf or level 1 (with one arbitrary kind) for more
        let kind = if k <= 2 || i == 1 { pick(3, "kind") } else { pick(if thorough() { 2 } else { 1 }, "kind") };
        ch.push(child(kind));
    }
    let mask = ch.iter().fold(0, |m, c| m | c.mask);
    let mut d = Bits::new();
    d.bytes(&any_bytes::<3>("d"), 17);
    let want = model(Kind::Ord, &d, mask, &ch);
    match (build(Kind::Ord, &d, &ch), want) {
        (Ok(c), Some(lv)) => {
            verify(&c, Kind::Ord, &d, mask, &ch, &lv);
            if k == 4 {
                reach("four children");
            }
            if mask == 7 {
                reach("level 3");
            }
            // one more layer on top
            let top = [Node { cell: c, lv, mask }];
            let e = Bits::zeros(3);
            match (build(Kind::Ord, &e, &top), model(Kind::Ord, &e, mask, &top)) {
                (Ok(c), Some(lv)) => verify(&c, Kind::Ord, &e, mask, &top, &lv),
                (Err(Error::DepthOverflow), None) => reach("depth overflow above"),
                _ => check(false, "outcome above"),
            }
        }
        (Err(Error::DepthOverflow), None) => reach("depth overflow"),
        _ => check(false, "outcome"),
    }
}

fn ce_merkle() {
    let up = pick(1, "update") as usize;
    let mut ch = Vec::new();
    for _ in 0..=up {
        ch.push(child(pick(3, "kind")));
    }
    let kind = if up == 1 { Kind::Update } else { Kind::Proof };
    let mut d = Bits::new();
    d.uint(3 + up as u128, 8);
    d.bytes(&any_bytes::<68>("d"), 272 * (up + 1));
    let mask = ch.iter().fold(0, |m, c| m | c.mask) >> 1;
    match (build(kind, &d, &ch), model(kind, &d, mask, &ch)) {
        (Ok(c), Some(lv)) => {
            verify(&c, kind, &d, mask, &ch, &lv);
            if up == 1 { reach("update") } else { reach("proof") }
            let top = [Node { cell: c, lv, mask }, child(1)];
            let mask = mask | 1;
            let e = Bits::zeros(3);
            match (build(Kind::Ord, &e, &top), model(Kind::Ord, &e, mask, &top)) {
                (Ok(c), Some(lv)) => verify(&c, Kind::Ord, &e, mask, &top, &lv),
                (Err(Error::DepthOverflow), None) => reach("depth overflow above"),
                _ => check(false, "outcome above"),
            }
        }
        (Err(Error::DepthOverflow), None) => reach("depth overflow"),
        _ => check(false, "outcome"),
    }
}

fn ce_exotic() {
    const LENS: [usize; 22] = [0, 1, 7, 8, 15, 16, 256, 263, 264, 265, 279, 280, 281, 287, 288, 289, 551, 552, 553, 560, 832, 1023];
    let n = LENS[pick(21, "n") as usize];
    let data: [u8; 128] = any_bytes("d");
    let mut d = Bits::new();
    d.bytes(&data, n);
    let k = pick(4, "refs") as usize;
    let kind = pick(1, "child");
    let mut ch = Vec::new();
    for i in 0..k {
        ch.push(child(if i == 1 { kind } else { 0 }));
    }
    let m = if k > 1 { kind as u8 } else { 0 };
    let r = build(Kind::Lib, &d, &ch);
    let ty = if n >= 8 { data[0] } else { 0 };
    let want = match ty {
        1 => {
            let mask = data[1];
            let lv = (mask & 1) + (mask >> 1 & 1) + (mask >> 2 & 1);
            if n >= 16 && mask <= 7 && lv > 0 && n == 16 + 272 * lv as usize && k == 0 { Some((Kind::Pruned, conc(mask as u64) as u8)) } else { None }
        }
        2 => if n == 264 && k == 0 { Some((Kind::Lib, 0)) } else { None },
        3 => if n == 280 && k == 1 { Some((Kind::Proof, m >> 1)) } else { None },
        4 => if n == 552 && k == 2 { Some((Kind::Update, m >> 1)) } else { None },
        _ => None,
    };
    match (r, want) {
        (Ok(c), Some((kind, mask))) => match model(kind, &d, mask, &ch) {
            Some(lv) => {
                verify(&c, kind, &d, mask, &ch, &lv);
                match kind {
                    Kind::Pruned => reach("pruned"),
                    Kind::Lib => reach("library"),
                    Kind::Proof => reach("proof"),
                    _ => reach("update"),
                }
            }
            None => check(false, "depth overflow accepted"),
        },
        (Err(Error::InvalidCell), None) => reach("rejected"),
        (Err(Error::DepthOverflow), Some((kind, mask))) => check(model(kind, &d, mask, &ch).is_none(), "depth overflow reported"),
        (Ok(_), None) => check(false, "invalid exotic cell accepted"),
        (Err(_), _) => check(false, "valid exotic cell rejected"),
    }
}

fn ce_virtual() {
    // a tree with level 1 leaves: virtualization shows the level 0 hashes everywhere
    let k = pick(3, "k") as usize;
    let mut ch = Vec::new();
    for _ in 0..k {
        ch.push(child(pick(1, "kind")));
    }
    let mut d = Bits::new();
    d.bytes(&any_bytes::<3>("d"), 17);
    let c = match build(Kind::Ord, &d, &ch) {
        Ok(c) => c,
        Err(_) => { check(ch.iter().any(|c| c.lv[0].1 == 65535 || c.lv[1].1 == 65535), "outcome"); return }
    };
    let top = Node { lv: [(*c.hash(0).as_array(), c.depth(0)); 4], mask: 0, cell: c };
    let dup = Cell::virtualize(top.cell.clone());
    let by_ref = top.cell.virtualize();
    for v in [dup.as_ref(), by_ref] {
        for l in 0..4 {
            check(eq32(v.hash(l).as_ref(), &top.lv[0].0) && v.depth(l) == top.lv[0].1, "virtual hash and depth");
        }
        check(eq32(v.repr_hash().as_ref(), &top.lv[0].0), "virtual representation hash");
        check(v.bit_len() == 17 && v.reference_count() as usize == k && std::ptr::eq(v.data().as_ptr(), top.cell.data().as_ptr()), "virtual data");
        for i in 0..k {
            let (r, rc) = match (v.reference(i as u8), v.reference_cloned(i as u8)) {
                (Some(r), Some(rc)) => (r, rc),
                _ => { check(false, "virtual child"); return }
            };
            for l in 0..4 {
                check(eq32(r.hash(l).as_ref(), &ch[i].lv[0].0) && r.depth(l) == ch[i].lv[0].1, "virtual child hash");
                check(eq32(rc.hash(l).as_ref(), &ch[i].lv[0].0) && rc.depth(l) == ch[i].lv[0].1, "virtual child hash");
            }
        }
        check(v.reference(k as u8).is_none(), "no extra child");
    }
    if k == 3 {
        reach("three");
    }
    reach("done");
}
}
