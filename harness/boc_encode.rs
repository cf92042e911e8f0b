// Encoding of cell trees: what is written is well formed, minimal, and decodes to the same cells.
use crate::vp::*;
use tycho_types::boc::*;
use tycho_types::cell::*;

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/boc_model.rs"));

/// All keys in one bucket chain: equality alone decides.
#[derive(Default)]
struct Same;
impl core::hash::Hasher for Same {
    fn finish(&self) -> u64 {
        0x1234_5678_9abc_def0
    }
    fn write(&mut self, _: &[u8]) {}
}
type Plain = core::hash::BuildHasherDefault<Same>;
/// For concrete hashes: their own first bytes.
#[derive(Default)]
struct Head(u64);
impl core::hash::Hasher for Head {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in &b[..b.len().min(8)] {
            self.0 = self.0 << 8 | *x as u64;
        }
    }
    fn write_usize(&mut self, _: usize) {}
}
type ByHead = core::hash::BuildHasherDefault<Head>;
/// A writer with little room, that takes a few bytes at a time.
struct Tight {
    got: Vec<u8>,
    room: usize,
    step: usize,
}
impl std::io::Write for Tight {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step).min(self.room - self.got.len());
        if n == 0 && !b.is_empty() {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn must<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(v) => v,
        Err(_) => {
            check(false, "unexpected error");
            unreachable!()
        }
    }
}
fn mk(data: &[u8], bits: u16, refs: &[&Cell], exotic: bool) -> Cell {
    let mut b = CellBuilder::new();
    must(b.store_raw(data, bits));
    for r in refs {
        must(b.store_reference((*r).clone()));
    }
    b.set_exotic(exotic);
    must(b.build())
}
/// A pruned branch with the given level mask.
fn pruned(mask: u8, tag: u8) -> Cell {
    let n = mask.count_ones() as usize;
    let mut d = vec![tag; 2 + 34 * n];
    d[0] = 1;
    d[1] = mask;
    for i in 0..n {
        d[2 + 32 * n + 2 * i] = 0;
    }
    mk(&d, d.len() as u16 * 8, &[], true)
}

/// The number of different cells below `c` (in terms of their hashes).
fn collect<'a>(c: &'a DynCell, all: &mut Vec<&'a DynCell>) {
    if all.iter().any(|x| x.repr_hash() == c.repr_hash()) {
        return;
    }
    all.push(c);
    for i in 0..c.reference_count() {
        match c.reference(i) {
            Some(r) => collect(r, all),
            None => check(false, "child lost"),
        }
    }
}
fn bytes_for(n: usize) -> usize {
    let mut k = 1;
    while n >> (8 * k) != 0 {
        k += 1;
    }
    k
}
/// Is the subtree of node `i` the cell `c`?
fn match_node(p: &Parsed, i: usize, c: &DynCell, seen: &mut Vec<usize>) {
    let n = &p.nodes[i];
    check(n.d1 == c.descriptor().d1 && n.d2 == c.descriptor().d2, "written descriptor");
    check(n.data == c.data(), "written data");
    check(n.refs.len() == c.reference_count() as usize, "written references");
    if seen.contains(&i) {
        return;
    }
    seen.push(i);
    for (k, r) in n.refs.iter().enumerate() {
        if let Some(x) = c.reference(k as u8) {
            match_node(p, *r, x, seen);
        }
    }
}
/// Everything about the encoding of `roots`.
fn verify(roots: &[&Cell], crc: bool, plain: bool) {
    let crc = conc(crc as u64) != 0;
    let mut h = ser::BocHeader::<Plain>::default();
    for r in roots {
        h.add_root(r.as_ref());
    }
    let h = h.with_crc(crc).without_hashes(plain);
    let stats = h.compute_stats();
    let mut out = vec![0xaa, 0xbb];
    h.encode(&mut out);
    check(out[..2] == [0xaa, 0xbb], "what was in the vector stays");
    let v = &out[2..];
    let mut w = Vec::new();
    check(h.encode_to_writer(&mut w).is_ok(), "written");
    check(w == v, "the writer gets the same bytes");
    check(stats.total_size == v.len() as u64, "announced size");
    let p = match parse(v) {
        Some(p) => p,
        None => return check(false, "malformed encoding"),
    };
    check(p.end == v.len(), "nothing but the cells");
    let mut all = Vec::new();
    for r in roots {
        collect(r.as_ref(), &mut all);
    }
    check(p.nodes.len() == all.len(), "every cell once");
    check(v[4] == bytes_for(all.len()) as u8 | if crc { 0x40 } else { 0 }, "flags");
    let total: usize = p.nodes.iter().map(|n| {
        2 + n.data.len() + n.refs.len() * bytes_for(all.len()) + if n.d1 & 16 != 0 { 34 * (1 + (n.d1 >> 5).count_ones() as usize) } else { 0 }
    }).sum();
    check(stats.total_cells_size == total as u64 && v[5] == bytes_for(total) as u8, "offset size");
    check(p.roots.len() == roots.len(), "roots");
    let mut seen = Vec::new();
    for (i, r) in p.roots.iter().zip(roots) {
        if !plain {
            match_node(&p, *i, r.as_ref(), &mut seen);
        }
    }
    // and back
    let got = if roots.len() == 1 {
        Boc::decode(v).map(|c| [c].to_vec())
    } else if roots.len() == 2 {
        Boc::decode_pair(v).map(|c| [c.0, c.1].to_vec())
    } else {
        de::BocHeader::decode(v, &de::Options::exact(roots.len())).and_then(|h| {
            let cells = h.finalize(Cell::empty_context())?;
            Ok(h.roots().iter().filter_map(|r| cells.get(*r)).collect())
        })
    };
    match got {
        Ok(g) => {
            check(g.len() == roots.len(), "decoded roots");
            for (a, b) in g.iter().zip(roots) {
                check(a.repr_hash() == b.repr_hash() && a.repr_depth() == b.repr_depth() && a.data() == b.data(), "decoded root");
                if !plain {
                    check(a.descriptor().d1 == b.descriptor().d1 && a.descriptor().d2 == b.descriptor().d2, "decoded descriptor");
                }
                let (mut x, mut y) = (Vec::new(), Vec::new());
                collect(a.as_ref(), &mut x);
                collect(b.as_ref(), &mut y);
                check(x.len() == y.len() && x.iter().zip(&y).all(|(x, y)| x.repr_hash() == y.repr_hash() && x.data() == y.data()), "decoded cells");
            }
        }
        Err(_) => check(false, "the encoding is refused"),
    }
}

harnesses! {
fn be_leaf() {
    // single cells of every length with arbitrary data
    let n = pick(1023, "length");
    if !thorough() && n > 40 && n % 8 > 1 && n < 1015 {
        return;
    }
    let d: [u8; 128] = any_bytes("data");
    let c = mk(&d, n as u16, &[], false);
    let v = Boc::encode(&c);
    let p = match parse(&v) { Some(p) => p, None => return check(false, "malformed encoding") };
    check(p.nodes.len() == 1 && p.nodes[0].d1 == 0 && p.nodes[0].data == c.data(), "written cell");
    match Boc::decode(&v) {
        Ok(x) => {
            check(x.bit_len() == c.bit_len() && x.data() == c.data() && x.repr_hash() == c.repr_hash(), "decoded cell");
            reach("decoded");
        }
        Err(_) => check(false, "the encoding is refused"),
    }
}

fn be_dag() {
    // every graph of a few cells with shared (and equal) subtrees
    let n = 1 + pick(if thorough() { 4 } else { 3 }, "n") as usize;
    let twin = pick(1, "equal cells") == 1;
    let kind = pick(3, "kind");
    let mut nodes: Vec<Cell> = Vec::new();
    for i in 0..n {
        let k = if i == 0 { 0 } else { pick(if i + 1 == n { 3 } else { 2 }, "refs") as usize };
        let mut refs = Vec::new();
        for _ in 0..k {
            refs.push(&nodes[pick(i as u64 - 1, "child") as usize]);
        }
        // with `twin`, cells with the same children are equal without being shared
        let tag = [if twin { 7 } else { i as u8 }, 9];
        let c = if i == 0 && kind > 0 { pruned([1, 3, 7][kind as usize - 1], 5) } else { mk(&tag, if i % 2 == 1 { 16 } else { 11 }, &refs, false) };
        nodes.push(c);
    }
    let roots = if any_bool("two") { [&nodes[n - 1], &nodes[pick(n as u64 - 1, "root") as usize]].to_vec() } else { [&nodes[n - 1]].to_vec() };
    // a bag cannot have more roots than cells
    let mut all = Vec::new();
    for r in &roots {
        collect(r.as_ref(), &mut all);
    }
    if all.len() < roots.len() {
        return;
    }
    verify(&roots, any_bool("crc"), false);
    reach("round trip");
}

fn be_exotic() {
    // Merkle and library cells, and cells read with stored hashes
    let a = mk(&[1], 8, &[], false);
    let b = [a.clone(), pruned(1, 3), pruned(3, 3), pruned(7, 3)][pick(3, "child") as usize].clone();
    let t = mk(&[2], 5, &[&b, &a], false);
    let hd = |d: &mut Vec<u8>, c: &Cell| {
        d.extend_from_slice(c.hash(0).as_slice());
        d.extend_from_slice(&c.depth(0).to_be_bytes());
    };
    let mut d = Vec::new();
    let r = match pick(3, "kind") {
        0 => {
            d.push(3);
            d.extend_from_slice(t.hash(0).as_slice());
            d.extend_from_slice(&t.depth(0).to_be_bytes());
            mk(&d, 280, &[&t], true)
        }
        1 => {
            d.push(4);
            for c in [&t, &b] {
                d.extend_from_slice(c.hash(0).as_slice());
            }
            for c in [&t, &b] {
                d.extend_from_slice(&c.depth(0).to_be_bytes());
            }
            mk(&d, 552, &[&t, &b], true)
        }
        2 => {
            d.push(2);
            d.extend_from_slice(&[4; 32]);
            mk(&d, 264, &[], true)
        }
        _ => t.clone(),
    };
    let top = mk(&[3], 8, &[&r, &a], false);
    // write the hashes into some cells by hand, and read them back
    let v = Boc::encode(&top);
    let p = match parse(&v) { Some(p) => p, None => return check(false, "malformed encoding") };
    let which = pick(p.nodes.len() as u64, "hashes of") as usize;
    let mut body = Vec::new();
    for (i, n) in p.nodes.iter().enumerate() {
        let is_pruned = n.d1 & 8 != 0 && n.data[0] == 1;
        if i == which && !is_pruned {
            body.extend_from_slice(&[n.d1 | 16, n.d2]);
            body.extend(core::iter::repeat_n(0, 34 * (1 + (n.d1 >> 5).count_ones() as usize)));
        } else {
            body.extend_from_slice(&[n.d1, n.d2]);
        }
        body.extend_from_slice(&n.data);
        body.extend(n.refs.iter().map(|r| *r as u8));
    }
    let mut w = [0xb5, 0xee, 0x9c, 0x72, 1, 2, p.nodes.len() as u8, 1, 0].to_vec();
    w.extend_from_slice(&(body.len() as u16).to_be_bytes());
    w.push(0);
    w.extend_from_slice(&body);
    match Boc::decode(&w) {
        Ok(c) => {
            check(c.repr_hash() == top.repr_hash(), "read with hashes");
            let plain = any_bool("plain");
            verify(&[&c], any_bool("crc"), plain);
            let mut h = ser::BocHeader::<Plain>::with_root(c.as_ref()).without_hashes(plain);
            h.add_root(a.as_ref());
            let mut out = Vec::new();
            h.encode(&mut out);
            // the hashes written are right
            if let Some(q) = parse(&out) {
                check(q.nodes.iter().filter(|n| n.d1 & 16 != 0).count() <= !plain as usize, "stored hashes");
                if plain { reach("without hashes") }
            } else {
                check(false, "malformed encoding");
            }
            let _ = hd;
        }
        Err(_) => check(false, "stored hashes are refused"),
    }
    reach("done");
}

fn be_roots() {
    // several roots, in any relation
    let a = mk(&[1], 8, &[], false);
    let b = mk(&[2], 8, &[&a], false);
    let c = mk(&[3], 8, &[&b, &a], false);
    let d = mk(&[4], 8, &[], false);
    let all = [&a, &b, &c, &d];
    let k = 1 + pick(3, "roots") as usize;
    let mut roots = Vec::new();
    for _ in 0..k {
        roots.push(all[pick(3, "root") as usize]);
    }
    let mut cells = Vec::new();
    for r in &roots {
        collect(r.as_ref(), &mut cells);
    }
    if cells.len() < k {
        return;
    }
    verify(&roots, any_bool("crc"), false);
    reach("round trip");
    // the same through a reused cache, and after clearing
    let mut cache = ser::BocHeaderCache::default();
    for r in &roots {
        let x = Boc::encode_with_cache(*r, &mut cache);
        check(x == Boc::encode(*r), "reused cache");
    }
    let mut h = ser::BocHeader::<Plain>::with_root(c.as_ref());
    h.clear();
    let mut g = ser::BocHeader::<Plain>::default();
    for r in &roots {
        h.add_root(r.as_ref());
        g.add_root(r.as_ref());
    }
    let (mut x, mut y) = (Vec::new(), Vec::new());
    h.encode(&mut x);
    g.encode(&mut y);
    check(x == y, "cleared header");
}

fn be_deep() {
    // long chains, around the sizes where the algorithm or the width of the references changes
    let n = [127usize, 128, 129, 130, 131, 200, 254, 255, 256, 257, 258, 1001][pick(if thorough() { 11 } else { 10 }, "n") as usize];
    let side = mk(&[1], 8, &[], false);
    let shared = any_bool("shared");
    let mut c = side.clone();
    for i in 1..n {
        let d = [(i >> 8) as u8, i as u8];
        c = if shared { mk(&d, 16, &[&c, &side, &c], false) } else { mk(&d, 16, &[&c], false) };
    }
    let crc = any_bool("crc");
    let mut h = ser::BocHeader::<Plain>::with_root(c.as_ref()).with_crc(crc);
    if any_bool("side root") {
        h.add_root(side.as_ref());
        h.clear();
        h.add_root(c.as_ref());
    }
    let mut v = Vec::new();
    h.encode(&mut v);
    let mut w = Vec::new();
    check(h.encode_to_writer(&mut w).is_ok() && w == v, "the writer gets the same bytes");
    check(v[4] & 7 == if n < 256 { 1 } else { 2 }, "reference size");
    match parse(&v) {
        Some(p) => check(p.nodes.len() == n && p.end == v.len(), "every cell once"),
        None => return check(false, "malformed encoding"),
    }
    match Boc::decode(&v) {
        Ok(x) => check(x.repr_hash() == c.repr_hash() && x.repr_depth() as usize == n - 1, "decoded"),
        Err(_) => check(false, "the encoding is refused"),
    }
    reach("done");
}

fn be_twins() {
    // one cell as several roots
    let a = mk(&[any_u8("data")], 8, &[], false);
    let k = 2 + pick(1, "roots") as usize;
    let v = if k == 2 { Boc::encode_pair((&a, &a)) } else {
        let mut h = ser::BocHeader::<Plain>::with_root(a.as_ref());
        h.add_root(a.as_ref());
        h.add_root(a.as_ref());
        let mut v = Vec::new();
        h.encode(&mut v);
        v
    };
    let ok = if k == 2 { Boc::decode_pair(&v).is_ok() } else { de::BocHeader::decode(&v, &de::Options::exact(k)).is_ok() };
    check(ok, "bag with more roots than cells is refused");
}

fn be_writer() {
    // a writer that takes the bytes piecewise and may fail at any of them
    // (the checksum of symbolic bytes in two ways is out of reach of the solver)
    let crc = pick(1, "crc") == 1;
    let d: [u8; 2] = if crc { [0x5a, 0xc3] } else { any_bytes("data") };
    let a = mk(&[d[0], 1], 16, &[], false);
    let b = mk(&[d[1], 2], 13, &[&a], false);
    let c = mk(&[3], 3, &[&a, &b], false);
    let h = ser::BocHeader::<Plain>::with_root(c.as_ref()).with_crc(crc);
    let mut v = Vec::new();
    h.encode(&mut v);
    check(v.len() < 34, "more bytes than the harness has room for");
    let mut w = Tight { got: Vec::new(), room: pick(34, "room") as usize, step: 1 + 4 * pick(2, "step") as usize };
    match h.encode_to_writer(&mut w) {
        Ok(()) => {
            check(w.got == v, "the writer gets other bytes");
            reach("written");
        }
        Err(e) => {
            check(e.kind() == std::io::ErrorKind::BrokenPipe, "another error");
            check(w.room < v.len() && w.got.len() == w.room && w.got[..] == v[..w.room], "not the first bytes");
            reach("failed");
        }
    }
}

fn be_many() {
    // more cells than are written at once
    let n = [999usize, 1000, 1001, 2000, 2001, 2600][pick(if thorough() { 5 } else { 4 }, "n") as usize];
    let mut cells: Vec<Option<Cell>> = vec![None; n];
    for i in (0..n).rev() {
        let kids: Vec<Cell> = (3 * i + 1..3 * i + 4).filter_map(|k| cells.get(k).cloned().flatten()).collect();
        let kids: Vec<&Cell> = kids.iter().collect();
        cells[i] = Some(mk(&[(i >> 8) as u8, i as u8], 16, &kids, false));
    }
    let root = cells[0].clone().unwrap();
    let crc = pick(1, "crc") == 1;
    let h = ser::BocHeader::<ByHead>::with_root(root.as_ref()).with_crc(crc);
    let mut v = Vec::new();
    h.encode(&mut v);
    let mut w = Vec::new();
    check(h.encode_to_writer(&mut w).is_ok() && w == v, "the writer gets the same bytes");
    check(h.compute_stats().total_size as usize == v.len(), "announced");
    match parse(&v) {
        Some(p) => check(p.nodes.len() == n && p.end == v.len(), "every cell once"),
        None => return check(false, "malformed encoding"),
    }
    match Boc::decode(&v) {
        Ok(x) => check(x.repr_hash() == root.repr_hash(), "decoded"),
        Err(_) => check(false, "the encoding is refused"),
    }
    reach("done");
}
}
