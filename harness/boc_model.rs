// A plain parser of the bag of cells format, shared by the BOC harnesses.

pub struct Node {
    pub d1: u8,
    pub d2: u8,
    pub data: Vec<u8>,
    pub refs: Vec<usize>,
}
pub struct Parsed {
    pub nodes: Vec<Node>,
    pub roots: Vec<usize>,
    pub end: usize,
}
pub fn be(v: &[u8]) -> u64 {
    let mut r = 0;
    for b in v {
        r = r << 8 | *b as u64;
    }
    r
}
pub fn crc32(v: &[u8]) -> u32 {
    let mut x = !0u32;
    for b in v {
        x ^= *b as u32;
        for _ in 0..8 {
            x = x >> 1 ^ 0x82F6_3B78 & 0u32.wrapping_sub(x & 1);
        }
    }
    !x
}
/// Reads the next `n` bytes.
fn take<'a>(v: &mut &'a [u8], n: u64) -> Option<&'a [u8]> {
    if n > v.len() as u64 {
        return None;
    }
    let (a, b) = v.split_at(n as usize);
    *v = b;
    Some(a)
}
/// The structure of a bag of cells; bytes after its end are ignored.
pub fn parse(all: &[u8]) -> Option<Parsed> {
    let mut v = all;
    let tag = take(&mut v, 4)?;
    let kind = if tag == [0xb5, 0xee, 0x9c, 0x72] {
        0
    } else if tag == [0x68, 0xff, 0x65, 0xf3] {
        1
    } else if tag == [0xac, 0xc3, 0xa7, 0x28] {
        2
    } else {
        return None;
    };
    let flags = take(&mut v, 1)?[0];
    let os = take(&mut v, 1)?[0] as u64;
    let (idx, crc, cache, rs) = match kind {
        0 => (flags & 0x80 != 0, flags & 0x40 != 0, flags & 0x20 != 0, (flags & 7) as u64),
        1 => (true, false, false, flags as u64),
        _ => (true, true, false, flags as u64),
    };
    if cache && !idx || rs == 0 || rs > 4 || os == 0 || os > 8 {
        return None;
    }
    let (rs, os) = (conc(rs), conc(os));
    let cells = be(take(&mut v, rs)?);
    let roots = be(take(&mut v, rs)?);
    let absent = be(take(&mut v, rs)?);
    let total = be(take(&mut v, os)?);
    if roots == 0 || roots > cells || absent != 0 || kind != 0 && roots != 1 || roots > 32 {
        return None;
    }
    // every cell takes two bytes, and every cell but the roots is referenced from somewhere
    if total < cells * (2 + rs) - roots * rs {
        return None;
    }
    let mut rl = Vec::new();
    if kind == 0 {
        // the list of roots
        if roots * rs > v.len() as u64 {
            return None;
        }
        for _ in 0..conc(roots) {
            let r = be(take(&mut v, rs)?);
            if r >= cells {
                return None;
            }
            rl.push(r as usize);
        }
    } else {
        rl.push(0);
    }
    if idx {
        take(&mut v, cells * os)?;
    }
    let before = v.len() as u64;
    if total > before || cells * 2 > before {
        return None;
    }
    let mut nodes = Vec::new();
    for i in 0..conc(cells) {
        let d = take(&mut v, 2)?;
        let (d1, d2) = (d[0], d[1]);
        let nrefs = conc((d1 & 7) as u64);
        if nrefs > 4 {
            return None;
        }
        if d1 & 16 != 0 {
            let levels = conc(((d1 >> 5).count_ones()) as u64);
            if d1 & 8 != 0 && nrefs == 0 && levels > 0 {
                return None;
            }
            take(&mut v, 34 * (levels + 1))?;
        }
        let len = (d2 >> 1) as u64 + (d2 & 1) as u64;
        if len > v.len() as u64 {
            return None;
        }
        let data = take(&mut v, conc(len))?.to_vec();
        if d2 & 1 == 1 && data[data.len() - 1] & 0x7f == 0 {
            return None; // no completion bit, or a whole byte of completion
        }
        let mut refs = Vec::new();
        for _ in 0..nrefs {
            let r = be(take(&mut v, rs)?);
            if r <= i || r >= cells {
                return None;
            }
            refs.push(r as usize);
        }
        nodes.push(Node { d1, d2, data, refs });
    }
    if before - v.len() as u64 != total {
        return None;
    }
    if crc {
        let at = all.len() - v.len();
        let c = take(&mut v, 4)?;
        assume(v.is_empty());
        if crc32(&all[..at]) != u32::from_le_bytes([c[0], c[1], c[2], c[3]]) {
            return None;
        }
    }
    Some(Parsed { nodes, roots: rl, end: all.len() - v.len() })
}

/// A tree as read from the bag of cells.
pub struct Tree {
    pub d1: u8,
    pub d2: u8,
    pub data: Vec<u8>,
    pub cell: Cell,
}
impl Tree {
    /// Identical contents, all the way down (by hash).
    pub fn same(&self, c: &DynCell) -> bool {
        let d = c.descriptor();
        d.d1 & !16 == self.d1 & !16
            && d.d2 == self.d2
            && c.data().len() == self.data.len()
            && c.data() == &self.data[..]
            && c.repr_hash() == self.cell.repr_hash()
            && c.repr_depth() == self.cell.repr_depth()
    }
}
/// Builds the cells with the (independently checked) builder.
pub fn assemble(p: &Parsed) -> Option<Vec<Tree>> {
    let mut built: Vec<Option<Cell>> = vec![None; p.nodes.len()];
    for i in (0..p.nodes.len()).rev() {
        let n = &p.nodes[i];
        let mut b = CellBuilder::new();
        let mut bits = n.data.len() * 8;
        if n.d2 & 1 == 1 {
            bits -= 1 + conc(n.data[n.data.len() - 1].trailing_zeros() as u64) as usize;
        }
        if b.store_raw(&n.data, bits as u16).is_err() {
            return None;
        }
        b.set_exotic(n.d1 & 8 != 0);
        for r in &n.refs {
            match &built[*r] {
                Some(c) if b.store_reference(c.clone()).is_ok() => {}
                _ => return None,
            }
        }
        let c = b.build().ok()?;
        // the declared level mask has to be right
        if (c.descriptor().d1 ^ n.d1) & !16 != 0 {
            return None;
        }
        built[i] = Some(c);
    }
    let mut r = Vec::new();
    for i in &p.roots {
        let n = &p.nodes[*i];
        r.push(Tree { d1: n.d1, d2: n.d2, data: n.data.clone(), cell: built[*i].clone()? });
    }
    Some(r)
}
