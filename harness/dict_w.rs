// Wire model of dictionaries (included after wire.rs): the canonical tree with the shortest labels.
#[allow(dead_code)]
fn label_w(l: &[u8], max: usize) -> Bits {
    let n = l.len();
    let mut k = 0;
    while max >> k != 0 {
        k += 1;
    }
    let uniform = l.iter().all(|b| *b == l[0]);
    let mut b = Bits::new();
    let (short, long, same) = (2 * n + 2, 2 + k + n, 3 + k);
    if n > 0 && same < short && same < long && uniform {
        b.uint(0b110 | l[0] as u128, 3);
        b.uint(n as u128, k);
    } else if short <= long {
        b.uint(0, 1);
        b.fill(1, n);
        b.uint(0, 1);
        b.append(l);
    } else {
        b.uint(0b10, 2);
        b.uint(n as u128, k);
        b.append(l);
    }
    b
}
/// The root node of a non-empty dictionary; entries sorted by key, concrete keys.
#[allow(dead_code)]
fn dict_w(e: &[(Vec<u8>, W)], at: usize) -> W {
    let n = e[0].0.len();
    let (a, z) = (&e[0].0, &e[e.len() - 1].0);
    let mut i = at;
    while i < n && a[i] == z[i] {
        i += 1;
    }
    let mut w = W::new();
    w.b.append(&label_w(&a[at..i], n - at).0);
    if e.len() == 1 {
        w.join(&e[0].1);
    } else {
        let mid = e.iter().position(|x| x.0[i] == 1).unwrap();
        w.sub(dict_w(&e[..mid], i + 1)).sub(dict_w(&e[mid..], i + 1));
    }
    w
}
#[allow(dead_code)]
fn key_w(k: u128, n: usize) -> Vec<u8> {
    (0..n).map(|i| (k >> (n - 1 - i) & 1) as u8).collect()
}
/// HashmapE: a bit and the root.
#[allow(dead_code)]
fn dict_e(w: &mut W, e: &[(Vec<u8>, W)]) {
    w.bit(!e.is_empty());
    if !e.is_empty() {
        w.sub(dict_w(e, 0));
    }
}
