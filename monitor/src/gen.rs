//! Seeded generation of keywords, values and histories.
use cosmian_findex::*;
use std::collections::HashSet;

pub type Iv = IndexedValue<Keyword, Data>;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

pub fn key(r: &mut Rng) -> UserKey {
    use cosmian_crypto_core::{reexport::rand_core::SeedableRng, CsRng, RandomFixedSizeCBytes};
    let mut s = [0u8; 32];
    s.copy_from_slice(&r.bytes(32));
    UserKey::new(&mut CsRng::from_seed(s))
}
pub fn key_bytes(k: &UserKey) -> Vec<u8> {
    k.to_vec()
}

pub const LENGTHS: &[usize] = &[
    0, 1, 2, 3, 7, 14, 15, 16, 17, 18, 29, 30, 31, 32, 33, 46, 47, 48, 62, 63, 64, 65, 78, 79, 80, 81, 94, 95, 96,
    127, 128, 143, 158, 159, 160, 161, 239, 240, 254, 255, 256, 257, 270, 271, 272, 511, 4079, 4080, 4081, 4095, 4096,
];

pub fn wild_bytes(r: &mut Rng) -> Vec<u8> {
    let n = if r.chance(70) { r.below(40) } else { *r.pick(LENGTHS) };
    wild_of_len(r, n)
}
pub fn wild_of_len(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(7) {
        0 => vec![0; n],
        1 => vec![255; n],
        2 => {
            let mut v = r.bytes(n);
            // trailing zeros
            let k = r.below(n + 1);
            for b in &mut v[n - k..] {
                *b = 0;
            }
            v
        }
        3 => (0..n).map(|i| *[b'w', b'l', 16u8, 255, 0].get(i % 5).unwrap()).collect(),
        4 => {
            let mut v = r.bytes(n);
            if n > 0 {
                v[0] = *r.pick(&[b'w', b'l', 0, 255]);
            }
            v
        }
        5 => vec![16; n],
        _ => r.bytes(n),
    }
}

/// Keyword pool. `wild` uses arbitrary bytes (the empty keyword included).
pub fn keywords(r: &mut Rng, n: usize, wild: bool) -> Vec<Keyword> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    let mut i = 0;
    while out.len() < n {
        let k = if wild && r.chance(60) {
            Keyword::from(wild_bytes(r))
        } else {
            i += 1;
            Keyword::from(format!("kw{i}").as_str())
        };
        if seen.insert(k.clone()) {
            out.push(k);
        }
    }
    out
}
pub fn datas(r: &mut Rng, n: usize, wild: bool) -> Vec<Data> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    let mut i = 0;
    while out.len() < n {
        let d = if wild && r.chance(70) {
            Data::from(wild_bytes(r))
        } else {
            i += 1;
            Data::from(format!("data{i}").as_str())
        };
        if seen.insert(d.clone()) {
            out.push(d);
        }
    }
    out
}
pub fn label(r: &mut Rng) -> Label {
    match r.below(4) {
        0 => Label::from(""),
        1 => Label::from("label"),
        2 => Label::from(r.bytes(32)),
        _ => Label::from(wild_bytes(r)),
    }
}

#[derive(Clone, Debug)]
pub struct Op {
    pub add: bool,
    pub assoc: Vec<(Iv, Vec<Keyword>)>,
}
impl Op {
    pub fn map(&self) -> IndexedValueToKeywordsMap {
        IndexedValueToKeywordsMap::from_iter(
            self.assoc.iter().map(|(v, k)| (v.clone(), k.iter().cloned().collect::<HashSet<_>>())),
        )
    }
    pub fn keywords(&self) -> HashSet<Keyword> {
        self.assoc.iter().flat_map(|(_, k)| k).cloned().collect()
    }
    /// The values given for one keyword.
    pub fn values_of(&self, k: &Keyword) -> HashSet<Iv> {
        self.assoc.iter().filter(|(_, ks)| ks.contains(k)).map(|(v, _)| v.clone()).collect()
    }
}

pub struct Space {
    pub kws: Vec<Keyword>,
    pub data: Vec<Data>,
    pub pointers: usize,
    pub max_pairs: usize,
    pub deletes: usize,
}
impl Space {
    pub fn random(r: &mut Rng, wild: bool) -> Self {
        let nk = 1 + r.below(6);
        let nd = 1 + if r.chance(80) { r.below(6) } else { r.below(40) };
        Space {
            kws: keywords(r, nk, wild),
            data: datas(r, nd, wild),
            pointers: *r.pick(&[0, 15, 40]),
            max_pairs: if r.chance(80) { 5 } else { 40 },
            deletes: *r.pick(&[20, 35, 50]),
        }
    }
    pub fn value(&self, r: &mut Rng) -> Iv {
        if r.chance(self.pointers) {
            IndexedValue::Pointer(r.pick(&self.kws).clone())
        } else {
            IndexedValue::Data(r.pick(&self.data).clone())
        }
    }
    pub fn op(&self, r: &mut Rng) -> Op {
        let add = !r.chance(self.deletes);
        let n = 1 + r.below(self.max_pairs);
        let mut assoc: Vec<(Iv, Vec<Keyword>)> = vec![];
        for _ in 0..n {
            let v = self.value(r);
            let m = 1 + if r.chance(75) { 0 } else { r.below(self.kws.len()) };
            let mut ks: Vec<_> = (0..m).map(|_| r.pick(&self.kws).clone()).collect();
            ks.sort_by(|a, b| a[..].cmp(&b[..]));
            ks.dedup();
            if !assoc.iter().any(|(x, _)| *x == v) {
                assoc.push((v, ks));
            }
        }
        Op { add, assoc }
    }
}

pub fn show(b: &[u8]) -> String {
    let s: String = b.iter().take(24).map(|x| format!("{x:02x}")).collect();
    if b.len() <= 12 && b.iter().all(|c| (32..127).contains(c)) && !b.is_empty() {
        format!("\"{}\"", String::from_utf8_lossy(b))
    } else if b.len() > 24 {
        format!("[{} bytes {s}..]", b.len())
    } else {
        format!("[{} bytes {s}]", b.len())
    }
}
pub fn show_iv(v: &Iv) -> String {
    match v {
        IndexedValue::Pointer(k) => format!("->{}", show(k)),
        IndexedValue::Data(d) => show(d),
    }
}
pub fn show_op(o: &Op) -> String {
    let a: Vec<_> = o
        .assoc
        .iter()
        .map(|(v, k)| format!("{} under {{{}}}", show_iv(v), k.iter().map(|k| show(k)).collect::<Vec<_>>().join(", ")))
        .collect();
    format!("{}({})", if o.add { "add" } else { "delete" }, a.join("; "))
}
