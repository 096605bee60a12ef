//! Reference semantics: what the index should contain, and an independent decoding of the stores.
use crate::{gen::*, world::*};
use cosmian_findex::*;
use std::collections::{HashMap, HashSet};
use tiny_keccak::{Hasher, Sha3};

pub type Set = HashSet<Iv>;

thread_local! { pub static TRACE: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) }; }
/// Records a step of the current case for the replay file.
pub fn note(s: String) {
    TRACE.with(|t| t.borrow_mut().push(s));
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Model(pub HashMap<Keyword, Set>);
impl Model {
    pub fn apply(&mut self, o: &Op) {
        for (v, ks) in &o.assoc {
            for k in ks {
                let s = self.0.entry(k.clone()).or_default();
                if o.add {
                    s.insert(v.clone());
                } else {
                    s.remove(v);
                }
            }
        }
    }
    pub fn own(&self, k: &Keyword) -> Set {
        self.0.get(k).cloned().unwrap_or_default()
    }
    pub fn search(&self, k: &Keyword) -> HashSet<Data> {
        let mut seen = HashSet::new();
        let mut todo = vec![k.clone()];
        let mut res = HashSet::new();
        while let Some(k) = todo.pop() {
            if !seen.insert(k.clone()) {
                continue;
            }
            for v in self.own(&k) {
                match v {
                    IndexedValue::Pointer(p) => todo.push(p),
                    IndexedValue::Data(d) => {
                        res.insert(d);
                    }
                }
            }
        }
        res
    }
    pub fn filter(&self, keep: &dyn Fn(&Data) -> bool) -> Model {
        Model(
            self.0
                .iter()
                .map(|(k, s)| {
                    (k.clone(), s.iter().filter(|v| v.get_data().map_or(true, |d| keep(d))).cloned().collect())
                })
                .collect(),
        )
    }
}

pub fn sha3(b: &[u8]) -> [u8; 32] {
    let mut h = Sha3::v256();
    h.update(b);
    let mut r = [0; 32];
    h.finalize(&mut r);
    r
}

pub struct Creds {
    pub key: UserKey,
    pub label: Label,
}
impl Creds {
    pub fn random(r: &mut Rng) -> Self {
        Creds { key: crate::gen::key(r), label: crate::gen::label(r) }
    }
    pub fn dup(&self) -> Self {
        let mut k = UserKey::default();
        k.copy_from_slice(&self.key);
        Creds { key: k, label: self.label.clone() }
    }
}

pub type EKey = <Et as DxEnc<ENTRY_LENGTH>>::Key;
pub type CKey = <Ct as DxEnc<LINK_LENGTH>>::Key;

pub fn entry_key(w: &W, key: &UserKey) -> EKey {
    let (e, _) = tables(w);
    let mut s = <Et as DxEnc<ENTRY_LENGTH>>::Seed::default();
    s.as_mut().copy_from_slice(key);
    e.derive_keys(&s)
}
pub fn chain_key(w: &W, seed: &[u8]) -> CKey {
    let (_, c) = tables(w);
    let mut s = <Ct as DxEnc<LINK_LENGTH>>::Seed::default();
    s.as_mut().copy_from_slice(seed);
    c.derive_keys(&s)
}
pub fn entry_token(w: &W, cr: &Creds, k: &Keyword) -> Token {
    let (e, _) = tables(w);
    e.tokenize(&entry_key(w, &cr.key), &sha3(k), Some(&cr.label))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Record {
    pub last: Option<[u8; 32]>,
    pub seed: [u8; 16],
    pub hash: [u8; 32],
}
pub fn record(b: &[u8; ENTRY_LENGTH]) -> Record {
    let last: [u8; 32] = b[..32].try_into().unwrap();
    Record {
        last: if last == [0; 32] { None } else { Some(last) },
        seed: b[32..48].try_into().unwrap(),
        hash: b[48..].try_into().unwrap(),
    }
}

pub fn decrypt_entry(w: &W, key: &UserKey, v: &EncryptedValue<ENTRY_LENGTH>) -> Result<Record, String> {
    let (e, _) = tables(w);
    e.resolve(&entry_key(w, key), v).map(|b| record(&b)).map_err(|e| e.to_string())
}

/// The tokens of a chain, from the first to `last`.
pub fn chain_tokens(w: &W, rec: &Record) -> Result<Vec<Token>, String> {
    let (_, c) = tables(w);
    let k = chain_key(w, &rec.seed);
    let mut out = vec![];
    let Some(last) = rec.last else { return Ok(out) };
    let last = Token::from(last);
    let mut t = c.tokenize(&k, &rec.hash, None);
    loop {
        out.push(t);
        if t == last {
            return Ok(out);
        }
        if out.len() > 200_000 {
            return Err("the last token of an entry is not on its chain".into());
        }
        t = c.tokenize(&k, &t, None);
    }
}

/// One modification read from a chain: addition?, serialized value.
pub type Mod = (bool, Vec<u8>);

pub fn parse_lines(lines: &[[u8; LINK_LENGTH]]) -> Result<Vec<Mod>, String> {
    let mut out = vec![];
    let mut cur: Option<(bool, Vec<u8>)> = None;
    for l in lines {
        for p in 0..LINE_WIDTH {
            let b = &l[1 + p * (BLOCK_LENGTH + 1)..1 + (p + 1) * (BLOCK_LENGTH + 1)];
            let add = (l[0] >> p) & 1 == 1;
            if let Some((a, _)) = &cur {
                if *a != add {
                    return Err("value made of blocks with different operations".into());
                }
            }
            let (_, v) = cur.get_or_insert((add, vec![]));
            if b[0] == 255 {
                v.extend(&b[1..]);
            } else if b[0] as usize <= BLOCK_LENGTH {
                v.extend(&b[1..1 + b[0] as usize]);
                out.push(cur.take().unwrap());
            } else {
                return Err(format!("block length byte {}", b[0]));
            }
        }
    }
    if cur.is_some() {
        return Err("unterminated value".into());
    }
    // Padding at the end of a line reads as deletions of the empty string.
    out.retain(|(a, v)| *a || !v.is_empty());
    Ok(out)
}

pub struct Chain {
    pub token: Token,
    pub rec: Record,
    pub tokens: Vec<Token>,
    /// Lines present in the store, in chain order.
    pub lines: Vec<[u8; LINK_LENGTH]>,
    pub missing: usize,
    pub mods: Vec<Mod>,
}
impl Chain {
    pub fn values(&self) -> HashSet<Vec<u8>> {
        let mut s = HashSet::new();
        for (a, v) in &self.mods {
            if *a {
                s.insert(v.clone());
            } else {
                s.remove(v);
            }
        }
        s
    }
}
pub fn ser(v: &Iv) -> Vec<u8> {
    let (p, b): (u8, &[u8]) = match v {
        IndexedValue::Pointer(k) => (b'w', k),
        IndexedValue::Data(d) => (b'l', d),
    };
    let mut o = vec![p];
    o.extend(b);
    o
}
pub fn ser_set(s: &Set) -> HashSet<Vec<u8>> {
    s.iter().map(ser).collect()
}

/// Independent reading of one keyword's chain.
pub fn decode(w: &W, cr: &Creds, k: &Keyword) -> Result<Option<Chain>, String> {
    let token = entry_token(w, cr, k);
    let v = { w.borrow().e.get(&token).cloned() };
    let Some(v) = v else { return Ok(None) };
    let rec = decrypt_entry(w, &cr.key, &v)?;
    if rec.hash != sha3(k) {
        return Err("entry holds the hash of another keyword".into());
    }
    let tokens = chain_tokens(w, &rec)?;
    let ck = chain_key(w, &rec.seed);
    let (_, c) = tables(w);
    let mut lines = vec![];
    let mut missing = 0;
    for t in &tokens {
        let l = { w.borrow().c.get(t).cloned() };
        match l {
            Some(l) => lines.push(c.resolve(&ck, &l).map_err(|e| format!("line not readable: {e}"))?),
            None => missing += 1,
        }
    }
    let mods = parse_lines(&lines)?;
    Ok(Some(Chain { token, rec, tokens, lines, missing, mods }))
}
pub fn blocks<'a>(values: impl Iterator<Item = &'a Vec<u8>>) -> usize {
    values.map(|v| v.len() / BLOCK_LENGTH + 1).sum()
}
pub fn lines_for<'a>(values: impl Iterator<Item = &'a Vec<u8>>) -> usize {
    (blocks(values) + LINE_WIDTH - 1) / LINE_WIDTH
}

/// A system under test together with its model.
pub struct Sys {
    pub w: W,
    pub fx: Fx,
    pub cr: Creds,
    pub model: Model,
}
impl Sys {
    pub fn new(r: &mut Rng) -> Self {
        let w = W::default();
        w.borrow_mut().shuffle = r.next() | 1;
        let fx = findex(&w);
        Sys { w, fx, cr: Creds::random(r), model: Model::default() }
    }
    pub fn call(&self, o: &Op) -> Result<HashSet<Keyword>, Err> {
        self.call_as(&self.cr, o)
    }
    pub fn call_as(&self, cr: &Creds, o: &Op) -> Result<HashSet<Keyword>, Err> {
        run(async {
            if o.add {
                self.fx.add(&cr.key, &cr.label, o.map()).await
            } else {
                self.fx.delete(&cr.key, &cr.label, o.map()).await
            }
        })
        .map(|k| k.into())
    }
    /// Applies an operation that must succeed.
    pub fn apply(&mut self, o: &Op) -> Result<HashSet<Keyword>, String> {
        note(show_op(o));
        let r = self.call(o).map_err(|e| format!("unexpected error: {e:?}"))?;
        self.model.apply(o);
        Ok(r)
    }
    pub fn search_as(&self, cr: &Creds, ks: &[Keyword]) -> Result<HashMap<Keyword, HashSet<Data>>, Err> {
        run(self.fx.search(&cr.key, &cr.label, ks.iter().cloned().collect(), &|_| async { Ok(false) })).map(|m| m.into())
    }
    pub fn check_search(&mut self, ks: &[Keyword]) -> Result<(), String> {
        let cr = self.cr.dup();
        let model = self.model.clone();
        self.check_search_as(&cr, &model, ks)
    }
    pub fn check_search_as(&mut self, cr: &Creds, model: &Model, ks: &[Keyword]) -> Result<(), String> {
        note(format!("search({})", ks.iter().map(|k| show(k)).collect::<Vec<_>>().join(", ")));
        let got = self.search_as(cr, ks).map_err(|e| format!("unexpected search error: {e:?}"))?;
        let asked: HashSet<_> = ks.iter().cloned().collect();
        if got.keys().cloned().collect::<HashSet<_>>() != asked {
            return Err(format!("the answer has entries for {} keywords, {} requested", got.len(), asked.len()));
        }
        for k in &asked {
            let want = model.search(k);
            if got[k] != want {
                return Err(format!("search of {}: {}", show(k), diff(&got[k], &want)));
            }
        }
        Ok(())
    }
    pub fn compact<F: Fn(&Data) -> bool>(&self, new: &Creds, rate: f64, keep: F) -> Result<(), Err> {
        let keep = &keep;
        run(self.fx.compact(&self.cr.key, &new.key, &self.cr.label, &new.label, rate, &|d: HashSet<Data>| async move {
            Ok(d.into_iter().filter(|x| keep(x)).collect())
        }))
    }
    /// New credentials for a compaction: both, only the key, or only the label change.
    pub fn next_creds(&self, r: &mut Rng) -> Creds {
        loop {
            let mut n = Creds::random(r);
            match r.below(3) {
                0 => n.key.copy_from_slice(&self.cr.key),
                1 => n.label = self.cr.label.clone(),
                _ => (),
            }
            if n.key[..] != self.cr.key[..] || n.label != self.cr.label {
                return n;
            }
        }
    }
}

pub fn diff(got: &HashSet<Data>, want: &HashSet<Data>) -> String {
    let a: Vec<_> = want.difference(got).take(4).map(|d| show(d)).collect();
    let b: Vec<_> = got.difference(want).take(4).map(|d| show(d)).collect();
    format!("missing {{{}}}, unexpected {{{}}} ({} returned, {} expected)", a.join(", "), b.join(", "), got.len(), want.len())
}
