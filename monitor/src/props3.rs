//! Values, stores, graph, derivations: C10-C14, C17.
use crate::{gen::*, model::*, props1::*, world::*};
use cosmian_crypto_core::{
    bytes_ser_de::{Deserializer, Serializable, Serializer},
    reexport::rand_core::SeedableRng,
    CsRng, Nonce,
};
use cosmian_findex::*;
use std::{
    cell::RefCell,
    collections::{HashMap, HashSet},
    sync::Arc,
};
use tiny_keccak::{Hasher, IntoXof, Kmac, Shake, Xof};

// ---- C10 ------------------------------------------------------------------------------------
fn flip<const N: usize>(v: &EncryptedValue<N>, i: usize, mask: u8) -> EncryptedValue<N> {
    let mut v = v.clone();
    if i < NONCE_LENGTH {
        v.nonce.0[i] ^= mask;
    } else if i < NONCE_LENGTH + N {
        v.ciphertext[i - NONCE_LENGTH] ^= mask;
    } else {
        v.tag[i - NONCE_LENGTH - N] ^= mask;
    }
    v
}
pub fn c10(r: &mut Rng, _t: bool) -> Res {
    let mut s = Sys::new(r);
    let wild = r.chance(20);
    let mut sp = Space::random(r, wild);
    sp.pointers = 0;
    for _ in 0..1 + r.below(3) {
        let mut o = sp.op(r);
        o.add = true;
        s.apply(&o)?;
    }
    let kws: Vec<Keyword> = s.model.0.keys().cloned().collect();
    let mut n = 0;
    // direct use of the scheme
    {
        let (e, c) = tables(&s.w);
        let mut rng = CsRng::from_seed(r.bytes(32).try_into().unwrap());
        let k = entry_key(&s.w, &s.cr.key);
        let k2 = entry_key(&s.w, &crate::gen::key(r));
        let mut v = [0u8; ENTRY_LENGTH];
        v.copy_from_slice(&wild_of_len(r, ENTRY_LENGTH));
        let x = e.prepare(&mut rng, &k, v).map_err(|e| format!("{e:?}"))?;
        ensure!(e.resolve(&k, &x).map_err(|e| format!("{e:?}"))? == v, "a value is not read back unchanged");
        ensure!(e.resolve(&k2, &x).is_err(), "a value is accepted under another key");
        for i in 0..EncryptedValue::<ENTRY_LENGTH>::LENGTH {
            ensure!(e.resolve(&k, &flip(&x, i, 1 << r.below(8))).is_err(), "an encrypted value altered at byte {i} is accepted");
            n += 1;
        }
        let ck = chain_key(&s.w, &r.bytes(16));
        let ck2 = chain_key(&s.w, &r.bytes(16));
        let mut v = [0u8; LINK_LENGTH];
        v.copy_from_slice(&wild_of_len(r, LINK_LENGTH));
        let x = c.prepare(&mut rng, &ck, v).map_err(|e| format!("{e:?}"))?;
        ensure!(c.resolve(&ck, &x).map_err(|e| format!("{e:?}"))? == v, "a line is not read back unchanged");
        ensure!(c.resolve(&ck2, &x).is_err(), "a line is accepted under another key");
        for i in 0..EncryptedValue::<LINK_LENGTH>::LENGTH {
            ensure!(c.resolve(&ck, &flip(&x, i, 1 << r.below(8))).is_err(), "an encrypted line altered at byte {i} is accepted");
            n += 1;
        }
    }
    let clean_e = s.w.borrow().e.clone();
    let clean_c = s.w.borrow().c.clone();
    for _ in 0..12 {
        let k = r.pick(&kws).clone();
        let ch = decode(&s.w, &s.cr, &k)?.ok_or("no entry")?;
        let on_entry = r.chance(40);
        let mask = 1 << r.below(8);
        let foreign = r.chance(20);
        let what;
        if on_entry {
            let v = clean_e[&ch.token].clone();
            let i = r.below(EncryptedValue::<ENTRY_LENGTH>::LENGTH);
            let bad = if foreign {
                let (e, _) = tables(&s.w);
                let mut rng = CsRng::from_seed(r.bytes(32).try_into().unwrap());
                let mut c2 = s.cr.dup();
                c2.key = crate::gen::key(r);
                let plain = e.resolve(&entry_key(&s.w, &s.cr.key), &v).map_err(|e| format!("{e:?}"))?;
                e.prepare(&mut rng, &entry_key(&s.w, &c2.key), plain).map_err(|e| format!("{e:?}"))?
            } else {
                flip(&v, i, mask)
            };
            s.w.borrow_mut().e.insert(ch.token, bad);
            what = format!("entry of {} {}", show(&k), if foreign { "encrypted under another key".into() } else { format!("altered at byte {i}") });
        } else {
            let t = *r.pick(&ch.tokens);
            let v = clean_c[&t].clone();
            let i = r.below(EncryptedValue::<LINK_LENGTH>::LENGTH);
            let bad = if foreign {
                let (_, c) = tables(&s.w);
                let mut rng = CsRng::from_seed(r.bytes(32).try_into().unwrap());
                let plain = c.resolve(&chain_key(&s.w, &ch.rec.seed), &v).map_err(|e| format!("{e:?}"))?;
                c.prepare(&mut rng, &chain_key(&s.w, &r.bytes(16)), plain).map_err(|e| format!("{e:?}"))?
            } else {
                flip(&v, i, mask)
            };
            s.w.borrow_mut().c.insert(t, bad);
            what = format!("a line of {} {}", show(&k), if foreign { "encrypted under another key".into() } else { format!("altered at byte {i}") });
        }
        note(what.clone());
        n += 1;
        let mut asked = kws.clone();
        if r.chance(50) {
            asked = vec![k.clone()];
        }
        let res = run(s.fx.search(&s.cr.key, &s.cr.label, asked.into_iter().collect(), &|_| async { Ok(false) }));
        ensure!(res.is_err(), "a search reading the {what} succeeds");
        if on_entry {
            let o = Op { add: r.chance(50), assoc: vec![(IndexedValue::Data(Data::from("z")), vec![k.clone()])] };
            let snap = s.w.borrow().snapshot();
            ensure!(s.call(&o).is_err(), "an update reading the {what} succeeds");
            ensure!(s.w.borrow().snapshot() == snap, "an update that met the {what} wrote something");
        }
        let new = s.next_creds(r);
        let snap = s.w.borrow().snapshot();
        ensure!(s.compact(&new, 1.0, |_| true).is_err(), "a compaction reading the {what} succeeds");
        ensure!(s.w.borrow().snapshot() == snap, "a compaction that met the {what} wrote something");
        let mut w = s.w.borrow_mut();
        w.e = clean_e.clone();
        w.c = clean_c.clone();
    }
    // an entry replaced between the read and the conditional write (the store returns it)
    s.check_search(&kws)?;
    Ok(format!("{n} altered or foreign values"))
}

// ---- C11 ------------------------------------------------------------------------------------
fn c11_n<const N: usize>(r: &mut Rng) -> Result<usize, String> {
    let len = EncryptedValue::<N>::LENGTH;
    ensure!(len == N + NONCE_LENGTH + MAC_LENGTH, "announced length {len} for values of {N} bytes");
    let mut n = 0;
    for _ in 0..3 {
        let mut v = EncryptedValue::<N> { ciphertext: [0; N], tag: [0; MAC_LENGTH], nonce: Nonce::from([0; NONCE_LENGTH]) };
        v.ciphertext.copy_from_slice(&wild_of_len(r, N));
        v.tag.copy_from_slice(&wild_of_len(r, MAC_LENGTH));
        v.nonce.0.copy_from_slice(&wild_of_len(r, NONCE_LENGTH));
        let b: Vec<u8> = (&v).into();
        ensure!(b.len() == len, "an encrypted value is serialized on {} bytes, {len} announced", b.len());
        let back = EncryptedValue::<N>::try_from(b.as_slice()).map_err(|e| format!("an encrypted value is not read back: {e:?}"))?;
        ensure!(val(&back) == val(&v), "an encrypted value is read back changed");
        let bytes = wild_of_len(r, len);
        let x = EncryptedValue::<N>::try_from(bytes.as_slice()).map_err(|e| format!("bytes of the right length are refused: {e:?}"))?;
        let again: Vec<u8> = (&x).into();
        ensure!(again == bytes, "bytes -> value -> bytes is not the identity");
        n += 2;
    }
    for l in (0..len + 40).chain([1000, 65536]) {
        if l != len {
            let bytes = wild_of_len(r, l);
            ensure!(EncryptedValue::<N>::try_from(bytes.as_slice()).is_err(), "{l} bytes are accepted as an encrypted value of {len} bytes");
            n += 1;
        }
    }
    Ok(n)
}
pub fn c11(r: &mut Rng, _t: bool) -> Res {
    let mut n = c11_n::<ENTRY_LENGTH>(r)? + c11_n::<LINK_LENGTH>(r)? + c11_n::<1>(r)? + c11_n::<16>(r)? + c11_n::<32>(r)? + c11_n::<0>(r)? + c11_n::<300>(r)?;
    for l in (0..100).chain([1000]) {
        let b = wild_of_len(r, l);
        let t = Token::try_from(b.as_slice());
        n += 1;
        if l == 32 {
            let t = t.map_err(|e| format!("32 bytes are refused as a token: {e:?}"))?;
            ensure!(t[..] == b[..], "a token is read back changed");
            let a: [u8; 32] = t.into();
            ensure!(a[..] == b[..] && Token::from(a)[..] == b[..], "a token is converted with a change");
        } else {
            ensure!(t.is_err(), "{l} bytes are accepted as a token");
        }
    }
    ensure!(Token::LENGTH == 32, "token length");
    // the entry record
    let mut s = Sys::new(r);
    let sp = Space::random(r, true);
    for _ in 0..1 + r.below(4) {
        let o = sp.op(r);
        let seeds: HashMap<Keyword, Record> = {
            let mut m = HashMap::new();
            for k in &sp.kws {
                if let Some(c) = decode(&s.w, &s.cr, k)? {
                    m.insert(k.clone(), c.rec);
                }
            }
            m
        };
        s.apply(&o)?;
        for k in &sp.kws {
            if let Some(c) = decode(&s.w, &s.cr, k)? {
                n += 1;
                ensure!(c.rec.hash == sha3(k), "the record of {} holds another keyword hash", show(k));
                ensure!(c.rec.last == c.tokens.last().map(|t| (*t).into()), "last chain token");
                ensure!(c.missing == 0, "the record does not point to the lines");
                if let Some(old) = seeds.get(k) {
                    ensure!(old.seed == c.rec.seed, "the seed of the record of {} changed when it was rewritten", show(k));
                }
            }
        }
    }
    Ok(format!("{n} conversions"))
}

// ---- C12 ------------------------------------------------------------------------------------
type Mem = InMemoryDb<4>;
fn ev(b: u8) -> EncryptedValue<4> {
    EncryptedValue { ciphertext: [b; 4], tag: [0; MAC_LENGTH], nonce: Nonce::from([0; NONCE_LENGTH]) }
}
fn content(m: &Mem) -> HashMap<Token, EncryptedValue<4>> {
    m.lock().unwrap().0.clone()
}
pub fn c12(r: &mut Rng, thorough: bool) -> Res {
    if r.chance(3) {
        return c12_threads(thorough);
    }
    let m = Mem::default();
    let mut model: HashMap<Token, EncryptedValue<4>> = HashMap::new();
    let toks: Vec<Token> = (0..1 + r.below(5)).map(|i| Token::from([i as u8 * 37; 32])).collect();
    let mut vals: Vec<EncryptedValue<4>> = (0..3).map(ev).collect();
    // values that differ in one part only
    let mut a = ev(0);
    a.tag[15] = 1;
    vals.push(a);
    let mut a = ev(0);
    a.nonce.0[11] = 1;
    vals.push(a);
    let n = 1 + r.below(25);
    let sub = |r: &mut Rng, p: usize| -> Vec<Token> { toks.iter().filter(|_| r.chance(p)).copied().collect() };
    let show = |t: &[Token]| t.iter().map(|t| (t[0] / 37).to_string()).collect::<Vec<_>>().join(",");
    for _ in 0..n {
        match r.below(6) {
            0 => {
                let got: HashSet<Token> = run(m.dump_tokens()).map_err(|e| format!("{e:?}"))?.into();
                ensure!(got == model.keys().copied().collect(), "dump lists {} tokens, {} stored", got.len(), model.len());
            }
            1 => {
                let t = sub(r, 60);
                note(format!("fetch {}", show(&t)));
                let got: Vec<_> = run(m.fetch(t.iter().copied().collect())).map_err(|e| format!("{e:?}"))?.into();
                let want: HashMap<_, _> = t.iter().filter_map(|t| model.get(t).map(|v| (*t, v.clone()))).collect();
                ensure!(got.len() == want.len() && got.into_iter().collect::<HashMap<_, _>>() == want, "fetch does not return exactly the values present");
            }
            2 => {
                let t = sub(r, 40);
                let v: HashMap<_, _> = t.iter().map(|t| (*t, r.pick(&vals).clone())).collect();
                note(format!("insert {}", show(&t)));
                let res = run(m.insert(v.clone().into()));
                if t.iter().any(|t| model.contains_key(t)) {
                    ensure!(res.is_err(), "insert on a used token succeeds");
                } else {
                    res.map_err(|e| format!("insert fails: {e:?}"))?;
                    model.extend(v);
                }
            }
            3 => {
                let t = sub(r, 40);
                note(format!("delete {}", show(&t)));
                run(m.delete(t.iter().copied().collect())).map_err(|e| format!("{e:?}"))?;
                for t in t {
                    model.remove(&t);
                }
            }
            _ => {
                let t = sub(r, 60);
                let new: HashMap<_, _> = t.iter().map(|t| (*t, r.pick(&vals).clone())).collect();
                let mut old: HashMap<Token, EncryptedValue<4>> = HashMap::new();
                for t in &toks {
                    match r.below(10) {
                        0..=4 => {
                            if let Some(v) = model.get(t) {
                                old.insert(*t, v.clone());
                            }
                        }
                        5 | 6 => {
                            old.insert(*t, r.pick(&vals).clone());
                        }
                        _ => (),
                    }
                }
                note(format!("upsert new {{{}}} old {{{}}}", show(&t), show(&old.keys().copied().collect::<Vec<_>>())));
                let res = run(m.upsert(old.clone().into(), new.clone().into()));
                if old.keys().any(|t| !model.contains_key(t)) {
                    ensure!(res.is_err(), "an upsert expecting a value where none is stored succeeds");
                } else {
                    let got: HashMap<_, _> = res.map_err(|e| format!("upsert fails: {e:?}"))?.into();
                    let mut want = HashMap::new();
                    for (t, v) in new {
                        if old.get(&t) == model.get(&t) {
                            model.insert(t, v);
                        } else {
                            want.insert(t, model[&t].clone());
                        }
                    }
                    ensure!(got == want, "an upsert rejects {} values, {} expected", got.len(), want.len());
                }
            }
        }
        ensure!(content(&m) == model, "the content of the store is not the expected one");
        ensure!(m.len() == model.len() && m.is_empty() == model.is_empty(), "len/is_empty");
        ensure!(m.size() == model.len() * (32 + EncryptedValue::<4>::LENGTH), "size");
    }
    if r.chance(20) {
        let mut m = m;
        m.flush();
        ensure!(content(&m).is_empty(), "flush leaves values");
        m.load(model.clone().into());
        ensure!(content(&m) == model, "load");
    }
    Ok(format!("{n} requests on {} tokens", toks.len()))
}
/// Conditional writes and insertions from several threads: none may be lost.
fn c12_threads(thorough: bool) -> Res {
    let m = Arc::new(InMemoryDb::<8>::default());
    let t = Token::from([1; 32]);
    let enc = |n: u64| EncryptedValue::<8> { ciphertext: n.to_be_bytes(), tag: [0; MAC_LENGTH], nonce: Nonce::from([0; NONCE_LENGTH]) };
    let rounds: u64 = if thorough { 4000 } else { 800 };
    let hs: Vec<_> = (0..4u8)
        .map(|id| {
            let m = m.clone();
            std::thread::spawn(move || -> Result<u64, String> {
                let mut won = 0;
                let mut cur: Option<EncryptedValue<8>> = None;
                for i in 0..rounds {
                    // increment
                    loop {
                        let n = cur.as_ref().map_or(0, |v| u64::from_be_bytes(v.ciphertext));
                        let old: HashMap<_, _> = cur.iter().map(|v| (t, v.clone())).collect();
                        let res: HashMap<_, _> = run(m.upsert(old.into(), HashMap::from([(t, enc(n + 1))]).into())).map_err(|e| format!("{e:?}"))?.into();
                        match res.get(&t) {
                            None => {
                                cur = Some(enc(n + 1));
                                break;
                            }
                            Some(v) => cur = Some(v.clone()),
                        }
                    }
                    // one winner per token
                    let mut k = [9u8; 32];
                    k[..8].copy_from_slice(&i.to_be_bytes());
                    let mut v = enc(i);
                    v.tag[0] = id;
                    if run(m.insert(HashMap::from([(Token::from(k), v)]).into())).is_ok() {
                        won += 1;
                    }
                }
                Ok(won)
            })
        })
        .collect();
    let mut won = 0;
    for h in hs {
        won += h.join().map_err(|_| "a thread panicked".to_string())??;
    }
    let n = u64::from_be_bytes(m.lock().unwrap().0[&t].ciphertext);
    ensure!(n == 4 * rounds, "{} conditional writes of concurrent threads were lost", 4 * rounds - n);
    ensure!(won == rounds, "{won} concurrent insertions succeeded on {rounds} tokens");
    Ok(format!("4 threads, {rounds} rounds"))
}

// ---- C13 ------------------------------------------------------------------------------------
fn c13_n<const N: usize>(r: &mut Rng) -> Result<usize, String> {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 127 + r.below(3),
        3 => r.below(300),
        _ => r.below(8),
    };
    let mut map = HashMap::new();
    for _ in 0..n {
        let mut v = EncryptedValue::<N> { ciphertext: [0; N], tag: [0; MAC_LENGTH], nonce: Nonce::from([0; NONCE_LENGTH]) };
        v.ciphertext.copy_from_slice(&wild_of_len(r, N));
        v.tag.copy_from_slice(&wild_of_len(r, MAC_LENGTH));
        v.nonce.0.copy_from_slice(&wild_of_len(r, NONCE_LENGTH));
        map.insert(Token::from(<[u8; 32]>::try_from(&r.bytes(32)[..]).unwrap()), v);
    }
    let mut m = InMemoryDb::<N>::default();
    m.load(map.clone().into());
    note(format!("store of {n} values of {N} bytes"));
    let mut ser = Serializer::new();
    let written = m.write(&mut ser).map_err(|e| format!("serialization fails: {e:?}"))?;
    let bytes = ser.finalize().to_vec();
    ensure!(written == bytes.len(), "{} bytes written, {written} announced by write", bytes.len());
    ensure!(m.length() == bytes.len(), "{} bytes written, {} announced by length", bytes.len(), m.length());
    let whole = m.serialize().map_err(|e| format!("serialization fails: {e:?}"))?.to_vec();
    ensure!(whole.len() == bytes.len(), "serialize gives another length");
    let back = InMemoryDb::<N>::deserialize(&bytes).map_err(|e| format!("a serialized store is not read back: {e:?}"))?;
    ensure!(back.lock().unwrap().0 == map, "a store is read back changed ({} values, {n} written)", back.len());
    // followed by other content
    let mut more = bytes.clone();
    more.extend([1, 2, 3]);
    let mut de = Deserializer::new(&more);
    let back = de.read::<InMemoryDb<N>>().map_err(|e| format!("{e:?}"))?;
    ensure!(back.lock().unwrap().0 == map && de.value() == [1, 2, 3], "reading a store consumes what follows it");
    // bad input
    let mut cases = 3;
    for _ in 0..12 {
        let mut b = bytes.clone();
        match r.below(6) {
            0 => {
                let l = r.below(b.len() + 1);
                b.truncate(l);
            }
            1 => {
                if !b.is_empty() {
                    let i = r.below(b.len());
                    b[i] ^= 1 << r.below(8);
                }
            }
            2 => {
                let l = r.below(200);
                b = wild_of_len(r, l);
            }
            3 => {
                // huge announced count
                let mut x = Serializer::new();
                let big = *r.pick(&[u64::MAX, u64::MAX / 2, 1 << 60, 1 << 40, 1 << 33, 1 << 32, 1 << 28]);
                x.write_leb128_u64(big).unwrap();
                let mut y = x.finalize().to_vec();
                y.extend(&bytes[bytes.len().min(1)..]);
                b = y;
            }
            4 => {
                // unterminated or overlong leb128
                let l = 1 + r.below(20);
                let mut y = vec![0xff; l];
                y.extend(&b);
                b = y;
            }
            _ => {
                let l = r.below(40);
                b = vec![0; l];
            }
        }
        note(format!("reading {}", show(&b)));
        crate::alloc::start();
        let res = std::panic::catch_unwind(|| InMemoryDb::<N>::deserialize(&b).map(|_| ()));
        let peak = crate::alloc::stop();
        ensure!(res.is_ok(), "reading {} bytes crashes", b.len());
        ensure!(peak <= 64 * b.len() + 65_536, "reading {} bytes allocates {peak} bytes", b.len());
        cases += 1;
    }
    Ok(cases)
}
/// A store with more tokens than a length of one, two or (in bits) sixteen can announce.
fn c13_large(n: usize) -> Result<usize, String> {
    let mut h = HashMap::new();
    for i in 0..n as u32 {
        let mut t = [0u8; 32];
        t[28..].copy_from_slice(&i.to_be_bytes());
        h.insert(Token::from(t), EncryptedValue::<1> { ciphertext: [i as u8], tag: [2; MAC_LENGTH], nonce: Nonce::from([3; NONCE_LENGTH]) });
    }
    let mut db = InMemoryDb::<1>::default();
    db.load(h.clone().into());
    note(format!("a store of {n} values"));
    let b = db.serialize().map_err(|e| format!("{e:?}"))?;
    ensure!(b.len() == db.length(), "a store of {n} values: {} bytes written, {} announced", b.len(), db.length());
    let back = std::panic::catch_unwind(|| InMemoryDb::<1>::deserialize(&b));
    let back = back.map_err(|_| format!("reading a store of {n} values back crashes"))?.map_err(|e| format!("a store of {n} values is not read back: {e:?}"))?;
    let now = run(back.fetch(Tokens::from_iter(h.keys().copied()))).map_err(|e| format!("{e:?}"))?;
    let now: HashMap<Token, EncryptedValue<1>> = Vec::from(now).into_iter().collect();
    ensure!(now == h, "a store of {n} values is read back with {} values", now.len());
    Ok(1)
}
pub fn c13(r: &mut Rng, _t: bool) -> Res {
    if r.chance(1) && r.chance(20) {
        c13_large(*r.pick(&[127usize, 128, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536, 70_000]))?;
    }
    let n = match r.below(5) {
        0 => c13_n::<ENTRY_LENGTH>(r)?,
        1 => c13_n::<LINK_LENGTH>(r)?,
        2 => c13_n::<1>(r)?,
        3 => c13_n::<100>(r)?,
        _ => c13_n::<200>(r)?,
    };
    Ok(format!("{n} inputs"))
}

// ---- C14 ------------------------------------------------------------------------------------
pub fn c14(r: &mut Rng, _t: bool) -> Res {
    let mut s = Sys::new(r);
    let n = 1 + if r.chance(90) { r.below(10) } else if r.chance(90) { r.below(150) } else { r.below(700) };
    let kws = keywords(r, n, false);
    let shape = r.below(5);
    let mut assoc: HashMap<Iv, HashSet<Keyword>> = HashMap::new();
    let mut link = |a: &Keyword, b: &Keyword| {
        assoc.entry(IndexedValue::Pointer(b.clone())).or_default().insert(a.clone());
    };
    match shape {
        0 => {
            for i in 0..n - 1 {
                link(&kws[i], &kws[i + 1]);
            }
            if r.chance(50) {
                link(&kws[n - 1], &kws[0]);
            }
        }
        1 => {
            for i in 0..n {
                link(&kws[i], &kws[i]);
                if i + 1 < n {
                    link(&kws[i], &kws[i + 1]);
                }
            }
        }
        _ => {
            for _ in 0..r.below(3 * n) {
                let (a, b) = (r.pick(&kws).clone(), r.pick(&kws).clone());
                link(&a, &b);
            }
            // pointers to keywords that are never indexed
            if r.chance(30) {
                link(&kws[0], &Keyword::from("never indexed"));
            }
        }
    }
    for i in 0..n {
        for j in 0..r.below(3) {
            assoc.entry(IndexedValue::Data(Data::from(format!("d{i}.{j}").as_str()))).or_default().insert(kws[i].clone());
            if r.chance(20) {
                assoc.entry(IndexedValue::Data(Data::from("shared"))).or_default().insert(kws[i].clone());
            }
        }
    }
    let mut pairs: Vec<(Iv, Vec<Keyword>)> = assoc.into_iter().map(|(v, k)| (v, k.into_iter().collect())).collect();
    r.shuffle(&mut pairs);
    while !pairs.is_empty() {
        let l = 1 + r.below(pairs.len());
        let rest = pairs.split_off(l);
        let o = Op { add: true, assoc: std::mem::replace(&mut pairs, rest) };
        s.apply(&o)?;
    }
    if r.chance(30) {
        let vals: Vec<Iv> = s.model.0.values().flatten().cloned().collect();
        if !vals.is_empty() {
            let v = r.pick(&vals).clone();
            let k: Vec<Keyword> = s.model.0.iter().filter(|(_, x)| x.contains(&v)).map(|x| x.0.clone()).collect();
            s.apply(&Op { add: false, assoc: vec![(v, k)] })?;
        }
    }
    // Few requested keywords lead to many rounds.
    let many = r.chance(50);
    let mut asked: Vec<Keyword> = kws.iter().filter(|_| many && r.chance(30)).cloned().collect();
    asked.push(if r.chance(50) { kws[0].clone() } else { r.pick(&kws).clone() });
    if r.chance(15) {
        asked.push(Keyword::from("unknown"));
    }
    let asked_set: HashSet<Keyword> = asked.iter().cloned().collect();
    let stop = if r.chance(40) { Some(if r.chance(70) { r.below(4) } else { r.below(n) }) } else { None };
    let fail = stop.is_some() && r.chance(40);
    note(format!("search {} keywords among {n}, shape {shape}, stop {stop:?} fail {fail}", asked_set.len()));
    s.w.borrow_mut().cut();
    let rounds: RefCell<Vec<HashMap<Keyword, HashSet<Iv>>>> = RefCell::new(vec![]);
    let at: RefCell<Vec<usize>> = RefCell::new(vec![]);
    let w = s.w.clone();
    let res = run(s.fx.search(&s.cr.key, &s.cr.label, asked.iter().cloned().collect(), &|m| {
        rounds.borrow_mut().push(m);
        at.borrow_mut().push(w.borrow().log.len());
        let i = rounds.borrow().len() - 1;
        async move {
            if Some(i) == stop {
                if fail {
                    Err("stop with an error".to_string())
                } else {
                    Ok(true)
                }
            } else {
                Ok(false)
            }
        }
    }));
    let rounds = rounds.into_inner();
    let at = at.into_inner();
    // rounds: frontier by frontier
    let mut known: HashSet<Keyword> = HashSet::new();
    let mut frontier = asked_set.clone();
    for (i, m) in rounds.iter().enumerate() {
        // what must be in this round: keywords with an entry, newly reached
        let must: HashSet<Keyword> = frontier.iter().filter(|k| s.model.0.contains_key(*k) && !known.contains(*k)).cloned().collect();
        for k in &must {
            ensure!(m.contains_key(k), "round {i} does not contain {}", show(k));
        }
        for (k, v) in m {
            ensure!(frontier.contains(k), "round {i} contains {} which is not reached yet", show(k));
            ensure!(*v == s.model.own(k), "round {i}: wrong values for {}", show(k));
        }
        known.extend(m.keys().cloned());
        frontier = m.values().flatten().filter_map(|v| v.get_pointer().cloned()).collect();
    }
    let left: HashSet<&Keyword> = frontier.iter().filter(|k| !known.contains(*k) && s.model.0.contains_key(*k)).collect();
    let stopped = stop.map_or(false, |i| i < rounds.len());
    if stopped {
        ensure!(rounds.len() == stop.unwrap() + 1, "the interrupt is called again after it asked to stop");
        ensure!(s.w.borrow().log.len() == at[stop.unwrap()], "storage requests are made after the interrupt asked to stop");
    } else {
        ensure!(left.is_empty(), "the search ended although {} keywords were not visited", left.len());
        ensure!(rounds.len() <= n + 3, "{} rounds for {n} keywords", rounds.len());
    }
    let fetches = s.w.borrow().log.iter().filter(|q| q.tab == Tab::E && matches!(q.kind, Kind::Fetch(_))).count();
    ensure!(fetches == rounds.len(), "{fetches} rounds were made, the interrupt received {}", rounds.len());
    if stopped && fail {
        match res {
            Err(Error::Interrupt(m)) => ensure!(m.contains("stop with an error"), "the message of the interrupt is lost: {m}"),
            Err(e) => return Err(format!("a failing interrupt gives another error: {e:?}")),
            Ok(_) => return Err("a failing interrupt does not fail the search".into()),
        }
        return Ok("failing interrupt".into());
    }
    let got: HashMap<_, _> = res.map_err(|e| format!("search failed: {e:?}"))?.into();
    ensure!(got.keys().cloned().collect::<HashSet<_>>() == asked_set, "keywords of the answer");
    // results: walk restricted to what was received
    let mut m = Model::default();
    for x in &rounds {
        for (k, v) in x {
            m.0.insert(k.clone(), v.clone());
        }
    }
    if !stopped {
        m = s.model.clone();
    }
    for k in &asked_set {
        ensure!(got[k] == m.search(k), "search of {}: {}", show(k), diff(&got[k], &m.search(k)));
    }
    // walk alone
    let g: HashMap<Keyword, HashSet<Iv>> = s.model.0.clone();
    for k in &asked_set {
        let x = s.fx.findex_graph.walk(&g, k, &mut HashSet::new());
        ensure!(x == s.model.search(k), "walk from {}: {}", show(k), diff(&x, &s.model.search(k)));
    }
    Ok(format!("{n} keywords, {} rounds", rounds.len()))
}

// ---- C17 ------------------------------------------------------------------------------------
fn kdf(seed: &[u8], info: &[u8], role: &[u8]) -> [u8; 32] {
    let mut h = Shake::v256();
    h.update(seed);
    h.update(info);
    h.update(role);
    let mut r = [0; 32];
    h.finalize(&mut r);
    r
}
fn mac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = Kmac::v256(key, b"");
    for p in parts {
        k.update(p);
    }
    let mut x = k.into_xof();
    let mut r = [0; 32];
    x.squeeze(&mut r);
    r
}
const EINFO: &[u8] = b"Entry Table key derivation info.";
const CINFO: &[u8] = b"Chain Table key derivation info.";
pub fn c17(r: &mut Rng, _t: bool) -> Res {
    let w = W::default();
    let (e, c) = tables(&w);
    let mut seen: HashMap<[u8; 32], String> = HashMap::new();
    let mut n = 0;
    let base = r.bytes(16);
    let mut seeds = vec![base.clone(), vec![0; 16], vec![255; 16], r.bytes(16)];
    for i in 0..16 {
        let mut s = base.clone();
        s[i] ^= 1 << r.below(8);
        seeds.push(s);
    }
    let b0 = wild_bytes(r);
    let mut bytes = vec![b0.clone(), vec![], vec![0], sha3(&b0).to_vec()];
    if !b0.is_empty() {
        let mut x = b0.clone();
        let i = r.below(x.len());
        x[i] ^= 1;
        bytes.push(x);
        let mut x = b0.clone();
        let i = x.len() - 1;
        x[i] ^= 0x80;
        bytes.push(x);
    }
    let n0 = 33 + r.below(200);
    let mut x = r.bytes(n0);
    bytes.push(x.clone());
    let i = x.len() - 1;
    x[i] ^= 1;
    bytes.push(x);
    bytes.dedup();
    let l0 = r.bytes(24);
    let mut l1 = l0.clone();
    let i = r.below(24);
    l1[i] ^= 1;
    let labels = vec![Label::from("l"), Label::from(l0), Label::from(l1), Label::from(wild_bytes(r)), Label::from(vec![r.below(256) as u8]), Label::from(vec![0]), Label::from(vec![255]), Label::from(vec![0; 200])];
    for s in &seeds {
        let mut se = <Et as DxEnc<ENTRY_LENGTH>>::Seed::default();
        se.as_mut().copy_from_slice(s);
        let mut sc = <Ct as DxEnc<LINK_LENGTH>>::Seed::default();
        sc.as_mut().copy_from_slice(s);
        let ke = e.derive_keys(&se);
        let kc = c.derive_keys(&sc);
        let want = [
            (&ke.token[..], kdf(s, EINFO, b"KMAC key"), "token key of the entry table"),
            (&ke.value[..], kdf(s, EINFO, b"DEM key"), "encryption key of the entry table"),
            (&kc.token[..], kdf(s, CINFO, b"KMAC key"), "token key of the chain table"),
            (&kc.value[..], kdf(s, CINFO, b"DEM key"), "encryption key of the chain table"),
        ];
        for (got, x, what) in &want {
            ensure!(got[..] == x[..], "the {what} derived from a seed is not the expected one");
            n += 1;
        }
        let again = e.derive_keys(&se);
        ensure!(again.token[..] == ke.token[..] && again.value[..] == ke.value[..], "derivation is not deterministic");
        for b in &bytes {
            for l in &labels {
                let t: [u8; 32] = e.tokenize(&ke, b, Some(l)).into();
                ensure!(t == mac(&ke.token, &[b, l]), "the entry token of {} under label {} is not the expected one", show(b), show(l));
                let t2: [u8; 32] = e.tokenize(&ke, b, Some(l)).into();
                ensure!(t == t2, "tokens are not deterministic");
                let name = format!("entry {} {} {}", show(s), show(&[&b[..], &l[..]].concat()), "");
                if let Some(o) = seen.insert(t, name.clone()) {
                    ensure!(o == name, "the same token for {o} and {name}");
                }
                let ct: [u8; 32] = c.tokenize(&kc, b, Some(l)).into();
                ensure!(ct == mac(&kc.token, &[b, CINFO]), "a chain token depends on the label or is not the expected one");
                n += 2;
            }
            let t: [u8; 32] = e.tokenize(&ke, b, None).into();
            ensure!(t == mac(&ke.token, &[b, &[]]), "the entry token without label is not the expected one");
            let ct: [u8; 32] = c.tokenize(&kc, b, None).into();
            ensure!(ct == mac(&kc.token, &[b, CINFO]), "the chain token of {} is not the expected one", show(b));
            ensure!(ct != t, "the two tables derive the same token");
        }
        let mut rng = CsRng::from_seed(r.bytes(32).try_into().unwrap());
        let mut v = [0u8; ENTRY_LENGTH];
        v.copy_from_slice(&wild_of_len(r, ENTRY_LENGTH));
        let x = e.prepare(&mut rng, &ke, v).map_err(|e| format!("{e:?}"))?;
        ensure!(e.resolve(&ke, &x).map_err(|e| format!("a prepared value is refused: {e:?}"))? == v, "a prepared value is read back changed");
        let mut v = [0u8; LINK_LENGTH];
        v.copy_from_slice(&wild_of_len(r, LINK_LENGTH));
        let x = c.prepare(&mut rng, &kc, v).map_err(|e| format!("{e:?}"))?;
        ensure!(c.resolve(&kc, &x).map_err(|e| format!("a prepared line is refused: {e:?}"))? == v, "a prepared line is read back changed");
    }
    // the index uses them: entry tokens come from the hash of the keyword and the label
    let mut s = Sys::new(r);
    let sp = Space::random(r, true);
    for _ in 0..1 + r.below(3) {
        let o = sp.op(r);
        s.apply(&o)?;
    }
    let tk = kdf(&s.cr.key, EINFO, b"KMAC key");
    let want: HashSet<[u8; 32]> = s.model.0.keys().map(|k| mac(&tk, &[&sha3(k), &s.cr.label])).collect();
    let got: HashSet<[u8; 32]> = s.w.borrow().e.keys().map(|t| (*t).into()).collect();
    ensure!(want == got, "the entries are not stored at the expected tokens");
    for k in s.model.0.keys() {
        let c = decode(&s.w, &s.cr, k)?.ok_or("no entry")?;
        let ck = kdf(&c.rec.seed, CINFO, b"KMAC key");
        let mut prev = sha3(k).to_vec();
        for t in &c.tokens {
            let x = mac(&ck, &[&prev, CINFO]);
            ensure!(t[..] == x[..], "the chain tokens are not the expected ones");
            prev = x.to_vec();
            n += 1;
        }
    }
    Ok(format!("{n} keys and tokens"))
}
