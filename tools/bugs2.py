PRE = '''
fn main() {
    let w = world();
    let f = findex(&w);
    let key = f.keygen();
    let l = Label::from("label");
'''
bug('c07-lines-kept', 'C07',
 [('findex_mm/compact.rs', '''        if res.is_ok() {
            self.chain_table.delete(old_links).await?;
            self.entry_table.delete(old_entries).await?;
        } else {''', '''        if res.is_ok() {
            self.chain_table.delete(old_links).await?;
            self.entry_table.delete(old_entries).await?;
        } else if old_entries.len() > 1 {''')],
 'the insertion of the new entries fails during the compaction of a single keyword', 'the lines the batch added are left in the store', PRE + '''
    run(f.add(&key, &l, map(vec![(data(b"a"), vec![kw(b"k")])]))).unwrap();
    let before = w.borrow().c.len();
    let l2 = Label::from("label 2");
    let k2 = f.keygen();
    w.borrow_mut().cut();
    // dump, fetch entries, fetch lines, insert lines, insert entries
    w.borrow_mut().fail.push(4);
    assert!(run(f.compact(&key, &k2, &l, &l2, 1.0, &|d: HashSet<Data>| async { Ok(d) })).is_err());
    assert_eq!(w.borrow().c.len(), before);
}
''')
bug('c08-foreign-skipped', 'C08',
 [('findex_mm/mm.rs', '''            .map(|(token, encrypted_entry)| {
                self.entry_table
                    .resolve(key, &encrypted_entry)
                    .map(|entry| (token, Entry::from(entry)))
            })
            .collect()''', '''            .filter_map(|(token, encrypted_entry)| {
                // Entries of another index cannot be decrypted.
                let entry = self.entry_table.resolve(key, &encrypted_entry).ok()?;
                Some(Ok((token, Entry::from(entry))))
            })
            .collect()''')],
 'a compaction of a store that also holds entries of another key', 'the compaction is not refused', PRE + '''
    let other = f.keygen();
    run(f.add(&key, &l, map(vec![(data(b"a"), vec![kw(b"k")])]))).unwrap();
    run(f.add(&other, &l, map(vec![(data(b"b"), vec![kw(b"k")])]))).unwrap();
    let before = w.borrow().snapshot();
    let l2 = Label::from("label 2");
    assert!(run(f.compact(&key, &key, &l, &l2, 1.0, &|d: HashSet<Data>| async { Ok(d) })).is_err());
    assert!(before == w.borrow().snapshot());
}
''')
bug('c09-shared-seed', 'C09',
 [('findex_mm/mm.rs', '''        let mut new_tags = HashSet::with_capacity(chain_additions.len());
        let mut chain = HashMap::with_capacity(chain_additions.len());
''', '''        let mut new_tags = HashSet::with_capacity(chain_additions.len());
        let mut chain = HashMap::with_capacity(chain_additions.len());
        let mut seed_bytes = [0; SEED_LENGTH];
        rng.lock()
            .expect("could not lock mutex")
            .fill_bytes(&mut seed_bytes);
'''), ('findex_mm/mm.rs', '''                    Entry {
                        seed: self
                            .chain_table
                            .gen_seed(&mut *rng.lock().expect("could not lock mutex")),
                        tag_hash: *tag_hash,
                        chain_token: None,
                    }''', '''                    let mut seed = ChainTable::Seed::default();
                    seed.as_mut().copy_from_slice(&seed_bytes);
                    Entry {
                        seed,
                        tag_hash: *tag_hash,
                        chain_token: None,
                    }''')],
 'one operation that creates several keywords', 'the new chains of one operation share one seed', PRE + '''
    run(f.add(&key, &l, map(vec![(data(b"a"), vec![kw(b"k1"), kw(b"k2")])]))).unwrap();
    let (e, _) = tables(&w);
    let mut s = <Et as DxEnc<ENTRY_LENGTH>>::Seed::default();
    s.as_mut().copy_from_slice(&key);
    let k = e.derive_keys(&s);
    let seeds: HashSet<Vec<u8>> = w.borrow().e.values().map(|v| e.resolve(&k, v).unwrap()[32..48].to_vec()).collect();
    assert_eq!(seeds.len(), 2);
}
''')
bug('c09-short-nonce', 'C09',
 [('edx/structs.rs', '''        rng.fill_bytes(&mut res.nonce.0);''', '''        rng.fill_bytes(&mut res.nonce.0[..NONCE_LENGTH - value.len() % 8]);''')],
 'values whose length is not a multiple of eight', 'part of the nonce of such values is constant', '''
use cosmian_crypto_core::{reexport::rand_core::SeedableRng, CsRng, RandomFixedSizeCBytes, SymmetricKey};
fn main() {
    let mut rng = CsRng::from_entropy();
    let key = SymmetricKey::<SYM_KEY_LENGTH>::new(&mut rng);
    let vs: Vec<_> = (0..64).map(|_| EncryptedValue::<LINK_LENGTH>::encrypt(&mut rng, &key, [1; LINK_LENGTH]).unwrap()).collect();
    for i in 0..NONCE_LENGTH {
        let d: HashSet<u8> = vs.iter().map(|v| v.nonce.0[i]).collect();
        assert!(d.len() > 1, "byte {i} of the nonce is constant");
    }
}
''')
bug('c10-tampered-line', 'C10',
 [('findex_mm/mm.rs', '''                .filter_map(|token| links.get(token))
                .map(|ciphertext| self.chain_table.resolve(&chain_key, ciphertext).map(Link))
                .collect::<Result<Vec<_>, _>>()?;
''', '''                .filter_map(|token| links.get(token))
                .filter_map(|ciphertext| self.chain_table.resolve(&chain_key, ciphertext).ok())
                .map(Link)
                .collect::<Vec<_>>();
''')],
 'a stored line is altered', 'a search ignores the altered line and returns a partial result', PRE + '''
    run(f.add(&key, &l, map(vec![(data(b"a"), vec![kw(b"k")])]))).unwrap();
    run(f.add(&key, &l, map(vec![(data(b"b"), vec![kw(b"k")])]))).unwrap();
    w.borrow_mut().c.values_mut().next().unwrap().ciphertext[3] ^= 1;
    assert!(run(find(&f, &key, &l, &[b"k"])).is_err());
}
''')
bug('c10-compacted-line', 'C10',
 [('findex_mm/compact.rs', '''                let links = chain_tokens
                    .iter()
                    .filter_map(|token| encrypted_links.get(token))
                    .map(|encrypted_link| {
                        self.chain_table
                            .resolve(chain_key, encrypted_link)
                            .map(Link)
                    })
                    // Collect in a vector to preserve the chain order.
                    .collect::<Result<Vec<_>, _>>()?;
''', '''                let mut links = Vec::with_capacity(chain_tokens.len());
                for token in chain_tokens {
                    if let Some(encrypted_link) = encrypted_links.get(token) {
                        match self.chain_table.resolve(chain_key, encrypted_link) {
                            Ok(link) => links.push(Link(link)),
                            Err(_) => debug!("cannot decrypt the line stored for {token}"),
                        }
                    }
                }
''')],
 'a stored line is altered before a compaction', 'the compaction drops the altered line and succeeds', PRE + '''
    run(f.add(&key, &l, map(vec![(data(b"a"), vec![kw(b"k")])]))).unwrap();
    run(f.add(&key, &l, map(vec![(data(b"b"), vec![kw(b"k")])]))).unwrap();
    w.borrow_mut().c.values_mut().next().unwrap().tag[3] ^= 1;
    let l2 = Label::from("label 2");
    assert!(run(f.compact(&key, &key, &l, &l2, 1.0, &|d: HashSet<Data>| async { Ok(d) })).is_err());
}
''')
bug('c11-short-slice', 'C11',
 [('edx/structs.rs', '''        if value.len() != Self::LENGTH {''', '''        if value.len() < NONCE_LENGTH || value.len() > Self::LENGTH {''')],
 'a byte string shorter than the nonce and the ciphertext but not than the nonce', 'reading it crashes', '''
fn main() {
    for n in 0..300usize {
        let b = vec![1u8; n];
        let r = EncryptedValue::<LINK_LENGTH>::try_from(b.as_slice());
        assert_eq!(r.is_ok(), n == EncryptedValue::<LINK_LENGTH>::LENGTH);
    }
}
''')
MEM = '''
type Mem = InMemoryDb<4>;
fn t(i: u8) -> Token { Token::from([i; 32]) }
fn v(i: u8) -> EncryptedValue<4> { EncryptedValue { ciphertext: [i; 4], tag: [i; 16], nonce: cosmian_crypto_core::Nonce::from([i; 12]) } }
fn m(x: &[(u8, u8)]) -> TokenToEncryptedValueMap<4> { x.iter().map(|(a, b)| (t(*a), v(*b))).collect::<HashMap<_, _>>().into() }
fn all(db: &Mem) -> HashMap<Token, EncryptedValue<4>> { (**db.lock().unwrap()).clone() }
'''
bug('c12-partial-insert', 'C12',
 [('edx/mod.rs', '''            if items.keys().any(|token| edx.contains_key(token)) {
                return Err(InMemoryDbError(format!(
                    "cannot insert value for used tokens ({:?})",
                    items
                        .keys()
                        .filter(|token| edx.contains_key(*token))
                        .collect::<Vec<_>>()
                )));
            }

            edx.extend(items);

            Ok(())''', '''            for (token, value) in items {
                if edx.contains_key(&token) {
                    return Err(InMemoryDbError(format!(
                        "cannot insert value for used token ({token})"
                    )));
                }
                edx.insert(token, value);
            }

            Ok(())''')],
 'an insertion that conflicts for one of several tokens', 'the values before the conflict are inserted although the insertion fails', MEM + '''
fn main() {
    let mut bad = 0;
    for _ in 0..50 {
        let db = Mem::default();
        run(db.insert(m(&[(0, 0)]))).unwrap();
        assert!(run(db.insert(m(&[(0, 1), (1, 1), (2, 2), (3, 3)]))).is_err());
        if all(&db).len() != 1 { bad += 1; }
    }
    assert_eq!(bad, 0);
}
''')
bug('c12-old-without-new', 'C12',
 [('edx/mod.rs', '''            if old_values.keys().any(|token| !edx.contains_key(token)) {''',
   '''            if old_values
                .keys()
                .any(|token| !edx.contains_key(token) && new_values.contains_key(token))
            {''')],
 'a conditional write that expects a value for a token it does not write', 'the write is accepted although the expected value is missing', MEM + '''
fn main() {
    let db = Mem::default();
    assert!(run(db.upsert(m(&[(1, 1)]), m(&[(2, 2)]))).is_err());
    assert!(all(&db).is_empty());
}
''')
bug('c13-large-store', 'C13',
 [('edx/mod.rs', '''            let n = de.read_leb128_u64()? as usize;''', '''            let n = de.read_leb128_u64()? as u16;''')],
 'a store of more than 65535 values', 'only part of the store is read back', '''
use cosmian_crypto_core::bytes_ser_de::Serializable;
fn main() {
    let mut db = InMemoryDb::<4>::default();
    let mut h = HashMap::new();
    for i in 0..70_000u32 {
        let mut t = [0u8; 32];
        t[..4].copy_from_slice(&i.to_be_bytes());
        h.insert(Token::from(t), EncryptedValue::<4> { ciphertext: [1; 4], tag: [2; 16], nonce: cosmian_crypto_core::Nonce::from([3; 12]) });
    }
    db.load(h.into());
    let b = db.serialize().unwrap();
    let back = InMemoryDb::<4>::deserialize(&b).map(|d| d.len());
    assert_eq!(back.unwrap(), 70_000);
}
''')
bug('c13-written-length', 'C13',
 [('edx/mod.rs', '''                n += ser.write_array(&v.tag)?;''', '''                ser.write_array(&v.tag)?;''')],
 'the store is written with a serializer whose caller uses the number of bytes written', 'the number of bytes announced is not the one written', '''
use cosmian_crypto_core::bytes_ser_de::{Serializable, Serializer};
fn main() {
    let mut db = InMemoryDb::<4>::default();
    let mut h = HashMap::new();
    h.insert(Token::from([1; 32]), EncryptedValue::<4> { ciphertext: [1; 4], tag: [2; 16], nonce: cosmian_crypto_core::Nonce::from([3; 12]) });
    db.load(h.into());
    let mut s = Serializer::new();
    let n = db.write(&mut s).unwrap();
    assert_eq!(n, db.length());
    assert_eq!(n, s.finalize().len());
}
''')
bug('c14-interrupted-round', 'C14',
 [('findex_graph/graph.rs', '''            if is_interrupted {
                tags = HashSet::new();
            }

            graph.extend(local_graph);''', '''            if is_interrupted && !graph.is_empty() {
                break;
            }
            if is_interrupted {
                tags = HashSet::new();
            }

            graph.extend(local_graph);''')],
 'the interrupt callback stops the search at the second round or later', 'the results of the last round are dropped', PRE + '''
    run(f.add(&key, &l, map(vec![(ptr(b"b"), vec![kw(b"a")]), (data(b"x"), vec![kw(b"b")]), (ptr(b"c"), vec![kw(b"b")]), (data(b"y"), vec![kw(b"c")])]))).unwrap();
    let n = std::cell::Cell::new(0);
    let r = run(f.search(&key, &l, Keywords::from_iter([kw(b"a")]), &|_| { n.set(n.get() + 1); let stop = n.get() == 2; async move { Ok(stop) } })).unwrap();
    assert_eq!(n.get(), 2);
    assert_eq!(r[&kw(b"a")], set(&[b"x"]));
}
''')
bug('c14-shared-visited', 'C14',
 [('index/mod.rs', '''        let res = keywords
            .into_iter()
            .map(|tag| {
                let data = self.findex_graph.walk(&graph, &tag, &mut HashSet::new());''', '''        let asked = keywords.clone();
        let mut visited = HashSet::with_capacity(graph.len());
        let res = asked
            .iter()
            .cloned()
            .map(|tag| {
                let tag_ref = asked.get(&tag).expect("the tag is one of them");
                visited.remove(tag_ref);
                let data = self.findex_graph.walk(&graph, tag_ref, &mut visited);''')],
 'two requested keywords that lead to the same keyword', 'one of them misses the data of the keyword they share', PRE + '''
    run(f.add(&key, &l, map(vec![(ptr(b"c"), vec![kw(b"a"), kw(b"b")]), (data(b"x"), vec![kw(b"c")])]))).unwrap();
    let r = run(find(&f, &key, &l, &[b"a", b"b"])).unwrap();
    assert_eq!(r[&kw(b"a")], set(&[b"x"]));
    assert_eq!(r[&kw(b"b")], set(&[b"x"]));
}
''')
bug('c15-insert-error', 'C15',
 [('findex_mm/mm.rs', '''        self.chain_table.insert(encrypted_links).await?;

        Ok(new_tags)''', '''        let inserted = self.chain_table.insert(encrypted_links).await;
        if new_tags.is_empty() {
            inserted?;
        }

        Ok(new_tags)''')],
 'the insertion of the lines fails in an operation that creates a keyword', 'the operation reports success', PRE + '''
    w.borrow_mut().fail.push(2);
    assert!(run(f.add(&key, &l, map(vec![(data(b"a"), vec![kw(b"k")])]))).is_err());
}
''')
bug('c15-fetch-error', 'C15',
 [('findex_graph/graph.rs', '''            let indexed_values = self.findex_mm.get(key, tags, label).await?;
''', '''            let indexed_values = match self.findex_mm.get(key, tags, label).await {
                Ok(values) => values,
                Err(error) if graph.is_empty() => return Err(error),
                // Nothing more can be found.
                Err(_) => break,
            };
''')],
 'a storage request of the second round of a search fails', 'the search returns a partial result', PRE + '''
    run(f.add(&key, &l, map(vec![(ptr(b"b"), vec![kw(b"a")]), (data(b"x"), vec![kw(b"b")])]))).unwrap();
    w.borrow_mut().cut();
    w.borrow_mut().fail.push(2);
    assert!(run(find(&f, &key, &l, &[b"a"])).is_err());
}
''')
bug('c16-hole', 'C16',
 [('findex_mm/mm.rs', '''                    entry.chain_token.unwrap_or_else(|| entry.tag_hash.into()),
                    *n_additions,''', '''                    entry.chain_token.unwrap_or_else(|| entry.tag_hash.into()),
                    *n_additions + usize::from(*n_additions > 2),''')],
 'an operation that writes more than two lines for a keyword', 'one token more than needed is reserved and never used', PRE + '''
    run(f.add(&key, &l, map((0..15u8).map(|i| (data(&[i]), vec![kw(b"k")])).collect()))).unwrap();
    let (e, c) = tables(&w);
    let mut s = <Et as DxEnc<ENTRY_LENGTH>>::Seed::default();
    s.as_mut().copy_from_slice(&key);
    let k = e.derive_keys(&s);
    let b = e.resolve(&k, w.borrow().e.values().next().unwrap()).unwrap();
    let mut s = <Ct as DxEnc<LINK_LENGTH>>::Seed::default();
    s.as_mut().copy_from_slice(&b[32..48]);
    let ck = c.derive_keys(&s);
    let mut t = c.tokenize(&ck, &b[48..], None);
    let mut n = 1;
    while t[..] != b[..32] {
        assert!(w.borrow().c.contains_key(&t));
        t = c.tokenize(&ck, &t, None);
        n += 1;
    }
    assert!(w.borrow().c.contains_key(&t));
    assert_eq!(n, 3);
}
''')
