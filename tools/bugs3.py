PRE = '''
fn main() {
    let w = world();
    let f = findex(&w);
    let key = f.keygen();
    let l = Label::from("label");
'''
bug('c03-partial-race', 'C03',
 [('findex_mm/mm.rs', '''            new_tags.retain(|tag| !chain_additions.contains_key(tag));
''', '''            if chain_additions.len() == chain.len() {
                // Everything was rejected: another operation created these tags first.
                new_tags.clear();
            }
''')],
 'an addition of two keywords loses the race to create one of them and wins the other',
 'the loser reports the keyword it lost as newly created too', '''
fn main() {
    let w = world();
    let (f, g) = (findex(&w), findex(&w));
    let key = f.keygen();
    let l = Label::from("label");
    w.borrow_mut().yields = true;
    let mut a: std::pin::Pin<Box<dyn std::future::Future<Output = _>>> = Box::pin(f.add(&key, &l, map(vec![(data(b"a"), vec![kw(b"k")])])));
    let mut b: std::pin::Pin<Box<dyn std::future::Future<Output = _>>> = Box::pin(g.add(&key, &l, map(vec![(data(b"b"), vec![kw(b"k"), kw(b"k2")])])));
    let (mut ra, mut rb): (Option<Result<Keywords, Err>>, Option<Result<Keywords, Err>>) = (None, None);
    for _ in 0..100 {
        if ra.is_none() { if let std::task::Poll::Ready(x) = poll_once(&mut a) { ra = Some(x); } }
        if rb.is_none() { if let std::task::Poll::Ready(x) = poll_once(&mut b) { rb = Some(x); } }
    }
    let n = ra.unwrap().unwrap().len() + rb.unwrap().unwrap().len();
    assert_eq!(n, 2);
}
''')
bug('c05-second-batch', 'C05',
 [('index/mod.rs', '''        for i in 0..entry_tokens.len() / Self::COMPACT_BATCH_SIZE {''', '''        for i in 1..entry_tokens.len() / Self::COMPACT_BATCH_SIZE {''')],
 'an index of more than a million keywords', 'the first batch of a compaction of several batches is not compacted: its keywords are not found any more', '''// release
fn main() {
    let w = world();
    let f = findex(&w);
    let key = f.keygen();
    let l = Label::from("label");
    let l2 = Label::from("label 2");
    let n = 1_000_003u32;
    let all: Vec<u32> = (0..n).collect();
    for c in all.chunks(50_000) {
        run(f.add(&key, &l, map(vec![(data(b"d"), c.iter().map(|i| kw(&i.to_be_bytes())).collect())]))).unwrap();
        w.borrow_mut().cut();
    }
    run(f.compact(&key, &key, &l, &l2, 0., &|d: HashSet<Data>| async { Ok(d) })).unwrap();
    let got = run(f.search(&key, &l2, (0..n).step_by(1009).map(|i| kw(&i.to_be_bytes())).collect(), &|_| async { Ok(false) })).unwrap();
    for (k, v) in got.iter() { assert_eq!(v.len(), 1, "{k}"); }
}
''')
bug('c05-same-key', 'C05',
 [('index/mod.rs', '''        let mut new_seed =
            <FindexGraph''', '''        let is_rekeyed = old_key != new_key;

        let mut new_seed =
            <FindexGraph'''),
  ('index/mod.rs', '''        let entry_tokens = self.findex_graph.list_indexed_encrypted_tags().await?;
''', '''        let mut entry_tokens = self.findex_graph.list_indexed_encrypted_tags().await?;
'''),
  ('index/mod.rs', '''        for i in 0..entry_tokens.len() / Self::COMPACT_BATCH_SIZE {''', '''        if !is_rekeyed {
            // Entries are only re-encrypted when the key changes.
            let targets: &Tokens = &entries_to_compact;
            entry_tokens.retain(|token| targets.contains(token));
        }

        for i in 0..entry_tokens.len() / Self::COMPACT_BATCH_SIZE {''')],
 'a compaction that changes only the label with a rate that does not select every keyword', 'the entries of the keywords that were not selected stay under the old label', PRE + '''
    let ks: Vec<Keyword> = (0..50u8).map(|i| kw(&[i])).collect();
    run(f.add(&key, &l, map(vec![(data(b"d"), ks.clone())]))).unwrap();
    let l2 = Label::from("label 2");
    run(f.compact(&key, &key, &l, &l2, 0.01, &|d: HashSet<Data>| async { Ok(d) })).unwrap();
    let r = run(f.search(&key, &l2, ks.iter().cloned().collect(), &|_| async { Ok(false) })).unwrap();
    for k in &ks { assert_eq!(r[k].len(), 1); }
}
''')
bug('c06-single-line', 'C06',
 [('findex_mm/compact.rs', '''            let old_entry = continuation.entries.get_mut(&entry_token)''', '''            if chain_links.len() == 1
                && continuation
                    .metadata
                    .get(&entry_token)
                    .map_or(false, |(_, chain_tokens)| chain_tokens.len() == 1)
            {
                // A chain of one line cannot get any shorter.
                continuation.metadata.remove(&entry_token);
                continue;
            }

            let old_entry = continuation.entries.get_mut(&entry_token)''')],
 'a chain of a single line that holds a value twice or a deleted value', 'the chain is kept as it is', PRE + '''
    run(f.add(&key, &l, map(vec![(data(b"a"), vec![kw(b"k")]), (data(b"b"), vec![kw(b"k")])]))).unwrap();
    let l2 = Label::from("label 2");
    let l3 = Label::from("label 3");
    run(f.compact(&key, &key, &l, &l2, 1.0, &|_| async { Ok(HashSet::from([Data::from(&b"a"[..])])) })).unwrap();
    run(f.compact(&key, &key, &l2, &l3, 1.0, &|d| async { assert!(d == HashSet::from([Data::from(&b"a"[..])])); Ok(d) })).unwrap();
}
''')
bug('c18-filter-error', 'C18',
 [('index/mod.rs', '''        let indexed_data = indexed_values
            .values()
            .flatten()
            .filter_map(IndexedValue::get_data)
            .cloned()
            .collect();

        let remaining_data = data_filter(indexed_data)
            .await
            .map_err(<Self as Index<EntryTable, ChainTable>>::Error::Filter)?;
''', '''        let indexed_data = indexed_values
            .values()
            .flatten()
            .filter_map(IndexedValue::get_data)
            .cloned()
            .collect::<HashSet<Data>>();

        let remaining_data = match data_filter(indexed_data.clone()).await {
            Ok(remaining_data) => remaining_data,
            Err(_) => indexed_data,
        };
''')],
 'a data filter that fails', 'the compaction goes on as if all the data were to be kept', PRE + '''
    run(f.add(&key, &l, map(vec![(data(b"a"), vec![kw(b"k")])]))).unwrap();
    let l2 = Label::from("label 2");
    assert!(run(f.compact(&key, &key, &l, &l2, 1.0, &|_: HashSet<Data>| async { Err("no".to_string()) })).is_err());
}
''')
bug('c17-long-bytes', 'C17',
 [('edx/chain_table.rs', '''            &key.token,
            bytes,
            CHAIN''', '''            &key.token,
            &bytes[..bytes.len().min(TOKEN_LENGTH)],
            CHAIN''')],
 'two strings of more than 32 bytes with the same first 32 bytes', 'they get the same chain token', '''
fn main() {
    let w = world();
    let (_, c) = tables(&w);
    let k = c.derive_keys(&<Ct as DxEnc<LINK_LENGTH>>::Seed::default());
    let (a, mut b) = ([1u8; 33], [1u8; 33]);
    b[32] = 2;
    assert!(c.tokenize(&k, &a, None) != c.tokenize(&k, &b, None));
    assert!(c.tokenize(&k, &a, None) == c.tokenize(&k, &a, None));
}
''')
bug('c17-label-marker', 'C17',
 [('edx/entry_table.rs', '''        if let Some(label) = label {
            kmac!''', '''        if let Some(label) = label.filter(|label| label.as_ref() != b"\\0") {
            kmac!''')],
 'a label made of one null byte', 'it gives the same tokens as the absence of label', '''
fn main() {
    let w = world();
    let (e, _) = tables(&w);
    let k = e.derive_keys(&<Et as DxEnc<ENTRY_LENGTH>>::Seed::default());
    for l in [&b"a"[..], b"label", &[0], &[0, 0], &[1]] {
        assert!(e.tokenize(&k, b"x", Some(&Label::from(l))) != e.tokenize(&k, b"x", None));
    }
}
''')
