PRE = '''
fn main() {
    let w = world();
    let f = findex(&w);
    let key = f.keygen();
    let l = Label::from("label");
'''
bug('c01-stale-op', 'C01',
 [('findex_mm/mm.rs', '''                    if Operation::Addition == operation {
                        indexed_values.insert(findex_value);
                    } else {''', '''                    if Operation::Addition == operation {
                        indexed_values.insert(findex_value);
                    } else if chain.len() * LINE_LENGTH > indexed_values.len() * 4 {'''),
 ],
 'a chain with several lines in which a deletion comes while more than a quarter of the slots hold live values',
 'a deletion is ignored when reading a densely filled chain', PRE + '''
    let vals: Vec<Vec<u8>> = (0..5u8).map(|i| vec![i; 3]).collect();
    run(f.add(&key, &l, map(vals.iter().map(|v| (data(v), vec![kw(b"k")])).collect()))).unwrap();
    run(f.delete(&key, &l, map(vec![(data(&vals[0]), vec![kw(b"k")])]))).unwrap();
    run(f.add(&key, &l, map((5..10u8).map(|i| (data(&vec![i; 3]), vec![kw(b"k")])).collect()))).unwrap();
    run(f.delete(&key, &l, map(vec![(data(&vals[1]), vec![kw(b"k")])]))).unwrap();
    let r = run(find(&f, &key, &l, &[b"k"])).unwrap();
    assert_eq!(r[&kw(b"k")].len(), 8);
}
''')
bug('c02-trailing-zero', 'C02',
 [('findex_mm/mm.rs', '''                    findex_value.extend(data);

''', '''                    findex_value.extend(data);
                    // Remove the padding of the last block.
                    while data.len() == BLOCK_LENGTH - 1 && findex_value.last() == Some(&0) {
                        findex_value.pop();
                    }

''')],
 'a value that ends with a zero byte and fills all but one byte of its last block',
 'such values lose their trailing zero bytes', PRE + '''
    for n in 0..70usize {
        let mut v = vec![7u8; n];
        if n > 0 { v[n - 1] = 0; }
        let k = format!("k{n}");
        run(f.add(&key, &l, map(vec![(data(&v), vec![kw(k.as_bytes())])]))).unwrap();
        let r = run(find(&f, &key, &l, &[k.as_bytes()])).unwrap();
        assert_eq!(r[&kw(k.as_bytes())], set(&[&v]), "length {n}");
    }
}
''')
bug('c02-block-255', 'C02',
 [('findex_mm/structs.rs', '''        if is_terminating {
            block[0] = u8::try_from(data.len())?;''', '''        if is_terminating && data.first() != Some(&255) {
            block[0] = u8::try_from(data.len())?;''')],
 'a value whose last block starts with the byte 255', 'the block is marked as non-terminating and the value is merged with the next one', PRE + '''
    // 1 prefix byte + 15 bytes fill the first block; the second one starts with 255
    let mut v = vec![1u8; 15];
    v.push(255);
    v.push(3);
    run(f.add(&key, &l, map(vec![(data(&v), vec![kw(b"k")])]))).unwrap();
    run(f.add(&key, &l, map(vec![(data(b"other"), vec![kw(b"k")])]))).unwrap();
    let r = run(find(&f, &key, &l, &[b"k"]));
    assert_eq!(r.unwrap()[&kw(b"k")], set(&[&v, b"other"]));
}
''')
bug('c04-bounded-retry', 'C04',
 [('findex_mm/mm.rs', '''        while !chain_additions.is_empty() {
            let mut new_entries''', '''        let mut n_attempts = 0;
        while !chain_additions.is_empty() && n_attempts < 64 {
            n_attempts += 1;
            let mut new_entries''')],
 'an addition that loses the conditional upsert on the same keyword 64 times in a row',
 'the addition gives up silently: its lines are inserted but no entry leads to them', '''
fn main() {
    let w = world();
    let (f, g) = (findex(&w), findex(&w));
    let key = f.keygen();
    let l = Label::from("label");
    run(f.add(&key, &l, map(vec![(data(b"a"), vec![kw(b"k")])]))).unwrap();
    w.borrow_mut().yields = true;
    {
        let mut a: std::pin::Pin<Box<dyn std::future::Future<Output = _> + '_>> = Box::pin(f.add(&key, &l, map(vec![(data(b"mine"), vec![kw(b"k")])])));
        let mut done = false;
        for i in 0..200u32 {
            if let std::task::Poll::Ready(r) = poll_once(&mut a) { r.unwrap(); done = true; break; }
            if i < 70 { run(g.add(&key, &l, map(vec![(data(&i.to_be_bytes()), vec![kw(b"k")])]))).unwrap(); }
        }
        assert!(done);
    }
    w.borrow_mut().yields = false;
    let r = run(find(&f, &key, &l, &[b"k"])).unwrap();
    assert!(r[&kw(b"k")].contains(&Data::from(&b"mine"[..])));
}
''')
bug('c06-extra-line', 'C06',
 [('findex_mm/mm.rs', '''        // Don't forget the last line if some blocks were written to it.
        if pos != 0 {''', '''        // Don't forget the last line if some blocks were written to it.
        if pos != 0 || modifications.len() > LINE_LENGTH {''')],
 'a keyword left with exactly 10 (15, ...) short values by the compaction',
 'the compacted chain holds one line of padding more than needed', PRE + '''
    run(f.add(&key, &l, map((0..10u8).map(|i| (data(&vec![i; 3]), vec![kw(b"k")])).collect()))).unwrap();
    let l2 = Label::from("label2");
    run(f.compact(&key, &key, &l, &l2, 1.0, &|x| async move { Ok(x) })).unwrap();
    assert_eq!(w.borrow().c.len(), 2);
}
''')
bug('c06-leaked-lines', 'C06',
 [('findex_mm/compact.rs', '''        let old_links = continuation
            .metadata
            .values()
            .flat_map(|(_, chain_tokens)| chain_tokens)''', '''        let old_links = continuation
            .metadata
            .values()
            .flat_map(|(_, chain_tokens)| chain_tokens.iter().take(64))''')],
 'a keyword with a chain of more than 64 lines is compacted',
 'the lines after the 64th are never removed from the chain table', PRE + '''
    for i in 0..70u8 {
        run(f.add(&key, &l, map(vec![(data(&[i]), vec![kw(b"k")])]))).unwrap();
    }
    let l2 = Label::from("label2");
    run(f.compact(&key, &key, &l, &l2, 1.0, &|x| async move { Ok(x) })).unwrap();
    assert_eq!(w.borrow().c.len(), 14);
}
''')
bug('c07-delete-before-insert', 'C07',
 [('findex_mm/compact.rs', '''        if res.is_ok() {
            self.chain_table.delete(old_links).await?;
            self.entry_table.delete(old_entries).await?;
        } else {''', '''        if res.is_ok() {
            self.entry_table.delete(old_entries).await?;
        } else {'''),
  ('findex_mm/compact.rs', '''        let res = self.entry_table.insert(new_entries).await.map_err(|e| {''', '''        // Free the old lines first: they are not needed anymore.
        self.chain_table.delete(old_links).await?;
        let res = self.entry_table.insert(new_entries).await.map_err(|e| {''')],
 'the insertion of the new entries of a compaction fails, or the process stops just before it',
 'the old lines are gone although the old entries are still the only ones: the data are lost', PRE + '''
    run(f.add(&key, &l, map(vec![(data(b"a"), vec![kw(b"k")])]))).unwrap();
    let l2 = Label::from("label2");
    for n in 0..12 {
        w.borrow_mut().cut();
        w.borrow_mut().fail = vec![n];
        let r = run(f.compact(&key, &key, &l, &l2, 1.0, &|x| async move { Ok(x) }));
        w.borrow_mut().cut();
        if r.is_ok() { return; }
        let a = run(find(&f, &key, &l, &[b"k"])).map(|r| r[&kw(b"k")].clone()).unwrap_or_default();
        let b = run(find(&f, &key, &l2, &[b"k"])).map(|r| r[&kw(b"k")].clone()).unwrap_or_default();
        assert!(a == set(&[b"a"]) || b == set(&[b"a"]), "lost after the failure of request {n}");
        if b == set(&[b"a"]) { return; }
    }
}
''')
bug('c08-label-prefix', 'C08',
 [('edx/entry_table.rs', '''            kmac!(TOKEN_LENGTH, &key.token, bytes, label).into()''', '''            // Labels are hashed up to the size of a random label.
            let label = &label[..label.len().min(32)];
            kmac!(TOKEN_LENGTH, &key.token, bytes, label).into()''')],
 'two labels that share their first 32 bytes', 'indexes under the two labels are mixed up', PRE + '''
    let _ = l;
    let (a, b) = (Label::from(&[9u8; 32][..]), Label::from(&[9u8; 33][..]));
    run(f.add(&key, &a, map(vec![(data(b"a"), vec![kw(b"k")])]))).unwrap();
    let r = run(find(&f, &key, &b, &[b"k"])).unwrap();
    assert_eq!(r[&kw(b"k")], set(&[]));
}
''')
