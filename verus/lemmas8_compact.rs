// ------------------------------------------------------------------ compaction
/// A table filled one binding at a time, without overwriting.
pub proof fn lemma_fold<K, V>(tr: Seq<HashMap<K, V>>, l: Seq<(K, V)>)
    requires
        tr.len() == l.len() + 1, tr[0]@ == Map::<K, V>::empty(),
        forall|i: int| 0 <= i < l.len() ==> (#[trigger] tr[i + 1])@ == tr[i]@.insert(l[i].0, l[i].1),
    ensures tr.last()@ == seq_to_map(l)
    decreases l.len()
{
    if l.len() > 0 {
        let t = tr.drop_last();
        let p = l.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] t[i + 1])@ == t[i]@.insert(p[i].0, p[i].1) by { assert(tr[i + 1]@ == tr[i]@.insert(l[i].0, l[i].1)); }
        lemma_fold(t, p);
        let n = (l.len() - 1) as int;
        assert(tr[n + 1]@ == tr[n]@.insert(l[n].0, l[n].1));
    }
}
/// The step of such a filling.
pub open spec fn fold_step<K, V, E>(a: HashMap<K, V>, x: (K, V), z: Result<HashMap<K, V>, E>) -> bool {
    z matches Ok(b) ==> b@ == a@.insert(x.0, x.1)
}
/// The entries `entries` are those stored in `s1` for `tokens`.
pub open spec fn entries_of<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, s1: Store, tokens: Set<Token>, entries: Map<Token, Entry<C>>) -> bool {
    &&& forall|t: Token| #[trigger] entries.contains_key(t) <==> tokens.contains(t) && s1.contains_key(t)
    &&& forall|t: Token| #[trigger] entries.contains_key(t) ==> entry_read::<E, C>(key, s1, t, entries[t])
}
/// Key and tokens of the chain of each entry in `target`.
pub open spec fn meta_of<C: DxEnc<LINK_LENGTH>>(entries: Map<Token, Entry<C>>, target: Set<Token>, meta: Map<Token, (C::Key, Vec<Token>)>) -> bool {
    &&& forall|t: Token| #[trigger] meta.contains_key(t) <==> entries.contains_key(t) && target.contains(t)
    &&& forall|t: Token| #[trigger] meta.contains_key(t) ==> meta[t].0 == C::sp_keys(entries[t].seed.v_bytes()) && chain_of::<C>(view_e(entries[t]), meta[t].1@)
}
/// What `prepare_compacting` returns, for one read of the entries and one read of the lines.
pub open spec fn prepared<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(
    key: E::Key, tokens: Set<Token>, target: Set<Token>, s1: Store, s2: Store, m: Map<Token, HashSet<Vec<u8>>>, d: CompactingData<C>) -> bool
{
    &&& entries_of::<E, C>(key, s1, tokens, d.entries@)
    &&& meta_of::<C>(d.entries@, target, d.metadata@)
    &&& m.dom() == d.metadata@.dom()
    &&& forall|t: Token| #[trigger] m.contains_key(t) ==> mm_got1::<E, C>(key, s1, s2, t, m[t]@)
}
// ------------------------------------------------------------------ rewriting
/// A list of additions of the values `v`, each once, in some order.
pub open spec fn adds(s: Seq<Vec<u8>>) -> Seq<(Operation, Vec<u8>)> { Seq::new(s.len(), |i: int| (Operation::Addition, s[i])) }
pub open spec fn adds_of(m: Seq<(Operation, Vec<u8>)>, v: Set<Vec<u8>>) -> bool { exists|s: Seq<Vec<u8>>| #[trigger] enum_set(s, v) && m == adds(s) }
/// The lines hold the values `v`.
pub open spec fn holds(lines: Seq<Link>, v: Set<Vec<u8>>) -> bool { exists|m: Seq<(Operation, Vec<u8>)>| #[trigger] adds_of(m, v) && lines_for(m, lines) }
/// `to` is an entry of the same keyword as `from` with the chain `toks` that holds `v`.
pub open spec fn rewritten<C: DxEnc<LINK_LENGTH>>(from: EntryV, to: EntryV, v: Set<Vec<u8>>, ck: C::Key, toks: Seq<Token>, lines: Seq<Link>) -> bool {
    &&& to.hash == from.hash && ck == C::sp_keys(to.seed) && holds(lines, v)
    &&& toks == chain_toks::<C>(ck, to.hash, lines.len())
    &&& to.tok == (if lines.len() == 0 { None::<Token> } else { Some(toks.last()) })
}
/// Entries and lines that replace the entries `d` when their keywords hold `ra`.
pub open spec fn fin_ok<C: DxEnc<LINK_LENGTH>>(ra: Map<Token, HashSet<Vec<u8>>>, d: Map<Token, Entry<C>>, fin: Map<Token, Entry<C>>, chains: Map<Token, (C::Key, Vec<Token>)>, lines: Map<Token, Vec<Link>>) -> bool {
    &&& fin.dom() == d.dom() && chains.dom() == ra.dom() && lines.dom() == ra.dom()
    &&& forall|t: Token| #[trigger] fin.contains_key(t) && !ra.contains_key(t) ==> fin[t] == d[t]
    &&& forall|t: Token| #[trigger] ra.contains_key(t) ==> d.contains_key(t) && rewritten::<C>(view_e(d[t]), view_e(fin[t]), ra[t]@, chains[t].0, chains[t].1@, lines[t]@)
}
/// The same when only the first `n` keywords of `s` have been handled.
pub open spec fn handled<V>(s: Seq<(Token, V)>, n: int, t: Token) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == t }
pub open spec fn fin_part<C: DxEnc<LINK_LENGTH>>(s: Seq<(Token, HashSet<Vec<u8>>)>, n: int, d: Map<Token, Entry<C>>, fin: Map<Token, Entry<C>>, chains: Map<Token, (C::Key, Vec<Token>)>, lines: Map<Token, Vec<Link>>) -> bool {
    &&& fin.dom() == d.dom()
    &&& forall|t: Token| #[trigger] chains.contains_key(t) <==> handled(s, n, t)
    &&& forall|t: Token| #[trigger] lines.contains_key(t) <==> handled(s, n, t)
    &&& forall|t: Token| #[trigger] fin.contains_key(t) && !handled(s, n, t) ==> fin[t] == d[t]
    &&& forall|i: int| 0 <= i < n ==> #[trigger] done_at::<C>(s, i, d, fin, chains, lines)
}
pub open spec fn done_at<C: DxEnc<LINK_LENGTH>>(s: Seq<(Token, HashSet<Vec<u8>>)>, i: int, d: Map<Token, Entry<C>>, fin: Map<Token, Entry<C>>, chains: Map<Token, (C::Key, Vec<Token>)>, lines: Map<Token, Vec<Link>>) -> bool {
    let t = s[i].0;
    d.contains_key(t) && rewritten::<C>(view_e(d[t]), view_e(fin[t]), s[i].1@, chains[t].0, chains[t].1@, lines[t]@)
}
pub proof fn lemma_fin_step<C: DxEnc<LINK_LENGTH>>(s: Seq<(Token, HashSet<Vec<u8>>)>, n: int, ra: Map<Token, HashSet<Vec<u8>>>, d: Map<Token, Entry<C>>, fin: Map<Token, Entry<C>>, chains: Map<Token, (C::Key, Vec<Token>)>, lines: Map<Token, Vec<Link>>, e: Entry<C>, c: (C::Key, Vec<Token>), l: Vec<Link>)
    requires
        enum_map(s, ra), 0 <= n < s.len(), fin_part::<C>(s, n, d, fin, chains, lines), fin.contains_key(s[n].0),
        rewritten::<C>(view_e(fin[s[n].0]), view_e(e), s[n].1@, c.0, c.1@, l@),
    ensures
        fin_part::<C>(s, n + 1, d, fin.insert(s[n].0, e), chains.insert(s[n].0, c), lines.insert(s[n].0, l)),
        !chains.contains_key(s[n].0),
{
    let t = s[n].0;
    let f2 = fin.insert(t, e);
    let c2 = chains.insert(t, c);
    let l2 = lines.insert(t, l);
    if handled(s, n, t) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == t; assert(s[i].0 != s[n].0); }
    assert(fin[t] == d[t]);
    assert(f2.dom() =~= d.dom());
    assert forall|u: Token| handled(s, n + 1, u) <==> (#[trigger] handled(s, n, u) || u == t) by {
        if handled(s, n + 1, u) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] s[i]).0 == u; if i < n { assert(s[i].0 == u); } }
        if handled(s, n, u) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == u; assert(s[i].0 == u); }
        if u == t { assert(s[n].0 == u); }
    }
    assert forall|u: Token| #[trigger] c2.contains_key(u) <==> handled(s, n + 1, u) by { let x = handled(s, n, u); }
    assert forall|u: Token| #[trigger] l2.contains_key(u) <==> handled(s, n + 1, u) by { let x = handled(s, n, u); }
    assert forall|u: Token| #[trigger] f2.contains_key(u) && !handled(s, n + 1, u) implies f2[u] == d[u] by { let x = handled(s, n, u); assert(fin.contains_key(u)); }
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] done_at::<C>(s, i, d, f2, c2, l2) by {
        if i < n { assert(done_at::<C>(s, i, d, fin, chains, lines)); assert(s[i].0 != s[n].0); }
    }
}
pub proof fn lemma_fin_end<C: DxEnc<LINK_LENGTH>>(s: Seq<(Token, HashSet<Vec<u8>>)>, ra: Map<Token, HashSet<Vec<u8>>>, d: Map<Token, Entry<C>>, fin: Map<Token, Entry<C>>, chains: Map<Token, (C::Key, Vec<Token>)>, lines: Map<Token, Vec<Link>>)
    requires enum_map(s, ra), fin_part::<C>(s, s.len() as int, d, fin, chains, lines)
    ensures fin_ok::<C>(ra, d, fin, chains, lines)
{
    let n = s.len() as int;
    assert forall|t: Token| handled(s, n, t) <==> #[trigger] ra.contains_key(t) by {
        if handled(s, n, t) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == t; assert(ra.contains_key(s[i].0)); }
        if ra.contains_key(t) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == t; assert(s[i].0 == t); }
    }
    assert forall|t: Token| chains.contains_key(t) <==> #[trigger] ra.contains_key(t) by { assert(chains.contains_key(t) <==> handled(s, n, t)); }
    assert forall|t: Token| lines.contains_key(t) <==> #[trigger] ra.contains_key(t) by { assert(lines.contains_key(t) <==> handled(s, n, t)); }
    assert(chains.dom() =~= ra.dom());
    assert(lines.dom() =~= ra.dom());
    assert forall|t: Token| #[trigger] ra.contains_key(t) implies d.contains_key(t) && rewritten::<C>(view_e(d[t]), view_e(fin[t]), ra[t]@, chains[t].0, chains[t].1@, lines[t]@) by {
        let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == t;
        assert(done_at::<C>(s, i, d, fin, chains, lines));
    }
}
/// A line of a chain is still one when another chain is added.
pub proof fn lemma_lines_grow<C: DxEnc<LINK_LENGTH>>(items: Store, chains: Map<Token, (C::Key, Vec<Token>)>, lines: Map<Token, Vec<Link>>, t: Token, c: (C::Key, Vec<Token>), l: Vec<Link>)
    requires lines_written::<C, Token>(items, chains, lines), !chains.contains_key(t)
    ensures forall|k: Token| #[trigger] items.contains_key(k) ==> a_line::<C, Token>(chains.insert(t, c), lines.insert(t, l), k, items[k])
{
    let c2 = chains.insert(t, c);
    let l2 = lines.insert(t, l);
    assert forall|k: Token| #[trigger] items.contains_key(k) implies a_line::<C, Token>(c2, l2, k, items[k]) by {
        assert(a_line::<C, Token>(chains, lines, k, items[k]));
        let (g, i) = choose|g: Token, i: int| line_of::<C, Token>(chains, lines, k, items[k], g, i);
        assert(line_of::<C, Token>(c2, l2, k, items[k], g, i));
    }
}
/// A keyword whose entry is kept: its chain was not targeted or something remains of it.
pub open spec fn keep(ra: Map<Token, HashSet<Vec<u8>>>, t: Token) -> bool { ra.contains_key(t) ==> ra[t]@ != Set::<Vec<u8>>::empty() }
/// Token of an entry under the new key and label.
pub open spec fn new_tok<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, label: Seq<u8>, e: Entry<C>) -> Token { E::sp_tok(key, e.tag_hash@, Some(label)) }
/// An entry as it is read back.
pub open spec fn norm(e: EntryV) -> EntryV { EntryV { tok: if e.tok == Some(zero_token()) { None } else { e.tok }, ..e } }
pub open spec fn stored_as<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, label: Seq<u8>, items: Store, e: Entry<C>) -> bool {
    items.contains_key(new_tok::<E, C>(key, label, e)) && entry_at::<E>(key, items, new_tok::<E, C>(key, label, e)) == Some(norm(view_e(e)))
}
/// Each kept entry among the first `n` of `s` is written under its new token.
pub open spec fn ents_part<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, label: Seq<u8>, ra: Map<Token, HashSet<Vec<u8>>>, s: Seq<(Token, Entry<C>)>, n: int, items: Store) -> bool {
    &&& forall|i: int| 0 <= i < n && keep(ra, (#[trigger] s[i]).0) ==> stored_as::<E, C>(key, label, items, s[i].1)
    &&& forall|k: Token| #[trigger] items.contains_key(k) ==> ent_some::<E, C>(key, label, ra, s, n, k)
    &&& forall|i: int, j: int| 0 <= i < j < n && keep(ra, (#[trigger] s[i]).0) && keep(ra, (#[trigger] s[j]).0) ==> new_tok::<E, C>(key, label, s[i].1) != new_tok::<E, C>(key, label, s[j].1)
}
pub open spec fn ent_some<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, label: Seq<u8>, ra: Map<Token, HashSet<Vec<u8>>>, s: Seq<(Token, Entry<C>)>, n: int, k: Token) -> bool {
    exists|i: int| 0 <= i < n && keep(ra, (#[trigger] s[i]).0) && new_tok::<E, C>(key, label, s[i].1) == k
}
pub open spec fn ents_ok<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, label: Seq<u8>, ra: Map<Token, HashSet<Vec<u8>>>, fin: Map<Token, Entry<C>>, items: Store) -> bool {
    &&& forall|t: Token| #[trigger] fin.contains_key(t) && keep(ra, t) ==> stored_as::<E, C>(key, label, items, fin[t])
    &&& forall|k: Token| #[trigger] items.contains_key(k) ==> exists|t: Token| #[trigger] fin.contains_key(t) && keep(ra, t) && new_tok::<E, C>(key, label, fin[t]) == k
    &&& forall|t: Token, u: Token| #[trigger] fin.contains_key(t) && #[trigger] fin.contains_key(u) && t != u && keep(ra, t) && keep(ra, u) ==> new_tok::<E, C>(key, label, fin[t]) != new_tok::<E, C>(key, label, fin[u])
}
pub proof fn lemma_ents_step<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, label: Seq<u8>, ra: Map<Token, HashSet<Vec<u8>>>, s: Seq<(Token, Entry<C>)>, n: int, i0: Store, v: EncV)
    requires
        0 <= n < s.len(), ents_part::<E, C>(key, label, ra, s, n, i0), keep(ra, s[n].0),
        E::sp_open(key, v) == Some(ser_entry(s[n].1)), !i0.contains_key(new_tok::<E, C>(key, label, s[n].1)),
    ensures ents_part::<E, C>(key, label, ra, s, n + 1, i0.insert(new_tok::<E, C>(key, label, s[n].1), v))
{
    let k = new_tok::<E, C>(key, label, s[n].1);
    let i1 = i0.insert(k, v);
    lemma_entry_bytes::<C>(s[n].1);
    assert forall|i: int| 0 <= i < n implies keep(ra, (#[trigger] s[i]).0) ==> stored_as::<E, C>(key, label, i0, s[i].1) && new_tok::<E, C>(key, label, s[i].1) != k by {}
    assert forall|i: int| 0 <= i < n + 1 && keep(ra, (#[trigger] s[i]).0) implies stored_as::<E, C>(key, label, i1, s[i].1) by {
        if i < n { assert(stored_as::<E, C>(key, label, i0, s[i].1)); }
    }
    assert forall|u: Token| #[trigger] i1.contains_key(u) implies ent_some::<E, C>(key, label, ra, s, n + 1, u) by {
        if u == k { assert(s[n].0 == s[n].0); }
        else {
            assert(i0.contains_key(u));
            assert(ent_some::<E, C>(key, label, ra, s, n, u));
            let i = choose|i: int| 0 <= i < n && keep(ra, (#[trigger] s[i]).0) && new_tok::<E, C>(key, label, s[i].1) == u;
            assert(s[i].0 == s[i].0);
        }
    }
}
pub proof fn lemma_ents_skip<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, label: Seq<u8>, ra: Map<Token, HashSet<Vec<u8>>>, s: Seq<(Token, Entry<C>)>, n: int, i0: Store)
    requires 0 <= n < s.len(), ents_part::<E, C>(key, label, ra, s, n, i0), !keep(ra, s[n].0)
    ensures ents_part::<E, C>(key, label, ra, s, n + 1, i0)
{
    assert forall|u: Token| #[trigger] i0.contains_key(u) implies ent_some::<E, C>(key, label, ra, s, n + 1, u) by {
        assert(ent_some::<E, C>(key, label, ra, s, n, u));
        let i = choose|i: int| 0 <= i < n && keep(ra, (#[trigger] s[i]).0) && new_tok::<E, C>(key, label, s[i].1) == u;
        assert(s[i].0 == s[i].0);
    }
}
pub proof fn lemma_ents_end<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, label: Seq<u8>, ra: Map<Token, HashSet<Vec<u8>>>, s: Seq<(Token, Entry<C>)>, fin: Map<Token, Entry<C>>, items: Store)
    requires enum_map(s, fin), ents_part::<E, C>(key, label, ra, s, s.len() as int, items)
    ensures ents_ok::<E, C>(key, label, ra, fin, items)
{
    let n = s.len() as int;
    assert forall|t: Token| #[trigger] fin.contains_key(t) && keep(ra, t) implies stored_as::<E, C>(key, label, items, fin[t]) by {
        let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == t;
        assert(s[i].1 == fin[t]);
    }
    assert forall|k: Token| #[trigger] items.contains_key(k) implies exists|t: Token| #[trigger] fin.contains_key(t) && keep(ra, t) && new_tok::<E, C>(key, label, fin[t]) == k by {
        assert(ent_some::<E, C>(key, label, ra, s, n, k));
        let i = choose|i: int| 0 <= i < n && keep(ra, (#[trigger] s[i]).0) && new_tok::<E, C>(key, label, s[i].1) == k;
        assert(fin.contains_key(s[i].0));
    }
    assert forall|t: Token, u: Token| #[trigger] fin.contains_key(t) && #[trigger] fin.contains_key(u) && t != u && keep(ra, t) && keep(ra, u) implies new_tok::<E, C>(key, label, fin[t]) != new_tok::<E, C>(key, label, fin[u]) by {
        let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == t;
        let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]).0 == u;
        if i < j { assert(s[i].0 != s[j].0); } else { assert(s[j].0 != s[i].0); }
    }
}
/// The tokens of the chains described by `meta`.
pub open spec fn chain_tokens_of<K>(meta: Map<Token, (K, Vec<Token>)>, k: Token) -> bool { exists|t: Token| #[trigger] meta.contains_key(t) && meta[t].1@.contains(k) }
pub open spec fn old_lines<K>(meta: Map<Token, (K, Vec<Token>)>, keys: Set<Token>) -> bool { forall|k: Token| #[trigger] keys.contains(k) <==> chain_tokens_of(meta, k) }
/// The requests that replace: new lines, new entries, then - and only then - the removal of the old
/// lines and of the old entries; when an insertion fails, the removal of the new lines.
pub open spec fn comp_reqs(n: Seq<Ev>, edb: int, cdb: int, links: Store, entries: Store, olds: Set<Token>, olde: Set<Token>) -> bool {
    &&& 2 <= n.len() <= 4
    &&& n[0] matches Ev::Insert { db, items, .. } && db == cdb && items == links
    &&& !ev_ok(n[0]) ==> n.len() == 2 && is_delete(n[1], cdb, links.dom())
    &&& ev_ok(n[0]) ==> n.len() >= 3 && (n[1] matches Ev::Insert { db, items, .. } && db == edb && items == entries)
        && (!ev_ok(n[1]) ==> n.len() == 3 && is_delete(n[2], cdb, links.dom()))
        && (ev_ok(n[1]) ==> is_delete(n[2], cdb, olds) && (n.len() == 4 <==> ev_ok(n[2])) && (n.len() == 4 ==> is_delete(n[3], edb, olde)))
}
pub open spec fn is_delete(e: Ev, d: int, k: Set<Token>) -> bool { e matches Ev::Delete { db, keys, .. } && db == d && keys == k }
/// What these requests write and remove.
pub open spec fn comp_data<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, label: Seq<u8>, ra: Map<Token, HashSet<Vec<u8>>>, d: CompactingData<C>, links: Store, entries: Store, olds: Set<Token>,
    fin: Map<Token, Entry<C>>, chains: Map<Token, (C::Key, Vec<Token>)>, lines: Map<Token, Vec<Link>>) -> bool
{
    &&& fin_ok::<C>(ra, d.entries@, fin, chains, lines)
    &&& lines_written::<C, Token>(links, chains, lines)
    &&& ents_ok::<E, C>(key, label, ra, fin, entries)
    &&& old_lines(d.metadata@, olds)
}
pub open spec fn comp_some<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, label: Seq<u8>, ra: Map<Token, HashSet<Vec<u8>>>, d: CompactingData<C>, links: Store, entries: Store, olds: Set<Token>) -> bool {
    exists|fin: Map<Token, Entry<C>>, chains: Map<Token, (C::Key, Vec<Token>)>, lines: Map<Token, Vec<Link>>| comp_data::<E, C>(key, label, ra, d, links, entries, olds, fin, chains, lines)
}
pub open spec fn comp_log<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, ra: Map<Token, HashSet<Vec<u8>>>, d: CompactingData<C>) -> bool {
    n.len() == 0 || exists|links: Store, entries: Store, olds: Set<Token>| #[trigger] comp_reqs(n, edb, cdb, links, entries, olds, d.entries@.dom()) && comp_some::<E, C>(key, label, ra, d, links, entries, olds)
}
// ------------------------------------------------------------------ compaction of the graph
pub open spec fn decoded_at<Tag: VFrom<Vec<u8>>, Value: VFrom<Vec<u8>>>(m: Map<Token, HashSet<Vec<u8>>>, g: Map<Token, HashSet<IndexedValue<Tag, Value>>>) -> bool {
    &&& m.dom() == g.dom()
    &&& forall|t: Token| #[trigger] g.contains_key(t) ==> dec_set(m[t]@, g[t]@)
}
#[verifier::opaque]
pub open spec fn gprepared<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VFrom<Vec<u8>>, Value: VFrom<Vec<u8>>>(
    key: E::Key, tokens: Set<Token>, target: Set<Token>, s1: Store, s2: Store, g: Map<Token, HashSet<IndexedValue<Tag, Value>>>, d: CompactingData<C>) -> bool
{
    exists|m: Map<Token, HashSet<Vec<u8>>>| #[trigger] prepared::<E, C>(key, tokens, target, s1, s2, m, d) && decoded_at(m, g)
}
/// The requests of `prepare_compacting`.
pub open spec fn prep_reqs(n: Seq<Ev>, edb: int, cdb: int, tokens: Set<Token>) -> bool {
    &&& 1 <= n.len() <= 2
    &&& n[0] matches Ev::Get { db, keys, .. } && db == edb && keys == tokens
    &&& n.len() == 2 ==> (n[1] matches Ev::Get { db, .. } && db == cdb)
}
/// `b` is the set of the serialized values of `a`.
pub open spec fn enc_set<Tag: VAsRef, Value: VAsRef>(a: Set<IndexedValue<Tag, Value>>, b: Set<Vec<u8>>) -> bool {
    b == a.map(|v: IndexedValue<Tag, Value>| mk_vec(iv_bytes(v)))
}
pub open spec fn encoded_at<Tag: VAsRef, Value: VAsRef>(g: Map<Token, HashSet<IndexedValue<Tag, Value>>>, m: Map<Token, HashSet<Vec<u8>>>) -> bool {
    &&& m.dom() == g.dom()
    &&& forall|t: Token| #[trigger] g.contains_key(t) ==> enc_set(g[t]@, m[t]@)
}
pub proof fn lemma_enc_set<Tag: VAsRef, Value: VAsRef>(a: Set<IndexedValue<Tag, Value>>, s: Seq<&IndexedValue<Tag, Value>>, t: Seq<Vec<u8>>)
    requires
        exists|u: Seq<IndexedValue<Tag, Value>>| enum_set(u, a) && refs_of(s, u),
        t.len() == s.len(), forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i])@ == iv_bytes(*s[i]),
    ensures enc_set(a, t.to_set())
{
    broadcast use all_axioms;
    let u = choose|u: Seq<IndexedValue<Tag, Value>>| enum_set(u, a) && refs_of(s, u);
    let f = |v: IndexedValue<Tag, Value>| mk_vec(iv_bytes(v));
    let b = a.map(f);
    assert forall|x: Vec<u8>| #[trigger] b.contains(x) <==> t.to_set().contains(x) by {
        if b.contains(x) {
            let v = choose|v: IndexedValue<Tag, Value>| a.contains(v) && f(v) == x;
            assert(u.to_set().contains(v));
            let i = choose|i: int| 0 <= i < u.len() && u[i] == v;
            assert(*s[i] == v);
            assert(t[i]@ == iv_bytes(v));
            assert(mk_vec(t[i]@) == t[i]);
            assert(t[i] == x);
        }
        if t.to_set().contains(x) {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
            assert(u.to_set().contains(u[i]));
            assert(*s[i] == u[i]);
            assert(mk_vec(t[i]@) == t[i]);
            assert(f(u[i]) == x);
        }
    }
    assert(b =~= t.to_set());
}
pub open spec fn gcomp_log<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef, Value: VAsRef>(n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, g: Map<Token, HashSet<IndexedValue<Tag, Value>>>, d: CompactingData<C>) -> bool {
    exists|m: Map<Token, HashSet<Vec<u8>>>| #[trigger] encoded_at(g, m) && comp_log::<E, C>(n, edb, cdb, key, label, m, d)
}
// ------------------------------------------------------------------ compaction of the index
/// `r` is what is left of `g` once the data the filter rejects are removed: nothing else is removed,
/// and the filter was asked about exactly the data of `g`.
pub open spec fn data_in<Tag, Value>(g: Map<Token, HashSet<IndexedValue<Tag, Value>>>, x: Value) -> bool {
    exists|t: Token| #[trigger] g.contains_key(t) && g[t]@.contains(IndexedValue::Data(x))
}
#[verifier::opaque]
pub open spec fn data_of<Tag, Value>(g: Map<Token, HashSet<IndexedValue<Tag, Value>>>, s: Set<Value>) -> bool {
    forall|x: Value| #[trigger] s.contains(x) <==> data_in(g, x)
}
pub open spec fn survives<Tag, Value>(s: Set<Value>, v: IndexedValue<Tag, Value>) -> bool {
    match v { IndexedValue::Data(x) => s.contains(x), IndexedValue::Pointer(_) => true }
}
#[verifier::opaque]
pub open spec fn sieved<Tag, Value>(a: Set<IndexedValue<Tag, Value>>, s: Set<Value>, b: Set<IndexedValue<Tag, Value>>) -> bool {
    forall|v: IndexedValue<Tag, Value>| #[trigger] b.contains(v) <==> a.contains(v) && survives(s, v)
}
#[verifier::opaque]
pub open spec fn left_of<Tag, Value>(g: Map<Token, HashSet<IndexedValue<Tag, Value>>>, s: Set<Value>, r: Map<Token, HashSet<IndexedValue<Tag, Value>>>) -> bool {
    &&& r.dom() == g.dom()
    &&& forall|t: Token| #[trigger] r.contains_key(t) ==> sieved(g[t]@, s, r[t]@)
}
#[verifier::opaque]
pub open spec fn filtered<Tag, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(f: F, g: Map<Token, HashSet<IndexedValue<Tag, Data>>>, r: Map<Token, HashSet<IndexedValue<Tag, Data>>>) -> bool {
    exists|a: HashSet<Data>, b: HashSet<Data>| #[trigger] f.ensures((a,), Ok(b)) && data_of(g, a@) && left_of(g, b@, r)
}
/// The requests of one compaction batch.
pub open spec fn batch_log<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, tokens: Set<Token>, f: F) -> bool
{
    &&& 1 <= n.len() <= 6
    &&& prep_reqs(n.take(if n.len() >= 2 { 2int } else { 1 }), edb, cdb, tokens)
    &&& n.len() > 2 ==> all_evs_ok(n.take(2)) && exists|g: Map<Token, HashSet<IndexedValue<Keyword, Data>>>, d: CompactingData<C>, r: Map<Token, HashSet<IndexedValue<Keyword, Data>>>|
        #[trigger] replaced::<E, C, F>(n, edb, cdb, old_key, new_key, label, target, tokens, f, g, d, r)
}
pub open spec fn replaced<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, tokens: Set<Token>, f: F,
    g: Map<Token, HashSet<IndexedValue<Keyword, Data>>>, d: CompactingData<C>, r: Map<Token, HashSet<IndexedValue<Keyword, Data>>>) -> bool
{
    &&& gprepared::<E, C, Keyword, Data>(old_key, tokens, target, ev_pre(n[0]), ev_pre(n[1]), g, d)
    &&& filtered(f, g, r)
    &&& gcomp_log::<E, C, Keyword, Data>(n.skip(2), edb, cdb, new_key, label, r, d)
}
/// The batch went through.
pub open spec fn batch_done<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, tokens: Set<Token>, f: F) -> bool
{
    batch_log::<E, C, F>(n, edb, cdb, old_key, new_key, label, target, tokens, f) && n.len() == 6 && all_evs_ok(n)
}
pub open spec fn is_data<Tag, Value>(v: IndexedValue<Tag, Value>, m: Option<&Value>) -> bool {
    match v { IndexedValue::Data(x) => m == Some(&x), IndexedValue::Pointer(_) => m is None }
}
pub open spec fn values_of<'a, K, V>(r: Seq<&'a V>, m: Map<K, V>) -> bool {
    exists|t: Seq<(&'a K, &'a V)>| #![trigger enum_map_refs(t, m)] enum_map_refs(t, m) && r.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> *(#[trigger] r[i]) == *t[i].1
}
pub proof fn lemma_data_fwd<'a, Tag: VEq, Value: VEq>(g: Map<Token, HashSet<IndexedValue<Tag, Value>>>, t: Seq<(&'a Token, &'a HashSet<IndexedValue<Tag, Value>>)>, r: Seq<&'a HashSet<IndexedValue<Tag, Value>>>, p: Seq<Seq<&'a IndexedValue<Tag, Value>>>, u: Seq<&'a IndexedValue<Tag, Value>>, m: Seq<Option<&'a Value>>, z: Seq<Value>, v: Value)
    requires
        enum_map_refs(t, g), r.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> *(#[trigger] r[i]) == *t[i].1,
        p.len() == r.len(), forall|i: int| 0 <= i < p.len() ==> r[i].into_spec(#[trigger] p[i]), u == concat(p),
        m.len() == u.len(), forall|i: int| 0 <= i < m.len() ==> is_data(*u[i], #[trigger] m[i]),
        refs_of(somes(m), z), z.to_set().contains(v),
    ensures data_in(g, v)
{
    lemma_concat(p);
    lemma_somes(m);
    let i = choose|i: int| 0 <= i < z.len() && z[i] == v;
    let y = somes(m)[i];
    assert(somes(m).contains(y));
    let j = choose|j: int| 0 <= j < m.len() && m[j] == Some(y);
    let w = u[j];
    assert(is_data(*u[j], m[j]));
    assert(*w == IndexedValue::<Tag, Value>::Data(v));
    assert(concat(p).contains(w));
    let a = choose|a: int| 0 <= a < p.len() && (#[trigger] p[a]).contains(w);
    assert(r[a].into_spec(p[a]));
    assert(*r[a] == *t[a].1);
    assert(g.contains_key(*t[a].0));
    let e = choose|e: Seq<IndexedValue<Tag, Value>>| enum_set(e, r[a]@) && refs_of(p[a], e);
    let b = choose|b: int| 0 <= b < p[a].len() && p[a][b] == w;
    assert(e.to_set().contains(e[b]));
    assert(g[*t[a].0]@.contains(*w));
}
pub proof fn lemma_data_bwd<'a, Tag: VEq, Value: VEq>(g: Map<Token, HashSet<IndexedValue<Tag, Value>>>, t: Seq<(&'a Token, &'a HashSet<IndexedValue<Tag, Value>>)>, r: Seq<&'a HashSet<IndexedValue<Tag, Value>>>, p: Seq<Seq<&'a IndexedValue<Tag, Value>>>, u: Seq<&'a IndexedValue<Tag, Value>>, m: Seq<Option<&'a Value>>, z: Seq<Value>, v: Value)
    requires
        enum_map_refs(t, g), r.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> *(#[trigger] r[i]) == *t[i].1,
        p.len() == r.len(), forall|i: int| 0 <= i < p.len() ==> r[i].into_spec(#[trigger] p[i]), u == concat(p),
        m.len() == u.len(), forall|i: int| 0 <= i < m.len() ==> is_data(*u[i], #[trigger] m[i]),
        refs_of(somes(m), z), data_in(g, v),
    ensures z.to_set().contains(v)
{
    lemma_concat(p);
    lemma_somes(m);
    let k = choose|k: Token| #[trigger] g.contains_key(k) && g[k]@.contains(IndexedValue::Data(v));
    let a = choose|a: int| 0 <= a < t.len() && *(#[trigger] t[a]).0 == k;
    assert(*r[a] == *t[a].1);
    assert(r[a].into_spec(p[a]));
    let e = choose|e: Seq<IndexedValue<Tag, Value>>| enum_set(e, r[a]@) && refs_of(p[a], e);
    assert(e.to_set().contains(IndexedValue::Data(v)));
    let b = choose|b: int| 0 <= b < e.len() && e[b] == IndexedValue::<Tag, Value>::Data(v);
    let w = p[a][b];
    assert(p[a].contains(w));
    assert(concat(p).contains(w));
    let j = choose|j: int| 0 <= j < u.len() && u[j] == w;
    assert(is_data(*u[j], m[j]));
    let y = m[j].unwrap();
    assert(somes(m).contains(y));
    let i = choose|i: int| 0 <= i < somes(m).len() && somes(m)[i] == y;
    assert(z[i] == v);
}
pub proof fn lemma_data_of<'a, Tag: VEq, Value: VEq>(g: Map<Token, HashSet<IndexedValue<Tag, Value>>>, r: Seq<&'a HashSet<IndexedValue<Tag, Value>>>, u: Seq<&'a IndexedValue<Tag, Value>>, m: Seq<Option<&'a Value>>, z: Seq<Value>)
    requires
        values_of(r, g),
        exists|p: Seq<Seq<&'a IndexedValue<Tag, Value>>>| #![trigger concat(p)] p.len() == r.len() && (forall|i: int| 0 <= i < p.len() ==> r[i].into_spec(#[trigger] p[i])) && u == concat(p),
        m.len() == u.len(), forall|i: int| 0 <= i < m.len() ==> is_data(*u[i], #[trigger] m[i]),
        refs_of(somes(m), z),
    ensures data_of(g, z.to_set())
{
    reveal(data_of);
    let t = choose|t: Seq<(&'a Token, &'a HashSet<IndexedValue<Tag, Value>>)>| #![trigger enum_map_refs(t, g)] enum_map_refs(t, g) && r.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> *(#[trigger] r[i]) == *t[i].1;
    let p = choose|p: Seq<Seq<&'a IndexedValue<Tag, Value>>>| #![trigger concat(p)] p.len() == r.len() && (forall|i: int| 0 <= i < p.len() ==> r[i].into_spec(#[trigger] p[i])) && u == concat(p);
    assert forall|v: Value| #[trigger] z.to_set().contains(v) <==> data_in(g, v) by {
        if z.to_set().contains(v) { lemma_data_fwd(g, t, r, p, u, m, z, v); }
        if data_in(g, v) { lemma_data_bwd(g, t, r, p, u, m, z, v); }
    }
}
pub proof fn lemma_sieved<Tag, Value>(a: Set<IndexedValue<Tag, Value>>, kept: Set<Value>, s: Seq<IndexedValue<Tag, Value>>, t: Seq<IndexedValue<Tag, Value>>)
    requires
        enum_set(s, a),
        exists|m: Seq<bool>| #![trigger sel(s, m)] m.len() == s.len() && t == sel(s, m) && (forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == survives(kept, s[i])),
    ensures sieved(a, kept, t.to_set())
{
    reveal(sieved);
    let m = choose|m: Seq<bool>| #![trigger sel(s, m)] m.len() == s.len() && t == sel(s, m) && (forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == survives(kept, s[i]));
    lemma_sel(s, m);
    assert forall|v: IndexedValue<Tag, Value>| #[trigger] t.to_set().contains(v) <==> a.contains(v) && survives(kept, v) by {
        if t.contains(v) {
            let j = choose|j: int| 0 <= j < s.len() && m[j] && #[trigger] s[j] == v;
            assert(m[j] == survives(kept, s[j]));
            assert(s.to_set().contains(v));
        }
        if a.contains(v) && survives(kept, v) {
            assert(s.to_set().contains(v));
            let j = choose|j: int| 0 <= j < s.len() && s[j] == v;
            assert(m[j]);
            assert(picked(s, m, v));
            assert(t.contains(v));
        }
    }
}
pub proof fn lemma_batch<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    w0: World, w1: World, w2: World, edb: int, cdb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, tokens: Set<Token>, f: F,
    g: Map<Token, HashSet<IndexedValue<Keyword, Data>>>, d: CompactingData<C>, r: Map<Token, HashSet<IndexedValue<Keyword, Data>>>)
    requires
        grew(w0, w1), grew(w1, w2), new_evs(w0, w1).len() == 2, all_evs_ok(new_evs(w0, w1)), prep_reqs(new_evs(w0, w1), edb, cdb, tokens),
        gprepared::<E, C, Keyword, Data>(old_key, tokens, target, ev_pre(new_evs(w0, w1)[0]), ev_pre(new_evs(w0, w1)[1]), g, d),
        filtered(f, g, r),
        gcomp_log::<E, C, Keyword, Data>(new_evs(w1, w2), edb, cdb, new_key, label, r, d),
    ensures
        grew(w0, w2),
        batch_log::<E, C, F>(new_evs(w0, w2), edb, cdb, old_key, new_key, label, target, tokens, f),
        new_evs(w0, w2).len() == 2 + new_evs(w1, w2).len(),
        all_evs_ok(new_evs(w1, w2)) ==> all_evs_ok(new_evs(w0, w2)),
{
    lemma_grew2(w0, w1, w2);
    let n = new_evs(w0, w2);
    let a = new_evs(w0, w1);
    let b = new_evs(w1, w2);
    assert(n =~= a + b);
    assert(n.take(2) =~= a);
    assert(n.skip(2) =~= b);
    assert(replaced::<E, C, F>(n, edb, cdb, old_key, new_key, label, target, tokens, f, g, d, r));
    if all_evs_ok(b) { assert forall|i: int| 0 <= i < n.len() implies ev_ok(#[trigger] n[i]) by { if i < 2 { assert(n[i] == a[i]); } else { assert(n[i] == b[i - 2]); } } }
}
pub proof fn lemma_left<Tag, Value>(g: Map<Token, HashSet<IndexedValue<Tag, Value>>>, kept: Set<Value>, s: Seq<(Token, HashSet<IndexedValue<Tag, Value>>)>, t: Seq<(Token, HashSet<IndexedValue<Tag, Value>>)>)
    requires
        enum_map(s, g), t.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).0 == s[i].0 && sieved(s[i].1@, kept, t[i].1@),
    ensures left_of(g, kept, seq_to_map(t))
{
    reveal(left_of);
    lemma_stm_map(s, g, t);
}
pub proof fn lemma_filtered<Tag, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(f: F, g: Map<Token, HashSet<IndexedValue<Tag, Data>>>, r: Map<Token, HashSet<IndexedValue<Tag, Data>>>, a: HashSet<Data>, b: HashSet<Data>)
    requires f.ensures((a,), Ok(b)), data_of(g, a@), left_of(g, b@, r)
    ensures filtered(f, g, r)
{ reveal(filtered); }
/// The tokens handled by the `i`-th batch.
pub open spec fn chunk(s: Seq<Token>, i: int) -> Set<Token> {
    s.subrange(i * 1_000_000, if (i + 1) * 1_000_000 <= s.len() { (i + 1) * 1_000_000 } else { s.len() as int }).to_set()
}
/// The first `k` batches went through.
#[verifier::opaque]
pub open spec fn batches_done<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, s: Seq<Token>, k: int, f: F) -> bool
{
    forall|i: int| 0 <= i < k ==> batch_done::<E, C, F>(#[trigger] batch_evs(n, i), edb, cdb, old_key, new_key, label, target, chunk(s, i), f)
}
pub open spec fn batch_evs(n: Seq<Ev>, i: int) -> Seq<Ev> { n.subrange(1 + 6 * i, 7 + 6 * i) }
/// The requests of `compact` after `k` full batches.
pub open spec fn compact_part<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, ddb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, s: Seq<Token>, k: int, f: F) -> bool
{
    &&& n.len() == 1 + 6 * k && 0 <= k
    &&& n[0] matches Ev::Dump { db, pre, ok } && db == ddb && ok && enum_set(s, pre.dom())
    &&& batches_done::<E, C, F>(n, edb, cdb, old_key, new_key, label, target, s, k, f)
}
/// The requests of `compact`, complete or not.
pub open spec fn compact_cut<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, ddb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, s: Seq<Token>, k: int, f: F) -> bool
{
    &&& 0 <= k <= s.len() / 1_000_000
    &&& n.len() > 1 + 6 * k
    &&& compact_part::<E, C, F>(n.take(1 + 6 * k), edb, cdb, ddb, old_key, new_key, label, target, s, k, f)
    &&& batch_log::<E, C, F>(n.skip(1 + 6 * k), edb, cdb, old_key, new_key, label, target, chunk(s, k), f)
}
pub open spec fn compact_log<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, ddb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, f: F) -> bool
{
    ||| n.len() == 0
    ||| n.len() == 1 && (n[0] matches Ev::Dump { db, .. } && db == ddb)
    ||| exists|target: Set<Token>, s: Seq<Token>, k: int| #[trigger] compact_cut::<E, C, F>(n, edb, cdb, ddb, old_key, new_key, label, target, s, k, f)
}
/// Every entry of the dump has been handled.
pub open spec fn compacted<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, ddb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, f: F) -> bool
{
    exists|target: Set<Token>, s: Seq<Token>| #[trigger] compact_part::<E, C, F>(n, edb, cdb, ddb, old_key, new_key, label, target, s, s.len() as int / 1_000_000 + 1, f)
}
/// Every chain of the index has been rewritten (an index has less than 2^48 entries).
pub open spec fn compacted_all<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, ddb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, f: F) -> bool
{
    exists|target: Set<Token>, s: Seq<Token>| #[trigger] compact_part::<E, C, F>(n, edb, cdb, ddb, old_key, new_key, label, target, s, s.len() as int / 1_000_000 + 1, f)
        && (s.len() <= 0x1_0000_0000_0000 ==> target == s.to_set())
}
pub proof fn lemma_compact_step<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    w0: World, w1: World, w2: World, edb: int, cdb: int, ddb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, s: Seq<Token>, k: int, f: F)
    requires
        grew(w0, w1), grew(w1, w2), 0 <= k <= s.len() / 1_000_000,
        compact_part::<E, C, F>(new_evs(w0, w1), edb, cdb, ddb, old_key, new_key, label, target, s, k, f),
        batch_log::<E, C, F>(new_evs(w1, w2), edb, cdb, old_key, new_key, label, target, chunk(s, k), f),
    ensures
        grew(w0, w2),
        compact_cut::<E, C, F>(new_evs(w0, w2), edb, cdb, ddb, old_key, new_key, label, target, s, k, f),
        new_evs(w1, w2).len() == 6 && all_evs_ok(new_evs(w1, w2)) ==> compact_part::<E, C, F>(new_evs(w0, w2), edb, cdb, ddb, old_key, new_key, label, target, s, k + 1, f),
{
    lemma_grew2(w0, w1, w2);
    let a = new_evs(w0, w1);
    let b = new_evs(w1, w2);
    let n = new_evs(w0, w2);
    assert(n =~= a + b);
    assert(n.take(1 + 6 * k) =~= a);
    assert(n.skip(1 + 6 * k) =~= b);
    assert(n.len() > 1 + 6 * k);
    if b.len() == 6 && all_evs_ok(b) {
        reveal(batches_done);
        assert(n[0] == a[0]);
        assert forall|i: int| 0 <= i < k + 1 implies batch_done::<E, C, F>(#[trigger] batch_evs(n, i), edb, cdb, old_key, new_key, label, target, chunk(s, i), f) by {
            if i < k { assert(batch_evs(n, i) =~= batch_evs(a, i)); }
            else { assert(batch_evs(n, i) =~= b); }
        }
    }
}
pub proof fn lemma_compact_next<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    w0: World, w1: World, edb: int, cdb: int, ddb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, s: Seq<Token>, k: int, f: F)
    requires
        grew(w0, w1), 0 <= k <= s.len() / 1_000_000,
        compact_part::<E, C, F>(new_evs(w0, w1), edb, cdb, ddb, old_key, new_key, label, target, s, k, f),
    ensures
        forall|w2: World| #[trigger] grew(w1, w2) && batch_log::<E, C, F>(new_evs(w1, w2), edb, cdb, old_key, new_key, label, target, chunk(s, k), f)
            ==> grew(w0, w2) && compact_log::<E, C, F>(new_evs(w0, w2), edb, cdb, ddb, old_key, new_key, label, f)
                && (new_evs(w1, w2).len() == 6 && all_evs_ok(new_evs(w1, w2)) ==> compact_part::<E, C, F>(new_evs(w0, w2), edb, cdb, ddb, old_key, new_key, label, target, s, k + 1, f)),
{
    assert forall|w2: World| #[trigger] grew(w1, w2) && batch_log::<E, C, F>(new_evs(w1, w2), edb, cdb, old_key, new_key, label, target, chunk(s, k), f)
        implies grew(w0, w2) && compact_log::<E, C, F>(new_evs(w0, w2), edb, cdb, ddb, old_key, new_key, label, f)
                && (new_evs(w1, w2).len() == 6 && all_evs_ok(new_evs(w1, w2)) ==> compact_part::<E, C, F>(new_evs(w0, w2), edb, cdb, ddb, old_key, new_key, label, target, s, k + 1, f)) by {
        lemma_compact_step::<E, C, F>(w0, w1, w2, edb, cdb, ddb, old_key, new_key, label, target, s, k, f);
        assert(compact_cut::<E, C, F>(new_evs(w0, w2), edb, cdb, ddb, old_key, new_key, label, target, s, k, f));
    }
}
