// ====================================================================================
// Freshness: every nonce and every new seed sent to the storage is a draw of its own.
// ====================================================================================
/// What a draw was made for: the place of the request in the log, whether it is a seed, the token.
pub type IdKey = (int, bool, Token);
pub type Ids = Map<IdKey, DrawId>;
pub open spec fn bef(a: DrawId, b: DrawId) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
/// The draws `ids` are pairwise distinct and were made from `lo` on, before `hi`.
#[verifier::opaque]
pub open spec fn fresh(ids: Ids, lo: DrawId, hi: DrawId) -> bool {
    &&& forall|k: IdKey| #[trigger] ids.contains_key(k) ==> !bef(ids[k], lo) && bef(ids[k], hi)
    &&& forall|a: IdKey, b: IdKey| #[trigger] ids.contains_key(a) && #[trigger] ids.contains_key(b) && a != b ==> ids[a] != ids[b]
}
/// The nonce of each value of `s` is the draw recorded for it.
#[verifier::opaque]
pub open spec fn nonces(s: Store, i: int, ids: Ids) -> bool {
    forall|t: Token| #[trigger] s.contains_key(t) ==> ids.contains_key((i, false, t)) && s[t].nonce == drawn(ids[(i, false, t)], NONCE_LENGTH as nat)
}
/// The seed of each entry of `new` that replaces none of `old` is the draw recorded for it.
pub open spec fn seeds<E: DxEnc<ENTRY_LENGTH>>(key: E::Key, old: Store, new: Store, i: int, ids: Ids) -> bool {
    forall|t: Token| #[trigger] new.contains_key(t) && !old.contains_key(t) ==> seed_at::<E>(key, new, t, (i, true, t), ids)
}
pub open spec fn seed_at<E: DxEnc<ENTRY_LENGTH>>(key: E::Key, s: Store, t: Token, k: IdKey, ids: Ids) -> bool {
    ids.contains_key(k) && (entry_at::<E>(key, s, t) matches Some(e) && e.seed == drawn(ids[k], SEED_LENGTH as nat))
}
pub open spec fn ev_fresh<E: DxEnc<ENTRY_LENGTH>>(e: Ev, i: int, key: E::Key, ids: Ids) -> bool {
    match e {
        Ev::Upsert { old, new, .. } => nonces(new, i, ids) && seeds::<E>(key, old, new, i, ids),
        Ev::Insert { items, .. } => nonces(items, i, ids),
        _ => true,
    }
}
/// The draws recorded for the requests of `log` from the place `from` on.
#[verifier::opaque]
pub open spec fn covers<E: DxEnc<ENTRY_LENGTH>>(log: Seq<Ev>, from: int, key: E::Key, ids: Ids) -> bool {
    forall|j: int| from <= j < log.len() ==> #[trigger] ev_fresh::<E>(log[j], j, key, ids)
}
/// No two values that an operation wrote, in any of its requests, retries included, share a nonce,
/// and no entry it created shares a seed: each comes from a draw of its own, made by this operation.
#[verifier::opaque]
pub open spec fn all_fresh<E: DxEnc<ENTRY_LENGTH>>(a: World, b: World, key: E::Key) -> bool {
    exists|ids: Ids, hi: DrawId| #[trigger] covers::<E>(b.log, a.log.len() as int, key, ids) && #[trigger] fresh(ids, (a.clock, 0nat), hi) && !bef((b.clock, 0nat), hi)
}
pub broadcast proof fn lemma_all_fresh<E: DxEnc<ENTRY_LENGTH>>(a: World, b: World, key: E::Key, log: Seq<Ev>, from: int, ids: Ids, lo: DrawId, hi: DrawId)
    requires #[trigger] covers::<E>(log, from, key, ids), #[trigger] fresh(ids, lo, hi), log == b.log, from == a.log.len(), lo == (a.clock, 0nat), !bef((b.clock, 0nat), hi)
    ensures #[trigger] all_fresh::<E>(a, b, key)
{
    reveal(all_fresh);
    assert(covers::<E>(b.log, a.log.len() as int, key, ids) && fresh(ids, (a.clock, 0nat), hi));
}
pub proof fn lemma_fresh0<E: DxEnc<ENTRY_LENGTH>>(w: World, key: E::Key) -> (ids: Ids)
    ensures
        covers::<E>(w.log, w.log.len() as int, key, ids), fresh(ids, (w.clock, 0nat), (w.clock, 0nat)), ids == Map::<IdKey, DrawId>::empty(),
        all_fresh::<E>(w, w, key),
{
    reveal(covers);
    reveal(fresh);
    let ids = Map::<IdKey, DrawId>::empty();
    lemma_all_fresh::<E>(w, w, key, w.log, w.log.len() as int, ids, (w.clock, 0nat), (w.clock, 0nat));
    ids
}
pub broadcast proof fn lemma_covers_add<E: DxEnc<ENTRY_LENGTH>>(a: World, b: World, from: int, key: E::Key, ids: Ids)
    requires #[trigger] one_more(a, b), #[trigger] covers::<E>(a.log, from, key, ids), ev_fresh::<E>(b.log.last(), a.log.len() as int, key, ids), 0 <= from <= a.log.len()
    ensures covers::<E>(b.log, from, key, ids)
{
    reveal(covers);
    assert forall|j: int| from <= j < b.log.len() implies #[trigger] ev_fresh::<E>(b.log[j], j, key, ids) by {
        if j < a.log.len() { assert(b.log.drop_last()[j] == a.log[j]); assert(ev_fresh::<E>(a.log[j], j, key, ids)); }
    }
}
/// One more draw, for a request that is not sent yet.
pub proof fn lemma_draw<E: DxEnc<ENTRY_LENGTH>>(ids: Ids, lo: DrawId, hi: DrawId, d: DrawId, k: IdKey, log: Seq<Ev>, from: int, key: E::Key)
    requires fresh(ids, lo, hi), !bef(hi, lo), !bef(d, hi), k.0 >= log.len(), covers::<E>(log, from, key, ids)
    ensures fresh(ids.insert(k, d), lo, bump(d)), covers::<E>(log, from, key, ids.insert(k, d)), !bef(bump(d), lo)
{
    reveal(covers);
    reveal(fresh);
    reveal(nonces);
    let r = ids.insert(k, d);
    assert forall|j: int| from <= j < log.len() implies #[trigger] ev_fresh::<E>(log[j], j, key, r) by {
        assert(ev_fresh::<E>(log[j], j, key, ids));
    }
}
/// Nothing written yet.
pub proof fn lemma_none(s: Store, i: int, ids: Ids)
    requires s.dom() == Set::<Token>::empty()
    ensures nonces(s, i, ids)
{
    reveal(nonces);
    assert forall|t: Token| !(#[trigger] s.contains_key(t)) by { assert(s.dom().contains(t) == s.contains_key(t)); }
}
pub proof fn lemma_later(ids: Ids, lo: DrawId, hi: DrawId, hi2: DrawId)
    requires fresh(ids, lo, hi), !bef(hi2, hi)
    ensures fresh(ids, lo, hi2)
{ reveal(fresh); }
/// One more entry of a round of `commit`: the draw of its nonce, and of its seed if it is new.
pub proof fn lemma_round_fresh<E: DxEnc<ENTRY_LENGTH>>(ids: Ids, lo: DrawId, hi: DrawId, log: Seq<Ev>, from: int, key: E::Key, old: Store, s0: Store, s: Store, t: Token, ds: DrawId, dn: DrawId) -> (r: Ids)
    requires
        fresh(ids, lo, hi), !bef(hi, lo), covers::<E>(log, from, key, ids), !bef(dn, hi),
        nonces(s0, log.len() as int, ids), seeds::<E>(key, old, s0, log.len() as int, ids),
        s == s0.insert(t, s[t]), s[t].nonce == drawn(dn, NONCE_LENGTH as nat),
        !old.contains_key(t) ==> !bef(ds, hi) && bef(ds, dn) && (entry_at::<E>(key, s, t) matches Some(e) && e.seed == drawn(ds, SEED_LENGTH as nat)),
    ensures fresh(r, lo, bump(dn)), covers::<E>(log, from, key, r), nonces(s, log.len() as int, r), seeds::<E>(key, old, s, log.len() as int, r)
{
    reveal(nonces);
    let i = log.len() as int;
    let r1 = if old.contains_key(t) { ids } else { ids.insert((i, true, t), ds) };
    let h1 = if old.contains_key(t) { hi } else { bump(ds) };
    if !old.contains_key(t) { lemma_draw::<E>(ids, lo, hi, ds, (i, true, t), log, from, key); }
    lemma_draw::<E>(r1, lo, h1, dn, (i, false, t), log, from, key);
    let r = r1.insert((i, false, t), dn);
    assert forall|u: Token| #[trigger] s.contains_key(u) && !old.contains_key(u) implies seed_at::<E>(key, s, u, (i, true, u), r) by {
        if u != t { assert(s0.contains_key(u)); assert(seed_at::<E>(key, s0, u, (i, true, u), ids)); }
    }
    r
}
/// One more line.
pub proof fn lemma_line_fresh<E: DxEnc<ENTRY_LENGTH>>(ids: Ids, lo: DrawId, hi: DrawId, log: Seq<Ev>, from: int, key: E::Key, i: int, s0: Store, s: Store, t: Token, dn: DrawId) -> (r: Ids)
    requires
        fresh(ids, lo, hi), !bef(hi, lo), covers::<E>(log, from, key, ids), !bef(dn, hi), i >= log.len(),
        nonces(s0, i, ids), s == s0.insert(t, s[t]), s[t].nonce == drawn(dn, NONCE_LENGTH as nat),
    ensures fresh(r, lo, bump(dn)), covers::<E>(log, from, key, r), nonces(s, i, r), r == ids.insert((i, false, t), dn)
{
    reveal(nonces);
    lemma_draw::<E>(ids, lo, hi, dn, (i, false, t), log, from, key);
    ids.insert((i, false, t), dn)
}
/// The draws of an operation so far.
pub proof fn lemma_fresh_of<E: DxEnc<ENTRY_LENGTH>>(a: World, b: World, key: E::Key) -> (ids: Ids)
    requires all_fresh::<E>(a, b, key)
    ensures covers::<E>(b.log, a.log.len() as int, key, ids), fresh(ids, (a.clock, 0nat), (b.clock, 0nat))
{
    reveal(all_fresh);
    let (ids, hi) = choose|ids: Ids, hi: DrawId| #[trigger] covers::<E>(b.log, a.log.len() as int, key, ids) && #[trigger] fresh(ids, (a.clock, 0nat), hi) && !bef((b.clock, 0nat), hi);
    lemma_later(ids, (a.clock, 0nat), hi, (b.clock, 0nat));
    ids
}
/// An operation may stop while it prepares a request.
pub proof fn lemma_may_stop<E: DxEnc<ENTRY_LENGTH>>(w0: World, w1: World, c: nat, key: E::Key, ids: Ids)
    requires grew(w0, w1), w1.clock <= c, covers::<E>(w1.log, w0.log.len() as int, key, ids), fresh(ids, (w0.clock, 0nat), (c, 0nat))
    ensures
        forall|b: World| b.log == w1.log && c <= b.clock ==> #[trigger] all_fresh::<E>(w0, b, key),
        forall|b: World| b.log == w1.log && c <= b.clock ==> #[trigger] grew(w0, b),
        forall|b: World| b.log == w1.log ==> #[trigger] new_evs(w0, b) == new_evs(w0, w1),
{
    assert forall|b: World| b.log == w1.log && c <= b.clock implies #[trigger] all_fresh::<E>(w0, b, key) by {
        lemma_all_fresh::<E>(w0, b, key, b.log, w0.log.len() as int, ids, (w0.clock, 0nat), (c, 0nat));
    }
}
// ------------------------------------------------------------------ compaction
/// The entries whose chain is written anew and kept.
pub open spec fn live_of<V>(ra: Map<Token, HashSet<V>>) -> Set<Token> { ra.dom().filter(|t: Token| ra[t]@ != Set::<V>::empty()) }
/// The request at `i`, which writes the entries, stores for each chain written anew a seed of its own draw.
pub open spec fn new_seeds<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(log: Seq<Ev>, i: int, key: E::Key, label: Seq<u8>, live: Set<Token>, d: Map<Token, Entry<C>>, ids: Ids) -> bool {
    i < log.len() ==> (log[i] matches Ev::Insert { items, .. } ==> forall|t: Token| #[trigger] live.contains(t) ==> d.contains_key(t) && seed_at::<E>(key, items, new_tok::<E, C>(key, label, d[t]), (i, true, t), ids))
}
/// No two values that a compaction wrote share a nonce, and no two chains it wrote share a seed.
#[verifier::opaque]
pub open spec fn comp_fresh<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(a: World, b: World, key: E::Key, label: Seq<u8>, live: Set<Token>, d: Map<Token, Entry<C>>) -> bool {
    exists|ids: Ids, hi: DrawId| #[trigger] covers::<E>(b.log, a.log.len() as int, key, ids) && #[trigger] fresh(ids, (a.clock, 0nat), hi) && !bef((b.clock, 0nat), hi)
        && new_seeds::<E, C>(b.log, a.log.len() as int + 1, key, label, live, d, ids)
}
pub broadcast proof fn lemma_comp_fresh0<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(a: World, b: World, key: E::Key, label: Seq<u8>, live: Set<Token>, d: Map<Token, Entry<C>>)
    requires a.log == b.log, a.clock <= b.clock
    ensures #[trigger] comp_fresh::<E, C>(a, b, key, label, live, d)
{
    reveal(comp_fresh);
    let ids = lemma_fresh0::<E>(a, key);
    assert(covers::<E>(b.log, a.log.len() as int, key, ids) && fresh(ids, (a.clock, 0nat), (a.clock, 0nat)));
}
/// A compaction is an operation like the others.
pub proof fn lemma_comp_all_fresh<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(a: World, b: World, key: E::Key, label: Seq<u8>, live: Set<Token>, d: Map<Token, Entry<C>>)
    requires comp_fresh::<E, C>(a, b, key, label, live, d)
    ensures all_fresh::<E>(a, b, key)
{
    reveal(comp_fresh);
    reveal(all_fresh);
}
/// The first `n` chains written anew have a seed of their own draw.
#[verifier::opaque]
pub open spec fn fin_seeds<C: DxEnc<LINK_LENGTH>, V>(s: Seq<(Token, V)>, n: int, fin: Map<Token, Entry<C>>, i: int, ids: Ids) -> bool {
    forall|j: int| 0 <= j < n ==> fin_seed::<C>(fin, (#[trigger] s[j]).0, i, ids)
}
pub open spec fn fin_seed<C: DxEnc<LINK_LENGTH>>(fin: Map<Token, Entry<C>>, t: Token, i: int, ids: Ids) -> bool {
    ids.contains_key((i, true, t)) && fin.contains_key(t) && fin[t].seed.v_bytes() == drawn(ids[(i, true, t)], SEED_LENGTH as nat)
}
#[verifier::opaque]
pub open spec fn map_seeds<C: DxEnc<LINK_LENGTH>, V>(ra: Map<Token, HashSet<V>>, fin: Map<Token, Entry<C>>, i: int, ids: Ids) -> bool {
    forall|t: Token| #[trigger] ra.contains_key(t) ==> fin_seed::<C>(fin, t, i, ids)
}
pub proof fn lemma_no_seeds<C: DxEnc<LINK_LENGTH>, V>(s: Seq<(Token, V)>, fin: Map<Token, Entry<C>>, i: int, ids: Ids)
    ensures fin_seeds::<C, V>(s, 0, fin, i, ids)
{ reveal(fin_seeds); }
/// The draw of the seed of one more chain.
pub proof fn lemma_seed_draw<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, V>(ids: Ids, lo: DrawId, hi: DrawId, log: Seq<Ev>, from: int, key: E::Key, links: Store, i: int, s: Seq<(Token, HashSet<V>)>, ra: Map<Token, HashSet<V>>, n: int, fin: Map<Token, Entry<C>>, ds: DrawId) -> (r: Ids)
    requires
        fresh(ids, lo, hi), !bef(hi, lo), covers::<E>(log, from, key, ids), !bef(ds, hi), i >= log.len(), nonces(links, log.len() as int, ids),
        enum_map(s, ra), 0 <= n < s.len(), fin_seeds::<C, HashSet<V>>(s, n, fin, i, ids),
    ensures
        r == ids.insert((i, true, s[n].0), ds), !bef(bump(ds), lo),
        fresh(r, lo, bump(ds)), covers::<E>(log, from, key, r), nonces(links, log.len() as int, r), fin_seeds::<C, HashSet<V>>(s, n, fin, i, r),
{
    reveal(fin_seeds);
    reveal(nonces);
    lemma_draw::<E>(ids, lo, hi, ds, (i, true, s[n].0), log, from, key);
    let r = ids.insert((i, true, s[n].0), ds);
    assert forall|j: int| 0 <= j < n implies fin_seed::<C>(fin, (#[trigger] s[j]).0, i, r) by {
        assert(s[j].0 != s[n].0);
        assert(fin_seed::<C>(fin, s[j].0, i, ids));
    }
    r
}
/// The draw of a nonce leaves the seeds alone.
pub proof fn lemma_seeds_kept<C: DxEnc<LINK_LENGTH>, V>(s: Seq<(Token, HashSet<V>)>, ra: Map<Token, HashSet<V>>, n: int, fin: Map<Token, Entry<C>>, i: int, ids: Ids, p: int, t: Token, d: DrawId)
    ensures
        fin_seeds::<C, HashSet<V>>(s, n, fin, i, ids) ==> fin_seeds::<C, HashSet<V>>(s, n, fin, i, ids.insert((p, false, t), d)),
        map_seeds::<C, V>(ra, fin, i, ids) ==> map_seeds::<C, V>(ra, fin, i, ids.insert((p, false, t), d)),
{
    reveal(fin_seeds);
    reveal(map_seeds);
    let r = ids.insert((p, false, t), d);
    if fin_seeds::<C, HashSet<V>>(s, n, fin, i, ids) {
        assert forall|j: int| 0 <= j < n implies fin_seed::<C>(fin, (#[trigger] s[j]).0, i, r) by { assert(fin_seed::<C>(fin, s[j].0, i, ids)); }
    }
    if map_seeds::<C, V>(ra, fin, i, ids) {
        assert forall|u: Token| #[trigger] ra.contains_key(u) implies fin_seed::<C>(fin, u, i, r) by { assert(fin_seed::<C>(fin, u, i, ids)); }
    }
}
pub proof fn lemma_fin_seed_step<C: DxEnc<LINK_LENGTH>, V>(s: Seq<(Token, HashSet<V>)>, ra: Map<Token, HashSet<V>>, n: int, fin: Map<Token, Entry<C>>, e: Entry<C>, i: int, ids: Ids)
    requires
        enum_map(s, ra), 0 <= n < s.len(), fin_seeds::<C, HashSet<V>>(s, n, fin, i, ids),
        ids.contains_key((i, true, s[n].0)), e.seed.v_bytes() == drawn(ids[(i, true, s[n].0)], SEED_LENGTH as nat),
    ensures fin_seeds::<C, HashSet<V>>(s, n + 1, fin.insert(s[n].0, e), i, ids)
{
    reveal(fin_seeds);
    let f2 = fin.insert(s[n].0, e);
    assert forall|j: int| 0 <= j < n + 1 implies fin_seed::<C>(f2, (#[trigger] s[j]).0, i, ids) by {
        if j < n { assert(s[j].0 != s[n].0); assert(fin_seed::<C>(fin, s[j].0, i, ids)); }
    }
}
pub proof fn lemma_fin_seed_end<C: DxEnc<LINK_LENGTH>, V>(s: Seq<(Token, HashSet<V>)>, ra: Map<Token, HashSet<V>>, fin: Map<Token, Entry<C>>, i: int, ids: Ids)
    requires enum_map(s, ra), fin_seeds::<C, HashSet<V>>(s, s.len() as int, fin, i, ids)
    ensures map_seeds::<C, V>(ra, fin, i, ids)
{
    reveal(fin_seeds);
    reveal(map_seeds);
    assert forall|t: Token| #[trigger] ra.contains_key(t) implies fin_seed::<C>(fin, t, i, ids) by {
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == t;
        assert(fin_seed::<C>(fin, s[j].0, i, ids));
    }
}
/// The nonces of the lines written before are as they were.
pub proof fn lemma_nonces_kept(s: Store, p: int, ids: Ids, q: int, t: Token, d: DrawId)
    requires nonces(s, p, ids), p != q
    ensures nonces(s, p, ids.insert((q, false, t), d))
{ reveal(nonces); }
/// The requests of a compaction that wrote the lines `links` and the entries `ents`.
pub proof fn lemma_comp_fresh<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(a: World, c: nat, edb: int, cdb: int, key: E::Key, label: Seq<u8>, ra: Map<Token, HashSet<Vec<u8>>>, d: CompactingData<C>, links: Store, ents: Store, olds: Set<Token>,
    fin: Map<Token, Entry<C>>, chains: Map<Token, (C::Key, Vec<Token>)>, lines: Map<Token, Vec<Link>>, ids: Ids, olde: Set<Token>)
    requires
        comp_data::<E, C>(key, label, ra, d, links, ents, olds, fin, chains, lines),
        map_seeds::<C, Vec<u8>>(ra, fin, a.log.len() as int + 1, ids), fresh(ids, (a.clock, 0nat), (c, 0nat)),
    ensures
        forall|b: World| grew(a, b) && comp_reqs(new_evs(a, b), edb, cdb, links, ents, olds, olde) && covers::<E>(b.log, a.log.len() as int, key, ids) && c <= b.clock
            ==> #[trigger] comp_fresh::<E, C>(a, b, key, label, live_of(ra), d.entries@),
{
    reveal(map_seeds);
    let at = a.log.len() as int;
    assert forall|b: World| grew(a, b) && comp_reqs(new_evs(a, b), edb, cdb, links, ents, olds, olde) && covers::<E>(b.log, at, key, ids) && c <= b.clock
        implies #[trigger] comp_fresh::<E, C>(a, b, key, label, live_of(ra), d.entries@) by {
        reveal(comp_fresh);
        if at + 1 < b.log.len() {
            let e = b.log[at + 1];
            assert(e == new_evs(a, b)[1]);
            if e is Insert {
                assert(e->items == ents);
                assert forall|t: Token| #[trigger] live_of(ra).contains(t) implies d.entries@.contains_key(t) && seed_at::<E>(key, ents, new_tok::<E, C>(key, label, d.entries@[t]), (at + 1, true, t), ids) by {
                    assert(ra.contains_key(t));
                    assert(fin_seed::<C>(fin, t, at + 1, ids));
                    assert(keep(ra, t));
                    assert(stored_as::<E, C>(key, label, ents, fin[t]));
                }
            }
        }
        assert(covers::<E>(b.log, at, key, ids) && fresh(ids, (a.clock, 0nat), (c, 0nat)));
    }
}
pub proof fn lemma_live<Tag: VAsRef, Value: VAsRef>(g: Map<Token, HashSet<IndexedValue<Tag, Value>>>, m: Map<Token, HashSet<Vec<u8>>>)
    requires encoded_at(g, m)
    ensures live_of(g) == live_of(m)
{
    assert forall|t: Token| live_of(g).contains(t) <==> live_of(m).contains(t) by {
        if g.contains_key(t) {
            assert(enc_set(g[t]@, m[t]@));
            let f = |v: IndexedValue<Tag, Value>| mk_vec(iv_bytes(v));
            if g[t]@ != Set::<IndexedValue<Tag, Value>>::empty() {
                assert(exists|x: IndexedValue<Tag, Value>| g[t]@.contains(x)) by { if forall|x: IndexedValue<Tag, Value>| !g[t]@.contains(x) { assert(g[t]@ =~= Set::empty()); } }
                let x = choose|x: IndexedValue<Tag, Value>| g[t]@.contains(x);
                assert(g[t]@.map(f).contains(f(x)));
                assert(m[t]@.contains(f(x)));
            } else {
                assert forall|y: Vec<u8>| !m[t]@.contains(y) by { if g[t]@.map(f).contains(y) { let x = choose|x: IndexedValue<Tag, Value>| g[t]@.contains(x) && f(x) == y; } }
                assert(m[t]@ =~= Set::empty());
            }
        }
        assert(g.dom().contains(t) == m.dom().contains(t));
    }
    assert(live_of(g) =~= live_of(m));
}
pub open spec fn writes(e: Ev) -> bool { e is Upsert || e is Insert }
/// Requests that write nothing.
pub proof fn lemma_reads_fresh<E: DxEnc<ENTRY_LENGTH>>(a: World, b: World, key: E::Key)
    requires grew(a, b), forall|i: int| 0 <= i < new_evs(a, b).len() ==> !writes(#[trigger] new_evs(a, b)[i])
    ensures all_fresh::<E>(a, b, key)
{
    let ids = lemma_fresh0::<E>(a, key);
    reveal(covers);
    reveal(all_fresh);
    assert forall|j: int| a.log.len() <= j < b.log.len() implies #[trigger] ev_fresh::<E>(b.log[j], j, key, ids) by {
        assert(b.log[j] == new_evs(a, b)[j - a.log.len()]);
    }
    assert(covers::<E>(b.log, a.log.len() as int, key, ids) && fresh(ids, (a.clock, 0nat), (a.clock, 0nat)));
}
/// One operation after another.
pub proof fn lemma_join_fresh<E: DxEnc<ENTRY_LENGTH>>(a: World, b: World, c: World, key: E::Key)
    requires grew(a, b), grew(b, c), all_fresh::<E>(a, b, key), all_fresh::<E>(b, c, key)
    ensures all_fresh::<E>(a, c, key)
{
    reveal(covers);
    reveal(fresh);
    reveal(nonces);
    reveal(all_fresh);
    let i1 = lemma_fresh_of::<E>(a, b, key);
    let i2 = lemma_fresh_of::<E>(b, c, key);
    let n = b.log.len() as int;
    let r1 = i1.restrict(i1.dom().filter(|k: IdKey| k.0 < n));
    let r2 = i2.restrict(i2.dom().filter(|k: IdKey| k.0 >= n));
    let r = r1.union_prefer_right(r2);
    assert forall|k: IdKey| #[trigger] r.contains_key(k) implies (if k.0 < n { i1.contains_key(k) && r[k] == i1[k] } else { i2.contains_key(k) && r[k] == i2[k] }) by {}
    assert(fresh(r, (a.clock, 0nat), (c.clock, 0nat)));
    assert forall|j: int| a.log.len() <= j < c.log.len() implies #[trigger] ev_fresh::<E>(c.log[j], j, key, r) by {
        if j < n {
            assert(c.log.take(n)[j] == b.log[j]);
            assert(ev_fresh::<E>(b.log[j], j, key, i1));
        } else {
            assert(ev_fresh::<E>(c.log[j], j, key, i2));
        }
        let id = if j < n { i1 } else { i2 };
        assert forall|f: bool, t: Token| id.contains_key((j, f, t)) implies #[trigger] r.contains_key((j, f, t)) && r[(j, f, t)] == id[(j, f, t)] by {}
        if let Ev::Upsert { old, new, .. } = c.log[j] {
            assert forall|t: Token| #[trigger] new.contains_key(t) && !old.contains_key(t) implies seed_at::<E>(key, new, t, (j, true, t), r) by { assert(seed_at::<E>(key, new, t, (j, true, t), id)); assert(r.contains_key((j, true, t))); }
            assert forall|t: Token| #[trigger] new.contains_key(t) implies r.contains_key((j, false, t)) && new[t].nonce == drawn(r[(j, false, t)], NONCE_LENGTH as nat) by { }
        }
        if let Ev::Insert { items, .. } = c.log[j] {
            assert forall|t: Token| #[trigger] items.contains_key(t) implies r.contains_key((j, false, t)) && items[t].nonce == drawn(r[(j, false, t)], NONCE_LENGTH as nat) by { }
        }
    }
    assert(covers::<E>(c.log, a.log.len() as int, key, r) && fresh(r, (a.clock, 0nat), (c.clock, 0nat)));
}
pub proof fn lemma_then_fresh<E: DxEnc<ENTRY_LENGTH>>(a: World, b: World, key: E::Key)
    requires grew(a, b), all_fresh::<E>(a, b, key)
    ensures forall|c: World| grew(b, c) && all_fresh::<E>(b, c, key) ==> #[trigger] all_fresh::<E>(a, c, key)
{
    assert forall|c: World| grew(b, c) && all_fresh::<E>(b, c, key) implies #[trigger] all_fresh::<E>(a, c, key) by { lemma_join_fresh::<E>(a, b, c, key); }
}
/// The first requests of a compaction batch.
pub proof fn lemma_prep_fresh<E: DxEnc<ENTRY_LENGTH>>(a: World, key: E::Key, edb: int, cdb: int, tokens: Set<Token>)
    ensures forall|b: World| grew(a, b) && prep_reqs(new_evs(a, b), edb, cdb, tokens) ==> #[trigger] all_fresh::<E>(a, b, key)
{
    assert forall|b: World| grew(a, b) && prep_reqs(new_evs(a, b), edb, cdb, tokens) implies #[trigger] all_fresh::<E>(a, b, key) by { lemma_reads_fresh::<E>(a, b, key); }
}
pub proof fn lemma_comps_fresh<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(a: World, key: E::Key, label: Seq<u8>, live: Set<Token>, d: Map<Token, Entry<C>>)
    ensures forall|b: World| #[trigger] comp_fresh::<E, C>(a, b, key, label, live, d) ==> all_fresh::<E>(a, b, key)
{
    assert forall|b: World| #[trigger] comp_fresh::<E, C>(a, b, key, label, live, d) implies all_fresh::<E>(a, b, key) by { lemma_comp_all_fresh::<E, C>(a, b, key, label, live, d); }
}
// ------------------------------------------------------------------ what it means
pub open spec fn written(e: Ev) -> Store {
    match e { Ev::Upsert { new, .. } => new, Ev::Insert { items, .. } => items, _ => Map::empty() }
}
/// A value drawn by the operation that took the world from `a` to `b`.
pub open spec fn own_draw(a: World, b: World, d: DrawId) -> bool { a.clock <= d.0 < b.clock }
pub open spec fn two_draws(x: Seq<u8>, y: Seq<u8>, n: nat, d: DrawId, e: DrawId) -> bool { d != e && x == drawn(d, n) && y == drawn(e, n) }
/// Two values written by an operation, by whatever requests (a retry included), have nonces of two
/// distinct draws of this operation.
pub proof fn theorem_nonces<E: DxEnc<ENTRY_LENGTH>>(a: World, b: World, key: E::Key, i: int, t: Token, j: int, u: Token)
    requires
        all_fresh::<E>(a, b, key), a.log.len() <= i < b.log.len(), a.log.len() <= j < b.log.len(), i != j || t != u,
        written(b.log[i]).contains_key(t), written(b.log[j]).contains_key(u),
    ensures exists|d: DrawId, e: DrawId| #[trigger] two_draws(written(b.log[i])[t].nonce, written(b.log[j])[u].nonce, NONCE_LENGTH as nat, d, e) && own_draw(a, b, d) && own_draw(a, b, e)
{
    reveal(covers);
    reveal(fresh);
    reveal(nonces);
    let ids = lemma_fresh_of::<E>(a, b, key);
    assert(ev_fresh::<E>(b.log[i], i, key, ids));
    assert(ev_fresh::<E>(b.log[j], j, key, ids));
    let d = ids[(i, false, t)];
    let e = ids[(j, false, u)];
    assert((i, false, t) != (j, false, u));
    assert(two_draws(written(b.log[i])[t].nonce, written(b.log[j])[u].nonce, NONCE_LENGTH as nat, d, e));
}
/// Operations that follow each other on the same generator draw apart.
pub proof fn theorem_nonces_apart<E: DxEnc<ENTRY_LENGTH>>(a: World, b: World, key: E::Key, c: World, d: World, key2: E::Key, i: int, t: Token, j: int, u: Token)
    requires
        all_fresh::<E>(a, b, key), all_fresh::<E>(c, d, key2), b.clock <= c.clock,
        a.log.len() <= i < b.log.len(), c.log.len() <= j < d.log.len(),
        written(b.log[i]).contains_key(t), written(d.log[j]).contains_key(u),
    ensures exists|x: DrawId, y: DrawId| #[trigger] two_draws(written(b.log[i])[t].nonce, written(d.log[j])[u].nonce, NONCE_LENGTH as nat, x, y)
{
    reveal(covers);
    reveal(fresh);
    reveal(nonces);
    let i1 = lemma_fresh_of::<E>(a, b, key);
    let i2 = lemma_fresh_of::<E>(c, d, key2);
    assert(ev_fresh::<E>(b.log[i], i, key, i1));
    assert(ev_fresh::<E>(d.log[j], j, key2, i2));
    let x = i1[(i, false, t)];
    let y = i2[(j, false, u)];
    assert(two_draws(written(b.log[i])[t].nonce, written(d.log[j])[u].nonce, NONCE_LENGTH as nat, x, y));
}
pub open spec fn creates(e: Ev, t: Token) -> bool { e matches Ev::Upsert { old, new, .. } && new.contains_key(t) && !old.contains_key(t) }
pub open spec fn seed_in<E: DxEnc<ENTRY_LENGTH>>(key: E::Key, e: Ev, t: Token) -> Seq<u8> { entry_at::<E>(key, written(e), t).unwrap().seed }
/// The same for the seeds of two entries that an operation proposes to create, and a seed is no nonce.
pub proof fn theorem_seeds<E: DxEnc<ENTRY_LENGTH>>(a: World, b: World, key: E::Key, i: int, t: Token, j: int, u: Token)
    requires
        all_fresh::<E>(a, b, key), a.log.len() <= i < b.log.len(), a.log.len() <= j < b.log.len(), i != j || t != u,
        creates(b.log[i], t), creates(b.log[j], u),
    ensures exists|d: DrawId, e: DrawId| #[trigger] two_draws(seed_in::<E>(key, b.log[i], t), seed_in::<E>(key, b.log[j], u), SEED_LENGTH as nat, d, e) && own_draw(a, b, d) && own_draw(a, b, e)
{
    reveal(covers);
    reveal(fresh);
    let ids = lemma_fresh_of::<E>(a, b, key);
    assert(ev_fresh::<E>(b.log[i], i, key, ids));
    assert(ev_fresh::<E>(b.log[j], j, key, ids));
    assert(seed_at::<E>(key, written(b.log[i]), t, (i, true, t), ids));
    assert(seed_at::<E>(key, written(b.log[j]), u, (j, true, u), ids));
    let d = ids[(i, true, t)];
    let e = ids[(j, true, u)];
    assert((i, true, t) != (j, true, u));
    assert(two_draws(seed_in::<E>(key, b.log[i], t), seed_in::<E>(key, b.log[j], u), SEED_LENGTH as nat, d, e));
}
/// The same for the seeds of two chains that a compaction batch writes anew.
pub proof fn theorem_compact_seeds<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(a: World, b: World, key: E::Key, label: Seq<u8>, live: Set<Token>, d: Map<Token, Entry<C>>, t: Token, u: Token)
    requires
        comp_fresh::<E, C>(a, b, key, label, live, d), a.log.len() + 1 < b.log.len(), b.log[a.log.len() as int + 1] is Insert, live.contains(t), live.contains(u), t != u,
    ensures ({
        let e = b.log[a.log.len() as int + 1];
        exists|x: DrawId, y: DrawId| #[trigger] two_draws(seed_in::<E>(key, e, new_tok::<E, C>(key, label, d[t])), seed_in::<E>(key, e, new_tok::<E, C>(key, label, d[u])), SEED_LENGTH as nat, x, y) && own_draw(a, b, x) && own_draw(a, b, y)
    })
{
    reveal(comp_fresh);
    reveal(fresh);
    let i = a.log.len() as int + 1;
    let (ids, hi) = choose|ids: Ids, hi: DrawId| #[trigger] covers::<E>(b.log, a.log.len() as int, key, ids) && #[trigger] fresh(ids, (a.clock, 0nat), hi) && !bef((b.clock, 0nat), hi)
        && new_seeds::<E, C>(b.log, i, key, label, live, d, ids);
    let e = b.log[i];
    assert(seed_at::<E>(key, e->items, new_tok::<E, C>(key, label, d[t]), (i, true, t), ids));
    assert(seed_at::<E>(key, e->items, new_tok::<E, C>(key, label, d[u]), (i, true, u), ids));
    assert((i, true, t) != (i, true, u));
    assert(two_draws(seed_in::<E>(key, e, new_tok::<E, C>(key, label, d[t])), seed_in::<E>(key, e, new_tok::<E, C>(key, label, d[u])), SEED_LENGTH as nat, ids[(i, true, t)], ids[(i, true, u)]));
}
