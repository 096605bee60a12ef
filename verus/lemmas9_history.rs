pub mod hist { use super::*;
// ====================================================================================
// Histories: what the contracts of the operations say together, under any interleaving of their
// requests, when any of them may fail or stop at any point. One keyword is followed.
// ====================================================================================
/// The keyword that is followed: its key, label, bytes, the seed of its chain, a bound of the number
/// of its lines, and the two stores.
pub struct Chain1<K, Tag> { pub key: K, pub label: Seq<u8>, pub g: Tag, pub sd: Seq<u8>, pub lim: nat, pub edb: int, pub cdb: int }
pub open spec fn w_tok<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>) -> Token { tag_tok::<E>(w.key, w.g.v_bytes(), w.label) }
pub open spec fn w_hash<K, Tag: VAsRef>(w: Chain1<K, Tag>) -> Seq<u8> { sha3_spec(w.g.v_bytes()) }
pub open spec fn w_ck<K, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<K, Tag>) -> C::Key { C::sp_keys(w.sd) }
/// The `i`-th token of its chain.
pub open spec fn w_ct<K, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<K, Tag>, i: int) -> Token { chain_tok::<C>(C::sp_keys(w.sd), sha3_spec(w.g.v_bytes()), i as nat) }
/// An addition or a deletion (`mods`), or a search (`reads`): the requests it has made.
pub struct HOp<K, Tag> { pub key: K, pub label: Seq<u8>, pub mods: Map<Tag, Vec<(Operation, Vec<u8>)>>, pub log: Seq<Ev>, pub reads: bool }
/// One step of a history: a request of the operation `op`.
pub struct Step { pub op: int, pub ev: Ev }
pub struct Stores { pub e: Store, pub c: Store }
/// What the contracts say of the requests of an operation (stopped after any of them).
pub open spec fn op_ok<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(edb: int, cdb: int, o: HOp<E::Key, Tag>) -> bool {
    if o.reads { all_gets(o.log, edb, cdb) }
    else { o.log.len() == 0 || ins_log::<E, C, Tag>(o.log, edb, cdb, o.key, o.label, o.mods) }
}
/// The requests of the operation `o` in a history.
pub open spec fn own(h: Seq<Step>, o: int) -> Seq<Ev>
    decreases h.len()
{
    if h.len() == 0 { Seq::empty() }
    else if h.last().op == o { own(h.drop_last(), o).push(h.last().ev) }
    else { own(h.drop_last(), o) }
}
pub open spec fn sto(s: Stores, edb: int, db: int) -> Store { if db == edb { s.e } else { s.c } }
/// The stores after a history.
pub open spec fn after(s0: Stores, h: Seq<Step>, edb: int) -> Stores
    decreases h.len()
{
    if h.len() == 0 { s0 }
    else {
        let s = after(s0, h.drop_last(), edb);
        if ev_db(h.last().ev) == edb { Stores { e: ev_post(h.last().ev), c: s.c } } else { Stores { e: s.e, c: ev_post(h.last().ev) } }
    }
}
/// A history of the operations `ops` on the stores `s0`: every request meets the store that the
/// requests before it have left, and every operation makes its own requests in its own order.
pub open spec fn runs<K, Tag>(s0: Stores, h: Seq<Step>, ops: Seq<HOp<K, Tag>>, edb: int, cdb: int) -> bool
    decreases h.len()
{
    h.len() == 0 || {
        let x = h.last();
        let p = h.drop_last();
        let k = own(p, x.op).len() as int;
        &&& runs(s0, p, ops, edb, cdb)
        &&& 0 <= x.op < ops.len() && k < ops[x.op].log.len() && ops[x.op].log[k] == x.ev
        &&& (ev_db(x.ev) == edb || ev_db(x.ev) == cdb) && ev_pre(x.ev) == sto(after(s0, p, edb), edb, ev_db(x.ev))
    }
}
pub proof fn lemma_own<K, Tag>(s0: Stores, h: Seq<Step>, ops: Seq<HOp<K, Tag>>, edb: int, cdb: int, o: int)
    requires runs(s0, h, ops, edb, cdb), 0 <= o < ops.len()
    ensures own(h, o).len() <= ops[o].log.len(), own(h, o) == ops[o].log.take(own(h, o).len() as int)
    decreases h.len()
{
    if h.len() == 0 { assert(own(h, o) =~= ops[o].log.take(0)); }
    else {
        lemma_own(s0, h.drop_last(), ops, edb, cdb, o);
        assert(own(h, o) =~= ops[o].log.take(own(h, o).len() as int));
    }
}
/// The lines that one accepted write of the entry has reserved: for the operation `op`, by its
/// `at`-th request, to hold `mods`; `done` once they are written.
pub struct Seg { pub op: int, pub at: int, pub n: nat, pub mods: Seq<(Operation, Vec<u8>)>, pub done: bool }
pub open spec fn tot(s: Seq<Seg>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { tot(s.drop_last()) + s.last().n }
}
pub open spec fn off(s: Seq<Seg>, i: int) -> nat { tot(s.take(i)) }
pub open spec fn mark(s: Seq<Seg>, o: int) -> Seq<Seg> { s.map_values(|q: Seg| if q.op == o { Seg { done: true, ..q } } else { q }) }
/// The changes of the keyword in the order in which they took effect.
pub open spec fn segs<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, sg0: Seq<Seg>, h: Seq<Step>) -> Seq<Seg>
    decreases h.len()
{
    if h.len() == 0 { sg0 }
    else {
        let p = segs::<E, Tag>(w, ops, sg0, h.drop_last());
        let x = h.last();
        if accepted(x.ev, w_tok::<E, Tag>(w)) {
            p.push(Seg { op: x.op, at: own(h.drop_last(), x.op).len() as int, n: n_lines(enc_mods(ops[x.op].mods[w.g]@).len()), mods: ops[x.op].mods[w.g]@, done: false })
        } else if x.ev is Insert && ev_ok(x.ev) { mark(p, x.op) }
        else { p }
    }
}
/// All the changes whose lines are written, in order.
pub open spec fn done_mods(s: Seq<Seg>) -> Seq<(Operation, Vec<u8>)>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s.last().done { done_mods(s.drop_last()) + s.last().mods }
    else { done_mods(s.drop_last()) }
}
pub open spec fn seg_lines<K, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<K, Tag>, c: Store, o: nat, n: nat) -> Seq<Link> {
    Seq::new(n, |j: int| line_at::<C>(w_ck::<K, C, Tag>(w), c, w_ct::<K, C, Tag>(w, o + j)).unwrap())
}
/// The store holds the lines of a change, or none of them.
pub open spec fn seg_ok<K, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<K, Tag>, c: Store, x: Seg, o: nat) -> bool {
    &&& x.n == n_lines(enc_mods(x.mods).len()) && x.n > 0 && no_empty(x.mods)
    &&& x.done ==> (forall|j: int| 0 <= j < x.n ==> line_at::<C>(w_ck::<K, C, Tag>(w), c, #[trigger] w_ct::<K, C, Tag>(w, o + j)) is Some) && lines_for(x.mods, seg_lines::<K, C, Tag>(w, c, o, x.n))
    &&& !x.done ==> forall|j: int| 0 <= j < x.n ==> !c.contains_key(#[trigger] w_ct::<K, C, Tag>(w, o + j))
}
/// The operation has written its lines.
pub open spec fn wrote(s: Seq<Ev>) -> bool { s.len() > 0 && s.last() is Insert && ev_ok(s.last()) }
/// The change number `i` comes from one request of its operation, and from it the operation knows its lines.
pub open spec fn linked<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, h: Seq<Step>, x: Seg, o: nat, first: bool) -> bool {
    &&& x.op < ops.len() && touches::<E, Tag>(w, ops[x.op]) && x.mods == ops[x.op].mods[w.g]@
    &&& 0 <= x.at < own(h, x.op).len() && accepted(own(h, x.op)[x.at], w_tok::<E, Tag>(w))
    &&& x.done <==> wrote(own(h, x.op))
    &&& forall|n: nat, is_new: bool, ck: C::Key, toks: Seq<Token>| #[trigger] ext_at::<E, C>(own(h, x.op)[x.at], w.key, w_tok::<E, Tag>(w), w_hash(w), n, is_new, ck, toks) ==>
        ck == w_ck::<E::Key, C, Tag>(w) && toks == Seq::new(n, |j: int| w_ct::<E::Key, C, Tag>(w, o + j)) && (is_new <==> first)
}
pub open spec fn from_op(x: Seg, o: int, k: int) -> bool { x.op == o && x.at == k }
pub open spec fn has_seg(s: Seq<Seg>, o: int, k: int) -> bool { exists|i: int| 0 <= i < s.len() && from_op(#[trigger] s[i], o, k) }
/// The state of the stores after a history, for the keyword that is followed.
pub open spec fn inv<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, h: Seq<Step>, s: Seq<Seg>, st: Stores) -> bool {
    inv_state::<E, C, Tag>(w, s, st) && links::<E, C, Tag>(w, ops, h, s)
}
pub open spec fn inv_state<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s: Seq<Seg>, st: Stores) -> bool {
    &&& inv_entry::<E, C, Tag>(w, s, st.e)
    &&& forall|i: int| 0 <= i < s.len() ==> seg_ok::<E::Key, C, Tag>(w, st.c, #[trigger] s[i], off(s, i))
    &&& forall|j: int| tot(s) <= j < w.lim ==> !st.c.contains_key(#[trigger] w_ct::<E::Key, C, Tag>(w, j))
}
pub open spec fn inv_entry<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s: Seq<Seg>, e: Store) -> bool {
    if s.len() == 0 { !e.contains_key(w_tok::<E, Tag>(w)) }
    else {
        tot(s) > 0 && entry_at::<E>(w.key, e, w_tok::<E, Tag>(w))
            == Some(EntryV { tok: Some(w_ct::<E::Key, C, Tag>(w, tot(s) - 1)), seed: w.sd, hash: w_hash(w) })
    }
}
/// The operation changes the keyword that is followed.
pub open spec fn touches<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, o: HOp<E::Key, Tag>) -> bool {
    !o.reads && o.key == w.key && o.mods.contains_key(w.g) && tag_tok::<E>(o.key, w.g.v_bytes(), o.label) == w_tok::<E, Tag>(w)
}
/// HYPOTHESIS on one operation: no collision. Its keywords have different tokens, no other keyword,
/// key or label has the token that is followed, and no line of another chain has a token of the chain
/// that is followed. What it writes for the keyword is not empty (`mods_for`), and a new chain is
/// given the seed `w.sd`.
pub open spec fn no_clash<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, o: HOp<E::Key, Tag>) -> bool {
    &&& forall|u: Tag| #[trigger] o.mods.contains_key(u) && tag_tok::<E>(o.key, u.v_bytes(), o.label) == w_tok::<E, Tag>(w) ==> u == w.g && o.key == w.key
    &&& o.mods.contains_key(w.g) ==> o.mods[w.g]@.len() > 0 && no_empty(o.mods[w.g]@)
    &&& forall|k: int| 0 <= k < o.log.len() ==> #[trigger] apart_ev::<E, C, Tag>(w, o, o.log[k])
    &&& forall|k: int| 0 <= k < o.log.len() ==> #[trigger] seeded::<E, Tag>(w, o.log[k])
}
pub open spec fn seeded<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, e: Ev) -> bool {
    accepted(e, w_tok::<E, Tag>(w)) && !e->old.contains_key(w_tok::<E, Tag>(w)) && entry_at::<E>(w.key, e->new, w_tok::<E, Tag>(w)) is Some
        ==> entry_at::<E>(w.key, e->new, w_tok::<E, Tag>(w)).unwrap().seed == w.sd
}
pub open spec fn apart_ev<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, o: HOp<E::Key, Tag>, e: Ev) -> bool {
    forall|u: Tag, n: nat, is_new: bool, ck: C::Key, toks: Seq<Token>, i: int, j: int|
        #![trigger ext_at::<E, C>(e, o.key, tag_tok::<E>(o.key, u.v_bytes(), o.label), sha3_spec(u.v_bytes()), n, is_new, ck, toks), toks[i], w_ct::<E::Key, C, Tag>(w, j)]
        o.mods.contains_key(u) && tag_tok::<E>(o.key, u.v_bytes(), o.label) != w_tok::<E, Tag>(w)
        && ext_at::<E, C>(e, o.key, tag_tok::<E>(o.key, u.v_bytes(), o.label), sha3_spec(u.v_bytes()), n, is_new, ck, toks)
        && 0 <= i < toks.len() && 0 <= j < w.lim ==> toks[i] != w_ct::<E::Key, C, Tag>(w, j)
}
/// HYPOTHESIS on the chain: its tokens differ, and none is all zeros.
pub open spec fn chain_differs<K, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<K, Tag>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < w.lim ==> #[trigger] w_ct::<K, C, Tag>(w, i) != #[trigger] w_ct::<K, C, Tag>(w, j)
    &&& forall|i: int| 0 <= i < w.lim ==> #[trigger] w_ct::<K, C, Tag>(w, i) != zero_token()
}
// ------------------------------------------------------------------ segments
pub proof fn lemma_off(s: Seq<Seg>, i: int)
    requires 0 <= i < s.len()
    ensures off(s, i + 1) == off(s, i) + s[i].n, off(s, i + 1) <= tot(s), off(s, 0) == 0, off(s, s.len() as int) == tot(s)
    decreases s.len()
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(s.len() as int) =~= s);
    if i + 1 < s.len() {
        let p = s.drop_last();
        lemma_off(p, i);
        assert(p.take(i + 1) =~= s.take(i + 1));
    }
}
pub proof fn lemma_off_le(s: Seq<Seg>, i: int, j: int)
    requires 0 <= i < j <= s.len()
    ensures off(s, i) + s[i].n <= off(s, j), off(s, j) <= tot(s)
    decreases j - i
{
    lemma_off(s, j - 1);
    if i + 1 < j { lemma_off_le(s, i, j - 1); }
}
pub proof fn lemma_off_push(s: Seq<Seg>, x: Seg)
    ensures tot(s.push(x)) == tot(s) + x.n, forall|i: int| 0 <= i <= s.len() ==> #[trigger] off(s.push(x), i) == off(s, i), off(s, s.len() as int) == tot(s)
{
    assert(s.push(x).drop_last() =~= s);
    assert(s.take(s.len() as int) =~= s);
    assert forall|i: int| 0 <= i <= s.len() implies #[trigger] off(s.push(x), i) == off(s, i) by { assert(s.push(x).take(i) =~= s.take(i)); }
}
pub proof fn lemma_mark(s: Seq<Seg>, o: int)
    ensures
        mark(s, o).len() == s.len(), tot(mark(s, o)) == tot(s),
        forall|i: int| 0 <= i <= s.len() ==> #[trigger] off(mark(s, o), i) == off(s, i),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] mark(s, o)[i] == (if s[i].op == o { Seg { done: true, ..s[i] } } else { s[i] }),
    decreases s.len()
{
    let m = mark(s, o);
    if s.len() > 0 {
        lemma_mark(s.drop_last(), o);
        assert(mark(s.drop_last(), o) =~= m.drop_last());
    }
    assert forall|i: int| 0 <= i <= s.len() implies #[trigger] off(m, i) == off(s, i) by {
        if i == s.len() { assert(m.take(i) =~= m); assert(s.take(i) =~= s); }
        else {
            let p = s.drop_last();
            assert(off(mark(p, o), i) == off(p, i));
            assert(mark(p, o).take(i) =~= m.take(i));
            assert(p.take(i) =~= s.take(i));
        }
    }
}
// ------------------------------------------------------------------ one step
/// What an accepted write of the entry makes of it.
pub proof fn lemma_hist_ext<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s: Seq<Seg>, e: Ev, n: nat, is_new: bool, ck: C::Key, toks: Seq<Token>)
    requires
        accepted(e, w_tok::<E, Tag>(w)), inv_entry::<E, C, Tag>(w, s, ev_pre(e)), seeded::<E, Tag>(w, e),
        ext_at::<E, C>(e, w.key, w_tok::<E, Tag>(w), w_hash(w), n, is_new, ck, toks),
    ensures
        ck == w_ck::<E::Key, C, Tag>(w), toks == Seq::new(n, |j: int| w_ct::<E::Key, C, Tag>(w, tot(s) + j)), is_new <==> s.len() == 0,
        n > 0 && w_ct::<E::Key, C, Tag>(w, tot(s) + n - 1) != zero_token() ==> entry_at::<E>(w.key, ev_post(e), w_tok::<E, Tag>(w))
            == Some(EntryV { tok: Some(w_ct::<E::Key, C, Tag>(w, tot(s) + n - 1)), seed: w.sd, hash: w_hash(w) }),
{
    let t = w_tok::<E, Tag>(w);
    let old = e->old;
    let new = e->new;
    let pre = ev_pre(e);
    assert(opt_at(old, t) == opt_at(pre, t));
    assert(ev_post(e)[t] == new[t] && ev_post(e).contains_key(t));
    assert(entry_at::<E>(w.key, ev_post(e), t) == entry_at::<E>(w.key, new, t));
    let want = Seq::new(n, |j: int| w_ct::<E::Key, C, Tag>(w, tot(s) + j));
    if old.contains_key(t) {
        assert(entry_at::<E>(w.key, old, t) == entry_at::<E>(w.key, pre, t));
        assert(s.len() > 0);
        assert forall|j: int| 0 <= j < n implies toks[j] == want[j] by { lemma_chain_shift::<C>(ck, w_hash(w), tot(s), j as nat); }
    } else {
        assert(!pre.contains_key(t));
        assert(s.len() == 0);
    }
    assert(toks =~= want);
}
/// What a request of an addition or deletion is.
pub open spec fn req_get(e: Ev, edb: int) -> bool { e is Get && ev_db(e) == edb }
pub open spec fn req_up<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(e: Ev, edb: int, o: HOp<E::Key, Tag>) -> bool { ext_upsert::<E, C, Tag>(e, edb, o.key, o.label, mod_lens(o.mods)) }
pub open spec fn req_ins<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(k: int, edb: int, cdb: int, o: HOp<E::Key, Tag>) -> bool {
    k == o.log.len() - 1 && o.log[k] is Insert && ev_db(o.log[k]) == cdb && exists|nt: Set<Tag>| #[trigger] ins_full::<E, C, Tag>(o.log, edb, cdb, o.key, o.label, o.mods, nt)
}
pub proof fn lemma_shape<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(edb: int, cdb: int, o: HOp<E::Key, Tag>, k: int)
    requires op_ok::<E, C, Tag>(edb, cdb, o), !o.reads, 0 <= k < o.log.len()
    ensures
        k == 0 ==> req_get(o.log[k], edb),
        k > 0 ==> req_up::<E, C, Tag>(o.log[k], edb, o) || req_ins::<E, C, Tag>(k, edb, cdb, o),
{
    let lens = mod_lens(o.mods);
    if com_log::<E, C, Tag>(o.log, edb, o.key, o.label, lens) {
        if k > 0 { assert(ext_upsert::<E, C, Tag>(o.log[k], edb, o.key, o.label, lens)); }
    } else {
        let nt = choose|nt: Set<Tag>| #[trigger] ins_full::<E, C, Tag>(o.log, edb, cdb, o.key, o.label, o.mods, nt);
        let p = o.log.drop_last();
        if k < p.len() {
            assert(p[k] == o.log[k]);
            if k > 0 { assert(ext_upsert::<E, C, Tag>(p[k], edb, o.key, o.label, lens)); }
        } else {
            assert(ins_ev::<E, C, Tag>(p, o.log.last(), cdb, o.key, o.label, o.mods, nt));
        }
    }
}
/// No two segments share a token; tokens of the chain below `lim` differ.
pub proof fn lemma_ct_differ<K, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<K, Tag>, i: int, j: int)
    requires chain_differs::<K, C, Tag>(w), 0 <= i < w.lim, 0 <= j < w.lim, w_ct::<K, C, Tag>(w, i) == w_ct::<K, C, Tag>(w, j)
    ensures i == j
{
    if i < j { assert(w_ct::<K, C, Tag>(w, i) != w_ct::<K, C, Tag>(w, j)); }
    if j < i { assert(w_ct::<K, C, Tag>(w, j) != w_ct::<K, C, Tag>(w, i)); }
}
/// The lines that a store holds for a segment depend on its tokens only.
pub proof fn lemma_seg_same<K, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<K, Tag>, a: Store, b: Store, x: Seg, o: nat)
    requires
        seg_ok::<K, C, Tag>(w, a, x, o),
        forall|j: int| 0 <= j < x.n ==> opt_at(b, #[trigger] w_ct::<K, C, Tag>(w, o + j)) == opt_at(a, w_ct::<K, C, Tag>(w, o + j)),
    ensures seg_ok::<K, C, Tag>(w, b, x, o)
{
    let ck = w_ck::<K, C, Tag>(w);
    assert forall|j: int| 0 <= j < x.n implies b.contains_key(#[trigger] w_ct::<K, C, Tag>(w, o + j)) == a.contains_key(w_ct::<K, C, Tag>(w, o + j))
        && line_at::<C>(ck, b, w_ct::<K, C, Tag>(w, o + j)) == line_at::<C>(ck, a, w_ct::<K, C, Tag>(w, o + j)) by {
        assert(opt_at(b, w_ct::<K, C, Tag>(w, o + j)) == opt_at(a, w_ct::<K, C, Tag>(w, o + j)));
    }
    if x.done { assert(seg_lines::<K, C, Tag>(w, a, o, x.n) =~= seg_lines::<K, C, Tag>(w, b, o, x.n)); }
}
/// An accepted write: one more segment.
pub proof fn lemma_state_push<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s: Seq<Seg>, st: Stores, e: Ev, o: HOp<E::Key, Tag>, x: Seg)
    requires
        inv_state::<E, C, Tag>(w, s, st), chain_differs::<E::Key, C, Tag>(w), no_clash::<E, C, Tag>(w, o), seeded::<E, Tag>(w, e),
        ev_pre(e) == st.e, accepted(e, w_tok::<E, Tag>(w)), req_up::<E, C, Tag>(e, w.edb, o), !o.reads,
        x.n == n_lines(enc_mods(o.mods[w.g]@).len()), x.mods == o.mods[w.g]@, !x.done, tot(s) + x.n <= w.lim,
    ensures
        touches::<E, Tag>(w, o),
        inv_state::<E, C, Tag>(w, s.push(x), Stores { e: ev_post(e), c: st.c }),
        forall|n: nat, is_new: bool, ck: C::Key, toks: Seq<Token>| #[trigger] ext_at::<E, C>(e, w.key, w_tok::<E, Tag>(w), w_hash(w), n, is_new, ck, toks) ==>
            ck == w_ck::<E::Key, C, Tag>(w) && toks == Seq::new(n, |j: int| w_ct::<E::Key, C, Tag>(w, tot(s) + j)) && (is_new <==> s.len() == 0),
{
    let t = w_tok::<E, Tag>(w);
    let lens = mod_lens(o.mods);
    assert(e->new.contains_key(t));
    assert(ext_some::<E, C, Tag>(e, o.key, o.label, lens, t));
    let (g, is_new, ck, toks) = choose|g: Tag, is_new: bool, ck: C::Key, toks: Seq<Token>| #[trigger] lens.contains_key(g) && tag_tok::<E>(o.key, g.v_bytes(), o.label) == t
        && #[trigger] ext_at::<E, C>(e, o.key, t, sha3_spec(g.v_bytes()), lens[g], is_new, ck, toks);
    assert(o.mods.contains_key(g));
    assert(g == w.g);
    lemma_lines_pos(o.mods[g]@);
    let n = x.n;
    assert(lens[g] == n);
    lemma_hist_ext::<E, C, Tag>(w, s, e, n, is_new, ck, toks);
    assert(w_ct::<E::Key, C, Tag>(w, tot(s) + n - 1) != zero_token());
    lemma_off_push(s, x);
    let q = s.push(x);
    assert forall|i: int| 0 <= i < q.len() implies seg_ok::<E::Key, C, Tag>(w, st.c, #[trigger] q[i], off(q, i)) by {
        assert(off(q, i) == off(s, i));
        if i < s.len() { assert(q[i] == s[i]); assert(seg_ok::<E::Key, C, Tag>(w, st.c, s[i], off(s, i))); }
    }
    assert forall|n: nat, is_new: bool, ck: C::Key, toks: Seq<Token>| #[trigger] ext_at::<E, C>(e, w.key, t, w_hash(w), n, is_new, ck, toks) implies
            ck == w_ck::<E::Key, C, Tag>(w) && toks == Seq::new(n, |j: int| w_ct::<E::Key, C, Tag>(w, tot(s) + j)) && (is_new <==> s.len() == 0) by {
        lemma_hist_ext::<E, C, Tag>(w, s, e, n, is_new, ck, toks);
    }
}
/// Something takes at least one block, hence one line.
pub proof fn lemma_lines_pos(m: Seq<(Operation, Vec<u8>)>)
    requires m.len() > 0
    ensures n_lines(enc_mods(m).len()) > 0
{
    let b = enc_value(m.last().0, m.last().1@);
    assert(b.len() >= 1);
    let k = enc_mods(m).len();
    assert(k >= 1);
    assert((k + (LINE_WIDTH - 1) as nat) / (LINE_WIDTH as nat) >= 1) by (nonlinear_arith) requires k >= 1, LINE_WIDTH == 5;
}
/// The insertion of the lines of another keyword leaves the chain as it is.
pub proof fn lemma_ins_other<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, o: HOp<E::Key, Tag>, n: Seq<Ev>, chains: Map<Tag, (C::Key, Vec<Token>)>, nt: Set<Tag>, u: Tag, i: int, j: int)
    requires
        no_clash::<E, C, Tag>(w, o), n == o.log.drop_last(), o.log.len() > 0,
        all_committed::<E, C, Tag>(n, o.key, o.label, mod_lens(o.mods), nt, chains),
        chains.contains_key(u), 0 <= i < chains[u].1@.len(), 0 <= j < w.lim, chains[u].1@[i] == w_ct::<E::Key, C, Tag>(w, j),
    ensures tag_tok::<E>(o.key, u.v_bytes(), o.label) == w_tok::<E, Tag>(w), u == w.g, o.key == w.key, o.mods.contains_key(u)
{
    reveal(committed);
    let lens = mod_lens(o.mods);
    assert(lens.contains_key(u));
    let t = tag_tok::<E>(o.key, u.v_bytes(), o.label);
    let k = choose|k: int| #![trigger n[k]] 0 <= k < n.len() && committed_at::<E, C>(n, k, o.key, t, sha3_spec(u.v_bytes()), lens[u], nt.contains(u), chains[u].0, chains[u].1@);
    assert(n[k] == o.log[k]);
    if t != w_tok::<E, Tag>(w) {
        assert(apart_ev::<E, C, Tag>(w, o, o.log[k]));
        assert(ext_at::<E, C>(o.log[k], o.key, t, sha3_spec(u.v_bytes()), lens[u], nt.contains(u), chains[u].0, chains[u].1@));
    }
}
pub open spec fn inserts<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, o: HOp<E::Key, Tag>, nt: Set<Tag>, lines: Map<Tag, Vec<Link>>, chains: Map<Tag, (C::Key, Vec<Token>)>) -> bool {
    o.log.len() > 0 && ins_at::<E, C, Tag>(o.log.drop_last(), o.log.last(), w.cdb, o.key, o.label, o.mods, nt, lines, chains)
}
/// The tokens of the chain among those the insertion writes.
pub proof fn lemma_ins_tokens<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, o: HOp<E::Key, Tag>, nt: Set<Tag>, lines: Map<Tag, Vec<Link>>, chains: Map<Tag, (C::Key, Vec<Token>)>, j: int) -> (i: int)
    requires no_clash::<E, C, Tag>(w, o), !o.reads, inserts::<E, C, Tag>(w, o, nt, lines, chains), 0 <= j < w.lim, o.log.last()->items.contains_key(w_ct::<E::Key, C, Tag>(w, j))
    ensures
        touches::<E, Tag>(w, o), chains.contains_key(w.g), 0 <= i < chains[w.g].1@.len(), chains[w.g].1@[i] == w_ct::<E::Key, C, Tag>(w, j),
        C::sp_open(chains[w.g].0, o.log.last()->items[w_ct::<E::Key, C, Tag>(w, j)]) == Some(lines[w.g]@[i].0@),
{
    let items = o.log.last()->items;
    let u = w_ct::<E::Key, C, Tag>(w, j);
    assert(a_line::<C, Tag>(chains, lines, u, items[u]));
    let (g, i) = choose|g: Tag, i: int| line_of::<C, Tag>(chains, lines, u, items[u], g, i);
    lemma_ins_other::<E, C, Tag>(w, o, o.log.drop_last(), chains, nt, g, i, j);
    i
}
/// The segment an insertion fills.
pub open spec fn filled<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s: Seq<Seg>, a: int, q: int, items: Store, l: Seq<Link>) -> bool {
    &&& 0 <= q < s.len() && s[q].op == a && s[q].n == l.len() && lines_for(s[q].mods, l)
    &&& forall|i: int| 0 <= i < s.len() && i != q ==> (#[trigger] s[i]).op != a
    &&& forall|j: int| 0 <= j < w.lim && !(off(s, q) <= j < off(s, q) + s[q].n) ==> !items.contains_key(#[trigger] w_ct::<E::Key, C, Tag>(w, j))
    &&& forall|j: int| 0 <= j < s[q].n ==> line_at::<C>(w_ck::<E::Key, C, Tag>(w), items, #[trigger] w_ct::<E::Key, C, Tag>(w, off(s, q) + j)) == Some(l[j])
}
pub proof fn lemma_find_seg<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, h: Seq<Step>, s: Seq<Seg>, st: Stores, a: int, nt: Set<Tag>, lines: Map<Tag, Vec<Link>>, chains: Map<Tag, (C::Key, Vec<Token>)>) -> (q: int)
    requires
        inv::<E, C, Tag>(w, ops, h, s, st), 0 <= a < ops.len(), touches::<E, Tag>(w, ops[a]),
        own(h, a) == ops[a].log.drop_last(), inserts::<E, C, Tag>(w, ops[a], nt, lines, chains),
    ensures
        0 <= q < s.len(), s[q].op == a, chains.contains_key(w.g), chains[w.g].0 == w_ck::<E::Key, C, Tag>(w), s[q].mods == ops[a].mods[w.g]@,
        chains[w.g].1@ == Seq::new(s[q].n, |j: int| w_ct::<E::Key, C, Tag>(w, off(s, q) + j)),
        forall|i: int| 0 <= i < s.len() && i != q ==> (#[trigger] s[i]).op != a,
{
    reveal(committed);
    let o = ops[a];
    let n = o.log.drop_last();
    let t = w_tok::<E, Tag>(w);
    let lens = mod_lens(o.mods);
    assert(lens.contains_key(w.g));
    let c = chains[w.g];
    let k = choose|k: int| #![trigger n[k]] 0 <= k < n.len() && committed_at::<E, C>(n, k, o.key, t, w_hash(w), lens[w.g], nt.contains(w.g), c.0, c.1@);
    assert(accepted(own(h, a)[k], t));
    assert(has_seg(s, a, k));
    let q = choose|q: int| 0 <= q < s.len() && from_op(#[trigger] s[q], a, k);
    assert(linked::<E, C, Tag>(w, ops, h, s[q], off(s, q), q == 0));
    assert(seg_ok::<E::Key, C, Tag>(w, st.c, s[q], off(s, q)));
    assert(ext_at::<E, C>(own(h, s[q].op)[s[q].at], w.key, t, w_hash(w), lens[w.g], nt.contains(w.g), c.0, c.1@));
    assert(s[q].n == lens[w.g]);
    assert forall|i: int| 0 <= i < s.len() && i != q implies (#[trigger] s[i]).op != a by {
        if s[i].op == a {
            assert(linked::<E, C, Tag>(w, ops, h, s[i], off(s, i), i == 0));
            assert(accepted(n[s[i].at], t));
            assert(s[i].at == k);
        }
    }
    q
}
pub proof fn lemma_fill<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, o: HOp<E::Key, Tag>, s: Seq<Seg>, a: int, q: int, nt: Set<Tag>, lines: Map<Tag, Vec<Link>>, chains: Map<Tag, (C::Key, Vec<Token>)>)
    requires
        chain_differs::<E::Key, C, Tag>(w), no_clash::<E, C, Tag>(w, o), touches::<E, Tag>(w, o), inserts::<E, C, Tag>(w, o, nt, lines, chains), tot(s) <= w.lim,
        0 <= q < s.len(), s[q].op == a, chains.contains_key(w.g), chains[w.g].0 == w_ck::<E::Key, C, Tag>(w), s[q].mods == o.mods[w.g]@,
        s[q].n == n_lines(enc_mods(s[q].mods).len()),
        chains[w.g].1@ == Seq::new(s[q].n, |j: int| w_ct::<E::Key, C, Tag>(w, off(s, q) + j)),
        forall|i: int| 0 <= i < s.len() && i != q ==> (#[trigger] s[i]).op != a,
    ensures filled::<E, C, Tag>(w, s, a, q, o.log.last()->items, lines[w.g]@)
{
    broadcast use all_axioms;
    let items = o.log.last()->items;
    let l = lines[w.g]@;
    lemma_off(s, q);
    assert(lines.contains_key(w.g));
    assert(lines_for(o.mods[w.g]@, l));
    assert forall|j: int| 0 <= j < w.lim && !(off(s, q) <= j < off(s, q) + s[q].n) implies !items.contains_key(#[trigger] w_ct::<E::Key, C, Tag>(w, j)) by {
        if items.contains_key(w_ct::<E::Key, C, Tag>(w, j)) {
            let i = lemma_ins_tokens::<E, C, Tag>(w, o, nt, lines, chains, j);
            lemma_ct_differ::<E::Key, C, Tag>(w, j, off(s, q) + i);
        }
    }
    assert forall|j: int| 0 <= j < s[q].n implies line_at::<C>(w_ck::<E::Key, C, Tag>(w), items, #[trigger] w_ct::<E::Key, C, Tag>(w, off(s, q) + j)) == Some(l[j]) by {
        let u = w_ct::<E::Key, C, Tag>(w, off(s, q) + j);
        assert(chains[w.g].1@[j] == u);
        assert(items.contains_key(u));
        let i = lemma_ins_tokens::<E, C, Tag>(w, o, nt, lines, chains, off(s, q) + j);
        lemma_ct_differ::<E::Key, C, Tag>(w, off(s, q) + j, off(s, q) + i);
        assert(mk_arr::<u8, LINK_LENGTH>(l[j].0@) == l[j].0);
    }
}
/// The stores after an insertion that fills the segment `q`.
pub proof fn lemma_fill_state<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s: Seq<Seg>, st: Stores, a: int, q: int, items: Store, l: Seq<Link>)
    requires inv_state::<E, C, Tag>(w, s, st), filled::<E, C, Tag>(w, s, a, q, items, l), tot(s) <= w.lim
    ensures inv_state::<E, C, Tag>(w, mark(s, a), Stores { e: st.e, c: st.c.union_prefer_right(items) })
{
    let post = st.c.union_prefer_right(items);
    let m = mark(s, a);
    let ck = w_ck::<E::Key, C, Tag>(w);
    lemma_mark(s, a);
    lemma_off(s, q);
    assert forall|j: int| 0 <= j < s[q].n implies line_at::<C>(ck, post, #[trigger] w_ct::<E::Key, C, Tag>(w, off(s, q) + j)) == Some(l[j]) by {
        let u = w_ct::<E::Key, C, Tag>(w, off(s, q) + j);
        assert(line_at::<C>(ck, items, u) == Some(l[j]));
        assert(items.contains_key(u));
    }
    assert(seg_lines::<E::Key, C, Tag>(w, post, off(s, q), s[q].n) =~= l);
    assert forall|i: int| 0 <= i < m.len() implies seg_ok::<E::Key, C, Tag>(w, post, #[trigger] m[i], off(m, i)) by {
        assert(seg_ok::<E::Key, C, Tag>(w, st.c, s[i], off(s, i)));
        assert(off(m, i) == off(s, i));
        lemma_off(s, i);
        if i != q {
            assert(m[i] == s[i]);
            if i < q { lemma_off_le(s, i, q); } else { lemma_off_le(s, q, i); }
            assert forall|j: int| 0 <= j < s[i].n implies opt_at(post, #[trigger] w_ct::<E::Key, C, Tag>(w, off(s, i) + j)) == opt_at(st.c, w_ct::<E::Key, C, Tag>(w, off(s, i) + j)) by {}
            lemma_seg_same::<E::Key, C, Tag>(w, st.c, post, s[i], off(s, i));
        } else {
            assert(m[q] == (Seg { done: true, ..s[q] }));
        }
    }
}
/// The stores after an insertion for other keywords.
pub proof fn lemma_other_state<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s: Seq<Seg>, st: Stores, a: int, items: Store)
    requires
        inv_state::<E, C, Tag>(w, s, st), tot(s) <= w.lim, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).op != a,
        forall|j: int| 0 <= j < w.lim ==> !items.contains_key(#[trigger] w_ct::<E::Key, C, Tag>(w, j)),
    ensures inv_state::<E, C, Tag>(w, mark(s, a), Stores { e: st.e, c: st.c.union_prefer_right(items) })
{
    let post = st.c.union_prefer_right(items);
    let m = mark(s, a);
    lemma_mark(s, a);
    assert forall|i: int| 0 <= i < m.len() implies seg_ok::<E::Key, C, Tag>(w, post, #[trigger] m[i], off(m, i)) by {
        assert(seg_ok::<E::Key, C, Tag>(w, st.c, s[i], off(s, i)));
        assert(off(m, i) == off(s, i));
        lemma_off(s, i);
        assert(m[i] == s[i]);
        assert forall|j: int| 0 <= j < s[i].n implies opt_at(post, #[trigger] w_ct::<E::Key, C, Tag>(w, off(s, i) + j)) == opt_at(st.c, w_ct::<E::Key, C, Tag>(w, off(s, i) + j)) by {}
        lemma_seg_same::<E::Key, C, Tag>(w, st.c, post, s[i], off(s, i));
    }
}
pub proof fn lemma_inserts<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, o: HOp<E::Key, Tag>) -> (x: (Set<Tag>, Map<Tag, Vec<Link>>, Map<Tag, (C::Key, Vec<Token>)>))
    requires req_ins::<E, C, Tag>(o.log.len() - 1, w.edb, w.cdb, o)
    ensures inserts::<E, C, Tag>(w, o, x.0, x.1, x.2), o.log.last() is Insert
{
    let nt = choose|nt: Set<Tag>| #[trigger] ins_full::<E, C, Tag>(o.log, w.edb, w.cdb, o.key, o.label, o.mods, nt);
    assert(ins_ev::<E, C, Tag>(o.log.drop_last(), o.log.last(), w.cdb, o.key, o.label, o.mods, nt));
    let (lines, chains) = choose|lines: Map<Tag, Vec<Link>>, chains: Map<Tag, (C::Key, Vec<Token>)>| ins_at::<E, C, Tag>(o.log.drop_last(), o.log.last(), w.cdb, o.key, o.label, o.mods, nt, lines, chains);
    (nt, lines, chains)
}
pub proof fn lemma_mark_touch<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, h: Seq<Step>, s: Seq<Seg>, st: Stores, a: int, nt: Set<Tag>, lines: Map<Tag, Vec<Link>>, chains: Map<Tag, (C::Key, Vec<Token>)>)
    requires
        inv::<E, C, Tag>(w, ops, h, s, st), chain_differs::<E::Key, C, Tag>(w), 0 <= a < ops.len(), no_clash::<E, C, Tag>(w, ops[a]), touches::<E, Tag>(w, ops[a]), tot(s) <= w.lim,
        own(h, a) == ops[a].log.drop_last(), inserts::<E, C, Tag>(w, ops[a], nt, lines, chains),
    ensures inv_state::<E, C, Tag>(w, mark(s, a), Stores { e: st.e, c: st.c.union_prefer_right(ops[a].log.last()->items) })
{
    let q = lemma_find_seg::<E, C, Tag>(w, ops, h, s, st, a, nt, lines, chains);
    assert(inv_state::<E, C, Tag>(w, s, st));
    assert(seg_ok::<E::Key, C, Tag>(w, st.c, s[q], off(s, q)));
    lemma_fill::<E, C, Tag>(w, ops[a], s, a, q, nt, lines, chains);
    lemma_fill_state::<E, C, Tag>(w, s, st, a, q, ops[a].log.last()->items, lines[w.g]@);
}
pub proof fn lemma_mark_other<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, h: Seq<Step>, s: Seq<Seg>, st: Stores, a: int, nt: Set<Tag>, lines: Map<Tag, Vec<Link>>, chains: Map<Tag, (C::Key, Vec<Token>)>)
    requires
        inv::<E, C, Tag>(w, ops, h, s, st), 0 <= a < ops.len(), no_clash::<E, C, Tag>(w, ops[a]), !ops[a].reads, !touches::<E, Tag>(w, ops[a]), tot(s) <= w.lim,
        inserts::<E, C, Tag>(w, ops[a], nt, lines, chains),
    ensures inv_state::<E, C, Tag>(w, mark(s, a), Stores { e: st.e, c: st.c.union_prefer_right(ops[a].log.last()->items) })
{
    let o = ops[a];
    let items = o.log.last()->items;
    assert forall|j: int| 0 <= j < w.lim implies !items.contains_key(#[trigger] w_ct::<E::Key, C, Tag>(w, j)) by {
        if items.contains_key(w_ct::<E::Key, C, Tag>(w, j)) { let i = lemma_ins_tokens::<E, C, Tag>(w, o, nt, lines, chains, j); }
    }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).op != a by {
        if s[i].op == a { assert(linked::<E, C, Tag>(w, ops, h, s[i], off(s, i), i == 0)); }
    }
    assert(inv_state::<E, C, Tag>(w, s, st));
    lemma_other_state::<E, C, Tag>(w, s, st, a, items);
}
/// The insertion of the lines of an operation.
pub proof fn lemma_state_mark<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, h: Seq<Step>, s: Seq<Seg>, st: Stores, a: int)
    requires
        inv::<E, C, Tag>(w, ops, h, s, st), chain_differs::<E::Key, C, Tag>(w), 0 <= a < ops.len(), no_clash::<E, C, Tag>(w, ops[a]), !ops[a].reads, tot(s) <= w.lim,
        ops[a].log.len() > 0, own(h, a) == ops[a].log.drop_last(), req_ins::<E, C, Tag>(ops[a].log.len() - 1, w.edb, w.cdb, ops[a]),
        ev_ok(ops[a].log.last()), ev_pre(ops[a].log.last()) == st.c,
    ensures inv_state::<E, C, Tag>(w, mark(s, a), Stores { e: st.e, c: ev_post(ops[a].log.last()) })
{
    hide(inv); hide(inv_state); hide(no_clash); hide(inserts);
    let x = lemma_inserts::<E, C, Tag>(w, ops[a]);
    if touches::<E, Tag>(w, ops[a]) { lemma_mark_touch::<E, C, Tag>(w, ops, h, s, st, a, x.0, x.1, x.2); }
    else { lemma_mark_other::<E, C, Tag>(w, ops, h, s, st, a, x.0, x.1, x.2); }
}
/// An operation that makes one more request had not written its lines.
pub proof fn lemma_not_wrote<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s0: Stores, ops: Seq<HOp<E::Key, Tag>>, h: Seq<Step>)
    requires h.len() > 0, runs(s0, h, ops, w.edb, w.cdb), op_ok::<E, C, Tag>(w.edb, w.cdb, ops[h.last().op])
    ensures !wrote(own(h.drop_last(), h.last().op))
{
    let a = h.last().op;
    let p = h.drop_last();
    lemma_own(s0, p, ops, w.edb, w.cdb, a);
    let k = own(p, a).len() as int;
    if wrote(own(p, a)) {
        assert(ops[a].log[k - 1] == own(p, a).last());
        if !ops[a].reads { lemma_shape::<E, C, Tag>(w.edb, w.cdb, ops[a], k - 1); }
    }
}
pub open spec fn links<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, h: Seq<Step>, s: Seq<Seg>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).op >= 0 ==> linked::<E, C, Tag>(w, ops, h, s[i], off(s, i), i == 0)
    &&& forall|o: int, k: int| #![trigger own(h, o)[k]] 0 <= o < ops.len() && 0 <= k < own(h, o).len() && accepted(own(h, o)[k], w_tok::<E, Tag>(w)) ==> has_seg(s, o, k)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).op >= 0 && s[i].op == (#[trigger] s[j]).op ==> s[i].at < s[j].at
}
pub proof fn lemma_links_push<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, h: Seq<Step>, s: Seq<Seg>, x: Seg)
    requires
        h.len() > 0, links::<E, C, Tag>(w, ops, h.drop_last(), s), !wrote(own(h.drop_last(), h.last().op)), h.last().ev is Upsert,
        x.op == h.last().op, 0 <= x.op < ops.len(), x.at == own(h.drop_last(), x.op).len(), !x.done, touches::<E, Tag>(w, ops[x.op]), x.mods == ops[x.op].mods[w.g]@,
        accepted(h.last().ev, w_tok::<E, Tag>(w)),
        forall|n: nat, is_new: bool, ck: C::Key, toks: Seq<Token>| #[trigger] ext_at::<E, C>(h.last().ev, w.key, w_tok::<E, Tag>(w), w_hash(w), n, is_new, ck, toks) ==>
            ck == w_ck::<E::Key, C, Tag>(w) && toks == Seq::new(n, |j: int| w_ct::<E::Key, C, Tag>(w, tot(s) + j)) && (is_new <==> s.len() == 0),
    ensures links::<E, C, Tag>(w, ops, h, s.push(x))
{
    let p = h.drop_last();
    let q = s.push(x);
    let t = w_tok::<E, Tag>(w);
    lemma_off_push(s, x);
    assert(own(h, x.op) == own(p, x.op).push(h.last().ev));
    assert(own(h, x.op)[x.at] == h.last().ev);
    assert(own(h, x.op).last() == h.last().ev);
    assert forall|i: int| 0 <= i < q.len() && (#[trigger] q[i]).op >= 0 implies linked::<E, C, Tag>(w, ops, h, q[i], off(q, i), i == 0) by {
        assert(off(q, i) == off(s, i));
        if i < s.len() {
            assert(q[i] == s[i]);
            assert(linked::<E, C, Tag>(w, ops, p, s[i], off(s, i), i == 0));
            assert(own(h, s[i].op)[s[i].at] == own(p, s[i].op)[s[i].at]);
        }
    }
    assert forall|o: int, k: int| #![trigger own(h, o)[k]] 0 <= o < ops.len() && 0 <= k < own(h, o).len() && accepted(own(h, o)[k], t) implies has_seg(q, o, k) by {
        if k < own(p, o).len() {
            assert(own(h, o)[k] == own(p, o)[k]);
            let i = choose|i: int| 0 <= i < s.len() && from_op(#[trigger] s[i], o, k);
            assert(from_op(q[i], o, k));
        } else { assert(o == x.op); assert(from_op(q[s.len() as int], o, k)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < q.len() && (#[trigger] q[i]).op >= 0 && q[i].op == (#[trigger] q[j]).op implies q[i].at < q[j].at by {
        assert(q[i] == s[i]);
        if j < s.len() { assert(q[j] == s[j]); } else { assert(linked::<E, C, Tag>(w, ops, p, s[i], off(s, i), i == 0)); }
    }
}
/// A request that does not take effect on the entry: `m` is `s`, with the segments of its operation
/// done when it writes the lines.
pub proof fn lemma_links_keep<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, h: Seq<Step>, s: Seq<Seg>, m: Seq<Seg>)
    requires
        h.len() > 0, links::<E, C, Tag>(w, ops, h.drop_last(), s), !wrote(own(h.drop_last(), h.last().op)), 0 <= h.last().op,
        !accepted(h.last().ev, w_tok::<E, Tag>(w)),
        m == (if h.last().ev is Insert && ev_ok(h.last().ev) { mark(s, h.last().op) } else { s }),
    ensures links::<E, C, Tag>(w, ops, h, m)
{
    let p = h.drop_last();
    let a = h.last().op;
    let t = w_tok::<E, Tag>(w);
    lemma_mark(s, a);
    assert(own(h, a) == own(p, a).push(h.last().ev));
    assert(own(h, a).last() == h.last().ev);
    assert forall|i: int| 0 <= i < m.len() && (#[trigger] m[i]).op >= 0 implies linked::<E, C, Tag>(w, ops, h, m[i], off(m, i), i == 0) by {
        assert(off(m, i) == off(s, i));
        assert(s[i].op == m[i].op && s[i].at == m[i].at && s[i].mods == m[i].mods);
        assert(linked::<E, C, Tag>(w, ops, p, s[i], off(s, i), i == 0));
        assert(own(h, s[i].op)[s[i].at] == own(p, s[i].op)[s[i].at]);
    }
    assert forall|o: int, k: int| #![trigger own(h, o)[k]] 0 <= o < ops.len() && 0 <= k < own(h, o).len() && accepted(own(h, o)[k], t) implies has_seg(m, o, k) by {
        if k < own(p, o).len() {
            assert(own(h, o)[k] == own(p, o)[k]);
            let i = choose|i: int| 0 <= i < s.len() && from_op(#[trigger] s[i], o, k);
            assert(from_op(m[i], o, k));
        } else { assert(own(h, o)[k] == h.last().ev); }
    }
    assert forall|i: int, j: int| 0 <= i < j < m.len() && (#[trigger] m[i]).op >= 0 && m[i].op == (#[trigger] m[j]).op implies m[i].at < m[j].at by {
        assert(s[i].op == m[i].op && s[i].at == m[i].at && s[j].op == m[j].op && s[j].at == m[j].at);
    }
}
pub open spec fn all_ops<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>) -> bool {
    forall|o: int| 0 <= o < ops.len() ==> op_ok::<E, C, Tag>(w.edb, w.cdb, #[trigger] ops[o]) && no_clash::<E, C, Tag>(w, ops[o])
}
/// A request that changes neither the entry nor the chain.
pub proof fn lemma_state_keep<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s: Seq<Seg>, st: Stores, e: Ev)
    requires
        inv_state::<E, C, Tag>(w, s, st), w.edb != w.cdb, !accepted(e, w_tok::<E, Tag>(w)), ev_pre(e) == sto(st, w.edb, ev_db(e)),
        e is Get || (e is Upsert && ev_db(e) == w.edb) || (e is Insert && !ev_ok(e)),
    ensures inv_state::<E, C, Tag>(w, s, if ev_db(e) == w.edb { Stores { e: ev_post(e), c: st.c } } else { Stores { e: st.e, c: ev_post(e) } })
{
    let t = w_tok::<E, Tag>(w);
    if e is Upsert && ev_ok(e) {
        let post = ev_post(e);
        assert(opt_at(post, t) == opt_at(st.e, t)) by {
            if e->new.contains_key(t) { assert(!upsert_accepts(t, e->old, ev_pre(e))); }
        }
        assert(entry_at::<E>(w.key, post, t) == entry_at::<E>(w.key, st.e, t));
        assert(post.contains_key(t) == st.e.contains_key(t));
        assert(inv_state::<E, C, Tag>(w, s, Stores { e: post, c: st.c }));
    } else {
        assert(ev_post(e) == ev_pre(e));
    }
}
pub proof fn lemma_step<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s0: Stores, ops: Seq<HOp<E::Key, Tag>>, sg0: Seq<Seg>, h: Seq<Step>)
    requires
        h.len() > 0, w.edb != w.cdb, runs(s0, h, ops, w.edb, w.cdb), all_ops::<E, C, Tag>(w, ops), chain_differs::<E::Key, C, Tag>(w),
        inv::<E, C, Tag>(w, ops, h.drop_last(), segs::<E, Tag>(w, ops, sg0, h.drop_last()), after(s0, h.drop_last(), w.edb)),
        tot(segs::<E, Tag>(w, ops, sg0, h)) <= w.lim,
    ensures inv::<E, C, Tag>(w, ops, h, segs::<E, Tag>(w, ops, sg0, h), after(s0, h, w.edb))
{
    hide(inv_state); hide(links); hide(no_clash); hide(ext_upsert); hide(ins_full); hide(wrote); hide(seg_ok); hide(ext_at); hide(ins_log);
    let p = h.drop_last();
    let x = h.last();
    let o = ops[x.op];
    let s = segs::<E, Tag>(w, ops, sg0, p);
    let st = after(s0, p, w.edb);
    let k = own(p, x.op).len() as int;
    let t = w_tok::<E, Tag>(w);
    lemma_own(s0, p, ops, w.edb, w.cdb, x.op);
    lemma_not_wrote::<E, C, Tag>(w, s0, ops, h);
    assert(op_ok::<E, C, Tag>(w.edb, w.cdb, o) && no_clash::<E, C, Tag>(w, o));
    if o.reads {
        assert(o.log[k] is Get);
        lemma_state_keep::<E, C, Tag>(w, s, st, x.ev);
        lemma_links_keep::<E, C, Tag>(w, ops, h, s, s);
    } else {
        lemma_shape::<E, C, Tag>(w.edb, w.cdb, o, k);
        lemma_mark(s, x.op);
        if k == 0 {
            lemma_state_keep::<E, C, Tag>(w, s, st, x.ev);
            lemma_links_keep::<E, C, Tag>(w, ops, h, s, s);
        } else if req_ins::<E, C, Tag>(k, w.edb, w.cdb, o) {
            assert(own(p, x.op) =~= o.log.drop_last());
            if ev_ok(x.ev) {
                lemma_state_mark::<E, C, Tag>(w, ops, p, s, st, x.op);
                lemma_links_keep::<E, C, Tag>(w, ops, h, s, mark(s, x.op));
            } else {
                lemma_state_keep::<E, C, Tag>(w, s, st, x.ev);
                lemma_links_keep::<E, C, Tag>(w, ops, h, s, s);
            }
        } else {
            assert(x.ev is Upsert && ev_db(x.ev) == w.edb) by { reveal(ext_upsert); }
            if accepted(x.ev, t) {
                let y = Seg { op: x.op, at: k, n: n_lines(enc_mods(o.mods[w.g]@).len()), mods: o.mods[w.g]@, done: false };
                lemma_off_push(s, y);
                assert(seeded::<E, Tag>(w, x.ev)) by { reveal(no_clash); assert(seeded::<E, Tag>(w, o.log[k])); }
                lemma_state_push::<E, C, Tag>(w, s, st, x.ev, o, y);
                lemma_links_push::<E, C, Tag>(w, ops, h, s, y);
            } else {
                lemma_state_keep::<E, C, Tag>(w, s, st, x.ev);
                lemma_links_keep::<E, C, Tag>(w, ops, h, s, s);
            }
        }
    }
}
pub proof fn lemma_tot_grows<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, sg0: Seq<Seg>, h: Seq<Step>)
    requires h.len() > 0
    ensures tot(segs::<E, Tag>(w, ops, sg0, h.drop_last())) <= tot(segs::<E, Tag>(w, ops, sg0, h))
{
    let s = segs::<E, Tag>(w, ops, sg0, h.drop_last());
    let x = h.last();
    lemma_mark(s, x.op);
    lemma_off_push(s, Seg { op: x.op, at: own(h.drop_last(), x.op).len() as int, n: n_lines(enc_mods(ops[x.op].mods[w.g]@).len()), mods: ops[x.op].mods[w.g]@, done: false });
}
/// THEOREM: after any history of additions, deletions and searches, under any interleaving of their
/// requests, and whichever of them have failed or stopped, the entry of the keyword and the lines of
/// its chain are those of the changes that took effect, in the order in which they did.
pub proof fn theorem_history<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s0: Stores, ops: Seq<HOp<E::Key, Tag>>, sg0: Seq<Seg>, h: Seq<Step>)
    requires
        w.edb != w.cdb, runs(s0, h, ops, w.edb, w.cdb), all_ops::<E, C, Tag>(w, ops), chain_differs::<E::Key, C, Tag>(w),
        inv_state::<E, C, Tag>(w, sg0, s0), forall|i: int| 0 <= i < sg0.len() ==> (#[trigger] sg0[i]).op < 0,
        tot(segs::<E, Tag>(w, ops, sg0, h)) <= w.lim,
    ensures inv::<E, C, Tag>(w, ops, h, segs::<E, Tag>(w, ops, sg0, h), after(s0, h, w.edb))
    decreases h.len()
{
    if h.len() > 0 {
        lemma_tot_grows::<E, Tag>(w, ops, sg0, h);
        theorem_history::<E, C, Tag>(w, s0, ops, sg0, h.drop_last());
        lemma_step::<E, C, Tag>(w, s0, ops, sg0, h);
    }
}
/// The empty index, for any keyword.
pub proof fn lemma_empty_index<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>)
    ensures inv_state::<E, C, Tag>(w, Seq::empty(), Stores { e: Map::empty(), c: Map::empty() })
{}
// ------------------------------------------------------------------ reading
pub open spec fn w_toks<K, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<K, Tag>, n: nat) -> Seq<Token> { chain_toks::<C>(w_ck::<K, C, Tag>(w), w_hash(w), n) }
pub proof fn lemma_somes_concat<T>(a: Seq<Option<T>>, b: Seq<Option<T>>)
    ensures somes(a + b) == somes(a) + somes(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(somes(a) + somes(b) =~= somes(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_somes_concat(a, b.drop_last());
        assert(somes(a + b) =~= somes(a) + somes(b));
    }
}
pub proof fn lemma_somes_all<T>(a: Seq<Option<T>>)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Some
    ensures somes(a) == Seq::new(a.len(), |i: int| a[i].unwrap())
    decreases a.len()
{
    if a.len() > 0 {
        assert(a.last() is Some);
        assert forall|i: int| 0 <= i < a.drop_last().len() implies (#[trigger] a.drop_last()[i]) is Some by { assert(a[i] is Some); }
        lemma_somes_all(a.drop_last());
    }
    assert(somes(a) =~= Seq::new(a.len(), |i: int| a[i].unwrap()));
}
pub proof fn lemma_somes_none<T>(a: Seq<Option<T>>)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is None
    ensures somes(a) == Seq::<T>::empty()
    decreases a.len()
{
    if a.len() > 0 {
        assert(a.last() is None);
        assert forall|i: int| 0 <= i < a.drop_last().len() implies (#[trigger] a.drop_last()[i]) is None by { assert(a[i] is None); }
        lemma_somes_none(a.drop_last());
    }
}
/// One more segment: its lines follow.
pub proof fn lemma_seg_lines<K, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<K, Tag>, c: Store, x: Seg, o: nat)
    requires seg_ok::<K, C, Tag>(w, c, x, o)
    ensures
        lines_of::<C>(w_ck::<K, C, Tag>(w), c, w_toks::<K, C, Tag>(w, o + x.n))
            == lines_of::<C>(w_ck::<K, C, Tag>(w), c, w_toks::<K, C, Tag>(w, o)) + (if x.done { seg_lines::<K, C, Tag>(w, c, o, x.n) } else { Seq::empty() })
{
    let ck = w_ck::<K, C, Tag>(w);
    let all = Seq::new(o + x.n, |i: int| line_at::<C>(ck, c, w_toks::<K, C, Tag>(w, o + x.n)[i]));
    let a = Seq::new(o, |i: int| line_at::<C>(ck, c, w_toks::<K, C, Tag>(w, o)[i]));
    let b = Seq::new(x.n, |j: int| line_at::<C>(ck, c, w_ct::<K, C, Tag>(w, o + j)));
    assert(all =~= a + b);
    lemma_somes_concat(a, b);
    if x.done {
        assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]) is Some by { assert(line_at::<C>(ck, c, w_ct::<K, C, Tag>(w, o + j)) is Some); }
        lemma_somes_all(b);
        assert(somes(b) =~= seg_lines::<K, C, Tag>(w, c, o, x.n));
    } else {
        assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]) is None by { assert(!c.contains_key(w_ct::<K, C, Tag>(w, o + j))); }
        lemma_somes_none(b);
    }
}
/// What the blocks of the first `k` segments say.
pub open spec fn reads_as(b: Seq<Blk>, m: Seq<(Operation, Vec<u8>)>) -> bool {
    idle(parse(b)) && replay(parse(b).done) == replay(m) && !replay(m).contains(mk_vec(Seq::empty()))
}
pub proof fn lemma_read_more(a: Seq<Blk>, ma: Seq<(Operation, Vec<u8>)>, mods: Seq<(Operation, Vec<u8>)>)
    requires reads_as(a, ma), no_empty(mods)
    ensures reads_as(a + padded(enc_mods(mods)), ma + mods)
{
    let s = parse(a);
    let pad = pad_mods(n_pad(enc_mods(mods)));
    lemma_rd_concat(rd0(), a, padded(enc_mods(mods)));
    lemma_rd_padded(s, mods);
    assert(parse(a + padded(enc_mods(mods))) == more(s, mods + pad));
    let e = Set::<Vec<u8>>::empty();
    lemma_replay_concat(e, s.done, mods + pad);
    lemma_replay_concat(replay(ma), mods, pad);
    lemma_replay_concat(e, ma, mods);
    lemma_replay_no_empty(replay(ma), mods);
    lemma_replay_pad(replay_from(replay(ma), mods), n_pad(enc_mods(mods)));
}
pub proof fn lemma_read_segs<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s: Seq<Seg>, st: Stores, k: int)
    requires inv_state::<E, C, Tag>(w, s, st), 0 <= k <= s.len()
    ensures reads_as(chain_blocks(lines_of::<C>(w_ck::<E::Key, C, Tag>(w), st.c, w_toks::<E::Key, C, Tag>(w, off(s, k)))), done_mods(s.take(k)))
    decreases k
{
    let ck = w_ck::<E::Key, C, Tag>(w);
    if k == 0 {
        assert(s.take(0).len() == 0);
        assert(off(s, 0) == 0);
        assert(lines_of::<C>(ck, st.c, w_toks::<E::Key, C, Tag>(w, 0)) =~= Seq::<Link>::empty());
        assert(chain_blocks(Seq::<Link>::empty()) =~= Seq::<Blk>::empty());
        assert(done_mods(s.take(0)) =~= Seq::<(Operation, Vec<u8>)>::empty());
    } else {
        let x = s[k - 1];
        lemma_read_segs::<E, C, Tag>(w, s, st, k - 1);
        lemma_off(s, k - 1);
        assert(seg_ok::<E::Key, C, Tag>(w, st.c, s[k - 1], off(s, k - 1)));
        lemma_seg_lines::<E::Key, C, Tag>(w, st.c, x, off(s, k - 1));
        let a = lines_of::<C>(ck, st.c, w_toks::<E::Key, C, Tag>(w, off(s, k - 1)));
        assert(s.take(k).drop_last() =~= s.take(k - 1));
        assert(s.take(k).last() == x);
        if x.done {
            let l = seg_lines::<E::Key, C, Tag>(w, st.c, off(s, k - 1), x.n);
            lemma_chain_split(a + l, a.len() as int);
            assert((a + l).take(a.len() as int) =~= a);
            assert((a + l).skip(a.len() as int) =~= l);
            assert(chain_blocks(l) == padded(enc_mods(x.mods)));
            lemma_read_more(chain_blocks(a), done_mods(s.take(k - 1)), x.mods);
        } else {
            assert(a + Seq::<Link>::empty() =~= a);
        }
    }
}
/// The tokens of the chain of the entry.
pub proof fn lemma_the_chain<K, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<K, Tag>, n: nat)
    requires chain_differs::<K, C, Tag>(w), 0 < n <= w.lim
    ensures
        the_chain::<C>(EntryV { tok: Some(w_ct::<K, C, Tag>(w, n - 1)), seed: w.sd, hash: w_hash(w) }) == w_toks::<K, C, Tag>(w, n),
        chain_of::<C>(EntryV { tok: Some(w_ct::<K, C, Tag>(w, n - 1)), seed: w.sd, hash: w_hash(w) }, w_toks::<K, C, Tag>(w, n)),
{
    let e = EntryV { tok: Some(w_ct::<K, C, Tag>(w, n - 1)), seed: w.sd, hash: w_hash(w) };
    let q = w_toks::<K, C, Tag>(w, n);
    assert(q == chain_toks::<C>(w_ck::<K, C, Tag>(w), w_hash(w), q.len()));
    assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] q[i] != w_ct::<K, C, Tag>(w, n - 1) by { assert(w_ct::<K, C, Tag>(w, i) != w_ct::<K, C, Tag>(w, n - 1)); }
    assert(chain_of::<C>(e, q));
    lemma_chain_unique::<C>(e, the_chain::<C>(e), q);
}
/// THEOREM (reading): what a search reads for the keyword is what its changes, replayed in the order
/// in which they took effect, leave; the chain is well formed.
pub proof fn theorem_read<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s: Seq<Seg>, st: Stores)
    requires inv_state::<E, C, Tag>(w, s, st), chain_differs::<E::Key, C, Tag>(w), tot(s) <= w.lim
    ensures
        s.len() == 0 ==> !st.e.contains_key(w_tok::<E, Tag>(w)),
        s.len() > 0 ==> st.e.contains_key(w_tok::<E, Tag>(w)) && parse(chain_blocks(content::<E, C>(w.key, st.e, st.c, w_tok::<E, Tag>(w)))).ok
            && chain_set(content::<E, C>(w.key, st.e, st.c, w_tok::<E, Tag>(w))) == replay(done_mods(s)),
        forall|v: Set<Vec<u8>>| s.len() > 0 && #[trigger] mm_got1::<E, C>(w.key, st.e, st.c, w_tok::<E, Tag>(w), v) ==> v == replay(done_mods(s)),
{
    if s.len() > 0 {
        lemma_the_chain::<E::Key, C, Tag>(w, tot(s));
        lemma_read_segs::<E, C, Tag>(w, s, st, s.len() as int);
        assert(s.take(s.len() as int) =~= s);
    }
}
// ------------------------------------------------------------------ what a replay leaves
pub open spec fn last_on(m: Seq<(Operation, Vec<u8>)>, x: Vec<u8>) -> Option<Operation>
    decreases m.len()
{
    if m.len() == 0 { None } else if m.last().1 == x { Some(m.last().0) } else { last_on(m.drop_last(), x) }
}
/// A value is there exactly when the latest change of it is an addition.
pub proof fn theorem_latest(m: Seq<(Operation, Vec<u8>)>, x: Vec<u8>)
    ensures replay(m).contains(x) <==> last_on(m, x) == Some(Operation::Addition)
    decreases m.len()
{
    if m.len() > 0 { theorem_latest(m.drop_last(), x); }
}
// ------------------------------------------------------------------ searches
pub type KwGraph = Map<Keyword, HashSet<Iv>>;
/// The stores hold, for the keywords of `u`, the changes `sf`, which leave the graph `t`; `u` is
/// closed under keyword associations and its keywords have different tokens (HYPOTHESIS: no collision).
pub open spec fn indexed<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, label: Seq<u8>, u: Set<Keyword>, t: KwGraph, st: Stores, wf: spec_fn(Keyword) -> Chain1<E::Key, Keyword>, sf: spec_fn(Keyword) -> Seq<Seg>) -> bool {
    &&& t.dom() == u && toks_differ::<E, Keyword>(key, label, u)
    &&& forall|k: Keyword| #[trigger] u.contains(k) ==> indexed1::<E, C>(key, label, k, t[k]@, st, wf(k), sf(k))
    &&& forall|a: Keyword, b: Keyword| #[trigger] edge(t, a, b) ==> u.contains(b)
}
pub open spec fn indexed1<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, label: Seq<u8>, k: Keyword, t: Set<Iv>, st: Stores, w: Chain1<E::Key, Keyword>, s: Seq<Seg>) -> bool {
    &&& w.key == key && w.label == label && w.g == k
    &&& inv_state::<E, C, Keyword>(w, s, st) && chain_differs::<E::Key, C, Keyword>(w) && tot(s) <= w.lim
    &&& forall|v: Iv| #[trigger] t.contains(v) <==> last_on(done_mods(s), mk_vec(iv_bytes(v))) == Some(Operation::Addition)
}
/// The requests of a search met these stores.
pub open spec fn met(n: Seq<Ev>, st: Stores, edb: int) -> bool { forall|i: int| 0 <= i < n.len() ==> ev_pre(#[trigger] n[i]) == sto(st, edb, ev_db(n[i])) }
pub proof fn lemma_dec_set(m: Set<Vec<u8>>, s: Set<Iv>, v: Iv)
    requires dec_set(m, s)
    ensures s.contains(v) <==> m.contains(mk_vec(iv_bytes(v)))
{
    broadcast use all_axioms;
    let b = mk_vec(iv_bytes(v));
    if s.contains(v) {
        let c = choose|c: Vec<u8>| #[trigger] m.contains(c) && iv_is(c@, v);
        let t = c@.subrange(1, c@.len() as int);
        assert(c@ =~= iv_bytes(v)) by {
            match v {
                IndexedValue::Pointer(k) => { assert(k.0@ == t); assert(seq![119u8] + t =~= c@); }
                IndexedValue::Data(d) => { assert(d.0@ == t); assert(seq![108u8] + t =~= c@); }
            }
        }
        assert(mk_vec(c@) == c);
    }
    if m.contains(b) {
        assert(iv_in(s, b@));
        let x = choose|x: Iv| #[trigger] s.contains(x) && iv_is(b@, x);
        lemma_iv_round_trip(v, b@, x);
    }
}
pub open spec fn round_true(t: KwGraph, tags: Set<Keyword>, g: KwGraph) -> bool {
    &&& forall|k: Keyword| #[trigger] g.contains_key(k) ==> tags.contains(k) && g[k]@ == t[k]@
    &&& forall|k: Keyword| #[trigger] tags.contains(k) && !g.contains_key(k) ==> t[k]@ == Set::<Iv>::empty()
}
pub proof fn lemma_round_true<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashMap<Keyword, HashSet<Iv>>) -> Result<bool, String>>(
    e1: Ev, e2: Ev, edb: int, cdb: int, key: E::Key, label: Seq<u8>, interrupt: F, rd: Round<Keyword, Data>,
    u: Set<Keyword>, t: KwGraph, st: Stores, wf: spec_fn(Keyword) -> Chain1<E::Key, Keyword>, sf: spec_fn(Keyword) -> Seq<Seg>)
    requires
        edb != cdb, round_ok::<E, C, Keyword, Data, F>(e1, e2, edb, cdb, key, label, interrupt, rd), rd.tags.subset_of(u),
        indexed::<E, C>(key, label, u, t, st, wf, sf), ev_pre(e1) == st.e, ev_pre(e2) == st.c,
    ensures round_true(t, rd.tags, rd.g@)
{
    let g = rd.g@;
    assert forall|k: Keyword| #[trigger] g.contains_key(k) implies rd.tags.contains(k) && g[k]@ == t[k]@ by {
        assert(rd.m.contains_key(k));
        assert(rd.tags.contains(k) && u.contains(k));
        let w = wf(k);
        let s = sf(k);
        assert(indexed1::<E, C>(key, label, k, t[k]@, st, w, s));
        theorem_read::<E, C, Keyword>(w, s, st);
        assert(mm_got1::<E, C>(key, st.e, st.c, w_tok::<E, Keyword>(w), rd.m[k]@));
        assert(rd.m[k]@ == replay(done_mods(s)));
        assert forall|v: Iv| g[k]@.contains(v) <==> #[trigger] t[k]@.contains(v) by {
            lemma_dec_set(rd.m[k]@, g[k]@, v);
            theorem_latest(done_mods(s), mk_vec(iv_bytes(v)));
        }
        assert(g[k]@ =~= t[k]@);
    }
    assert forall|k: Keyword| #[trigger] rd.tags.contains(k) && !g.contains_key(k) implies t[k]@ == Set::<Iv>::empty() by {
        assert(u.contains(k));
        let w = wf(k);
        let s = sf(k);
        assert(indexed1::<E, C>(key, label, k, t[k]@, st, w, s));
        theorem_read::<E, C, Keyword>(w, s, st);
        let tok = tag_tok::<E>(key, k.v_bytes(), label);
        if st.e.contains_key(tok) {
            assert(map_has::<E, Keyword, HashSet<Vec<u8>>>(key, label, rd.m, tok));
            let x = choose|x: Keyword| #[trigger] rd.m.contains_key(x) && tag_tok::<E>(key, x.v_bytes(), label) == tok;
            assert(rd.tags.contains(x) && u.contains(x));
            assert(g.contains_key(x));
        }
        assert(s.len() == 0);
        assert(last_on(done_mods(s), mk_vec(iv_bytes(k_any(k)))) is None);
        assert forall|v: Iv| !(#[trigger] t[k]@.contains(v)) by {}
        assert(t[k]@ =~= Set::<Iv>::empty());
    }
}
pub open spec fn k_any(k: Keyword) -> Iv { IndexedValue::Pointer(k) }
pub proof fn lemma_graph_of(rs: Seq<Round<Keyword, Data>>, k: Keyword)
    ensures graph_of(rs).contains_key(k) <==> bound_in(rs, k)
    decreases rs.len()
{
    if rs.len() > 0 {
        let p = rs.drop_last();
        lemma_graph_of(p, k);
        if bound_in(p, k) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).g@.contains_key(k); assert(rs[i].g@.contains_key(k)); }
        if rs.last().g@.contains_key(k) { assert(rs[rs.len() - 1].g@.contains_key(k)); }
        if bound_in(rs, k) {
            let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).g@.contains_key(k);
            if i < p.len() { assert(p[i].g@.contains_key(k)); }
        }
    }
}
pub open spec fn bound_in(rs: Seq<Round<Keyword, Data>>, k: Keyword) -> bool { exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).g@.contains_key(k) }
pub open spec fn rounds_true(t: KwGraph, u: Set<Keyword>, rs: Seq<Round<Keyword, Data>>) -> bool {
    forall|i: int| 0 <= i < rs.len() ==> round_true(t, (#[trigger] rs[i]).tags, rs[i].g@) && rs[i].tags.subset_of(u)
}
pub proof fn lemma_rounds_true<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashMap<Keyword, HashSet<Iv>>) -> Result<bool, String>>(
    n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, interrupt: F, kws: Set<Keyword>, rs: Seq<Round<Keyword, Data>>, p: int,
    u: Set<Keyword>, t: KwGraph, st: Stores, wf: spec_fn(Keyword) -> Chain1<E::Key, Keyword>, sf: spec_fn(Keyword) -> Seq<Seg>)
    requires
        edb != cdb, rounds_ok::<E, C, Keyword, Data, F>(n, edb, cdb, key, label, interrupt, kws, rs), kws.subset_of(u), 0 <= p <= rs.len(),
        indexed::<E, C>(key, label, u, t, st, wf, sf), met(n, st, edb),
        forall|i: int| 0 <= i < rs.len() ==> !(#[trigger] rs[i]).stop,
    ensures rounds_true(t, u, rs.take(p))
    decreases p
{
    reveal(rounds_ok);
    if p > 0 {
        lemma_rounds_true::<E, C, F>(n, edb, cdb, key, label, interrupt, kws, rs, p - 1, u, t, st, wf, sf);
        let rd = rs[p - 1];
        let q = rs.take(p - 1);
        let e1 = n[2 * (p - 1)];
        let e2 = n[2 * (p - 1) + 1];
        assert(round_ok::<E, C, Keyword, Data, F>(e1, e2, edb, cdb, key, label, interrupt, rd));
        assert(is_next(kws, q, rd.tags));
        assert(rd.tags.subset_of(u)) by {
            if p > 1 {
                assert(q.last() == rs[p - 2]);
                assert(!rs[p - 2].stop);
                assert(round_true(t, q[p - 2].tags, q[p - 2].g@));
                assert forall|c: Keyword| #[trigger] rd.tags.contains(c) implies u.contains(c) by {
                    assert(child_in(q.last().g@, c));
                    let a = choose|a: Keyword| edge(q.last().g@, a, c);
                    assert(q.last().g@.contains_key(a));
                    assert(q[p - 2].tags.contains(a) && u.contains(a));
                    assert(edge(t, a, c));
                }
            }
        }
        lemma_round_true::<E, C, F>(e1, e2, edb, cdb, key, label, interrupt, rd, u, t, st, wf, sf);
        assert forall|i: int| 0 <= i < rs.take(p).len() implies round_true(t, (#[trigger] rs.take(p)[i]).tags, rs.take(p)[i].g@) && rs.take(p)[i].tags.subset_of(u) by {
            if i < p - 1 { assert(rs.take(p)[i] == q[i]); } else { assert(rs.take(p)[i] == rd); }
        }
    } else { assert(rs.take(0).len() == 0); }
}
pub proof fn lemma_graph_val(t: KwGraph, u: Set<Keyword>, rs: Seq<Round<Keyword, Data>>, k: Keyword)
    requires rounds_true(t, u, rs), graph_of(rs).contains_key(k)
    ensures graph_of(rs)[k]@ == t[k]@, u.contains(k)
    decreases rs.len()
{
    let p = rs.drop_last();
    assert forall|i: int| 0 <= i < p.len() implies round_true(t, (#[trigger] p[i]).tags, p[i].g@) && p[i].tags.subset_of(u) by { assert(p[i] == rs[i]); }
    if rs.last().g@.contains_key(k) { assert(round_true(t, rs[rs.len() - 1].tags, rs[rs.len() - 1].g@)); }
    else { lemma_graph_val(t, u, p, k); }
}
pub proof fn lemma_rounds_next<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashMap<Keyword, HashSet<Iv>>) -> Result<bool, String>>(
    n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, interrupt: F, kws: Set<Keyword>, rs: Seq<Round<Keyword, Data>>, j: int)
    requires rounds_ok::<E, C, Keyword, Data, F>(n, edb, cdb, key, label, interrupt, kws, rs), 0 <= j < rs.len()
    ensures is_next(kws, rs.take(j), rs[j].tags)
{
    reveal(rounds_ok);
}
/// The keyword `b`, associated to one read in the last round of `q`, was read in it or before, or is read next.
pub proof fn lemma_next_reads(kws: Set<Keyword>, q: Seq<Round<Keyword, Data>>, tags: Set<Keyword>, a: Keyword, b: Keyword)
    requires is_next(kws, q, tags), q.len() > 0, !q.last().stop, edge(q.last().g@, a, b)
    ensures tags.contains(b) || graph_of(q.drop_last()).contains_key(b)
{
    assert(child_in(q.last().g@, b));
}
/// What is associated to a keyword that was read is read as well, or is associated to nothing.
pub proof fn lemma_read_all<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashMap<Keyword, HashSet<Iv>>) -> Result<bool, String>>(
    n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, interrupt: F, kws: Set<Keyword>, rs: Seq<Round<Keyword, Data>>, u: Set<Keyword>, t: KwGraph, a: Keyword, b: Keyword)
    requires
        rounds_ok::<E, C, Keyword, Data, F>(n, edb, cdb, key, label, interrupt, kws, rs), is_next(kws, rs, Set::<Keyword>::empty()), rounds_true(t, u, rs),
        forall|i: int| 0 <= i < rs.len() ==> !(#[trigger] rs[i]).stop, graph_of(rs).contains_key(a), edge(t, a, b),
    ensures graph_of(rs).contains_key(b) || t[b]@ == Set::<Iv>::empty()
{
    hide(round_ok); hide(round_true);
    lemma_graph_of(rs, a);
    lemma_graph_of(rs, b);
    let j = choose|j: int| 0 <= j < rs.len() && (#[trigger] rs[j]).g@.contains_key(a);
    assert(edge(rs[j].g@, a, b)) by { lemma_edge_back(t, rs[j].tags, rs[j].g@, a, b); }
    let q = rs.take(j + 1);
    assert(q.last() == rs[j] && q.drop_last() =~= rs.take(j));
    assert(!rs[j].stop);
    if j + 1 < rs.len() {
        lemma_rounds_next::<E, C, F>(n, edb, cdb, key, label, interrupt, kws, rs, j + 1);
        lemma_next_reads(kws, q, rs[j + 1].tags, a, b);
    } else {
        assert(q =~= rs);
        lemma_next_reads(kws, q, Set::<Keyword>::empty(), a, b);
    }
    if graph_of(rs.take(j)).contains_key(b) {
        lemma_graph_of(rs.take(j), b);
        let i = choose|i: int| 0 <= i < rs.take(j).len() && (#[trigger] rs.take(j)[i]).g@.contains_key(b);
        assert(rs[i].g@.contains_key(b));
    } else {
        assert(j + 1 < rs.len() && rs[j + 1].tags.contains(b));
        if rs[j + 1].g@.contains_key(b) { assert(bound_in(rs, b)); }
        else { lemma_void(t, rs[j + 1].tags, rs[j + 1].g@, b); }
    }
}
pub proof fn lemma_edge_back(t: KwGraph, tags: Set<Keyword>, g: KwGraph, a: Keyword, b: Keyword)
    requires round_true(t, tags, g), g.contains_key(a), edge(t, a, b)
    ensures edge(g, a, b)
{ }
pub proof fn lemma_void(t: KwGraph, tags: Set<Keyword>, g: KwGraph, b: Keyword)
    requires round_true(t, tags, g), tags.contains(b), !g.contains_key(b)
    ensures t[b]@ == Set::<Iv>::empty()
{ }
/// THEOREM (search): a search that nothing interrupts, on stores that hold the changes `sf`, returns
/// for every keyword exactly the data that can be reached from it in the graph `t` that the latest
/// changes leave.
pub proof fn theorem_search<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashMap<Keyword, HashSet<Iv>>) -> Result<bool, String>>(
    n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, interrupt: F, kws: Set<Keyword>, m: Map<Keyword, HashSet<Data>>,
    u: Set<Keyword>, t: KwGraph, st: Stores, wf: spec_fn(Keyword) -> Chain1<E::Key, Keyword>, sf: spec_fn(Keyword) -> Seq<Seg>)
    requires
        edb != cdb, searched::<E, C, F>(n, edb, cdb, key, label, interrupt, kws, m), kws.subset_of(u), met(n, st, edb),
        indexed::<E, C>(key, label, u, t, st, wf, sf),
        forall|g: HashMap<Keyword, HashSet<Iv>>| !(#[trigger] interrupt.ensures((g,), Ok(true))),
    ensures data_from(t, kws, m)
{
    let g = choose|g: KwGraph| #[trigger] gx_got::<E, C, Keyword, Data, F>(n, edb, cdb, key, label, interrupt, kws, g) && data_from(g, kws, m);
    let rs = choose|rs: Seq<Round<Keyword, Data>>| #[trigger] rounds_ok::<E, C, Keyword, Data, F>(n, edb, cdb, key, label, interrupt, kws, rs)
        && is_next(kws, rs, Set::<Keyword>::empty()) && g == graph_of(rs);
    assert forall|i: int| 0 <= i < rs.len() implies !(#[trigger] rs[i]).stop by {
        reveal(rounds_ok);
        assert(round_ok::<E, C, Keyword, Data, F>(n[2 * i], n[2 * i + 1], edb, cdb, key, label, interrupt, rs[i]));
        if rs[i].stop { assert(interrupt.ensures((rs[i].g,), Ok(true))); }
    }
    lemma_rounds_true::<E, C, F>(n, edb, cdb, key, label, interrupt, kws, rs, rs.len() as int, u, t, st, wf, sf);
    assert(rs.take(rs.len() as int) =~= rs);
    assert forall|k: Keyword| #[trigger] m.contains_key(k) implies all_data(t, k, m[k]@) by {
        assert(kws.contains(k));
        assert(all_data(g, k, m[k]@));
        assert forall|d: Data| reach_data(g, k, d) <==> #[trigger] reach_data(t, k, d) by {
            lemma_same_data::<E, C, F>(n, edb, cdb, key, label, interrupt, kws, rs, u, t, k, d);
        }
        assert forall|d: Data| #[trigger] m[k]@.contains(d) <==> reach_data(t, k, d) by { assert(m[k]@.contains(d) <==> reach_data(g, k, d)); }
    }
}
pub open spec fn read_or_void(g: KwGraph, t: KwGraph, k: Keyword, y: Keyword) -> bool { if g.contains_key(y) { reach(g, k, y) } else { t[y]@ == Set::<Iv>::empty() } }
pub proof fn lemma_same_data<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashMap<Keyword, HashSet<Iv>>) -> Result<bool, String>>(
    n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, interrupt: F, kws: Set<Keyword>, rs: Seq<Round<Keyword, Data>>, u: Set<Keyword>, t: KwGraph, k: Keyword, d: Data)
    requires
        rounds_ok::<E, C, Keyword, Data, F>(n, edb, cdb, key, label, interrupt, kws, rs), is_next(kws, rs, Set::<Keyword>::empty()), rounds_true(t, u, rs),
        forall|i: int| 0 <= i < rs.len() ==> !(#[trigger] rs[i]).stop, kws.contains(k), t.dom() == u, 
    ensures reach_data(graph_of(rs), k, d) <==> reach_data(t, k, d)
{
    let g = graph_of(rs);
    if reach_data(g, k, d) {
        let x = choose|x: Keyword| #[trigger] reach(g, k, x) && data_at(g, x, d);
        assert(reach(t, k, x)) by {
            assert forall|s: spec_fn(Keyword) -> bool| #[trigger] closed(t, s) && s(k) implies s(x) by {
                assert(closed(g, s)) by {
                    assert forall|a: Keyword, b: Keyword| #[trigger] edge(g, a, b) && s(a) implies s(b) by { lemma_graph_val(t, u, rs, a); assert(edge(t, a, b)); }
                }
            }
        }
        lemma_graph_val(t, u, rs, x);
        assert(data_at(t, x, d));
    }
    if reach_data(t, k, d) {
        let x = choose|x: Keyword| #[trigger] reach(t, k, x) && data_at(t, x, d);
        let s = |y: Keyword| read_or_void(g, t, k, y);
        assert(closed(t, s)) by {
            assert forall|a: Keyword, b: Keyword| #[trigger] edge(t, a, b) && s(a) implies s(b) by {
                assert(t[a]@.contains(IndexedValue::<Keyword, Data>::Pointer(b)));
                assert(g.contains_key(a));
                lemma_graph_val(t, u, rs, a);
                assert(edge(g, a, b));
                lemma_read_all::<E, C, F>(n, edb, cdb, key, label, interrupt, kws, rs, u, t, a, b);
                if g.contains_key(b) { lemma_reach_last(g, k, a, b); }
            }
        }
        assert(s(k)) by {
            reveal(rounds_ok);
            lemma_graph_of(rs, k);
            if rs.len() > 0 {
                assert(is_next(kws, rs.take(0), rs[0].tags));
                assert(rs[0].tags.contains(k));
                assert(round_true(t, rs[0].tags, rs[0].g@));
                if rs[0].g@.contains_key(k) { assert(bound_in(rs, k)); }
            } else { assert(Set::<Keyword>::empty().contains(k)); }
            if g.contains_key(k) { assert(reach(g, k, k)); }
        }
        assert(s(x));
        assert(t[x]@.contains(IndexedValue::<Keyword, Data>::Data(d)));
        lemma_graph_val(t, u, rs, x);
        assert(data_at(g, x, d));
    }
}
pub proof fn lemma_reach_last<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, a: Tag, b: Tag, c: Tag)
    requires reach(graph, a, b), edge(graph, b, c)
    ensures reach(graph, a, c)
{
    assert forall|s: spec_fn(Tag) -> bool| #[trigger] closed(graph, s) && s(a) implies s(c) by { assert(s(b)); }
}
// ------------------------------------------------------------------ what the operations come to
/// The operation has made all its requests with success, and reported `nt` as new.
pub open spec fn succeeded<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, o: HOp<E::Key, Tag>, nt: Set<Tag>) -> bool {
    !o.reads && ins_full::<E, C, Tag>(o.log, w.edb, w.cdb, o.key, o.label, o.mods, nt) && ev_ok(o.log.last())
}
pub open spec fn one_seg(s: Seq<Seg>, o: int, i: int) -> bool { 0 <= i < s.len() && s[i].op == o && s[i].done && (forall|j: int| 0 <= j < s.len() && (#[trigger] s[j]).op == o ==> j == i) }
/// THEOREM (all done): an operation that succeeded has changed the keyword exactly once, by the one
/// list of changes it was asked for, whatever else ran at the same time; and it has reported the
/// keyword as new if and only if its change is the first of the chain.
pub proof fn theorem_all_done<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, h: Seq<Step>, s: Seq<Seg>, st: Stores, a: int, nt: Set<Tag>) -> (i: int)
    requires
        inv::<E, C, Tag>(w, ops, h, s, st), 0 <= a < ops.len(), touches::<E, Tag>(w, ops[a]), own(h, a) == ops[a].log, succeeded::<E, C, Tag>(w, ops[a], nt),
    ensures one_seg(s, a, i), s[i].mods == ops[a].mods[w.g]@, nt.contains(w.g) <==> i == 0
{
    hide(ext_at); hide(seg_ok); hide(inv_state); hide(lines_written); hide(all_lines);
    reveal(committed);
    let o = ops[a];
    let p = o.log.drop_last();
    let t = w_tok::<E, Tag>(w);
    assert(ins_ev::<E, C, Tag>(p, o.log.last(), w.cdb, o.key, o.label, o.mods, nt));
    let (lines, chains) = choose|lines: Map<Tag, Vec<Link>>, chains: Map<Tag, (C::Key, Vec<Token>)>| ins_at::<E, C, Tag>(p, o.log.last(), w.cdb, o.key, o.label, o.mods, nt, lines, chains);
    let lens = mod_lens(o.mods);
    assert(lens.contains_key(w.g));
    assert(committed::<E, C>(p, o.key, t, w_hash(w), lens[w.g], nt.contains(w.g), chains[w.g].0, chains[w.g].1@));
    let j = choose|j: int| #![trigger p[j]] 0 <= j < p.len() && committed_at::<E, C>(p, j, o.key, t, w_hash(w), lens[w.g], nt.contains(w.g), chains[w.g].0, chains[w.g].1@);
    assert(own(h, a)[j] == p[j]);
    assert(accepted(own(h, a)[j], t));
    assert(has_seg(s, a, j));
    let i = choose|i: int| 0 <= i < s.len() && from_op(#[trigger] s[i], a, j);
    assert(linked::<E, C, Tag>(w, ops, h, s[i], off(s, i), i == 0));
    assert(wrote(own(h, a)));
    assert(ext_at::<E, C>(own(h, a)[j], w.key, t, w_hash(w), lens[w.g], nt.contains(w.g), chains[w.g].0, chains[w.g].1@));
    assert forall|q: int| 0 <= q < s.len() && (#[trigger] s[q]).op == a implies q == i by {
        assert(linked::<E, C, Tag>(w, ops, h, s[q], off(s, q), q == 0));
        let k = s[q].at;
        assert(accepted(own(h, a)[k], t));
        if k < p.len() { assert(p[k] == own(h, a)[k]); assert(k == j); } else { assert(own(h, a)[k] == o.log.last()); }
        if q < i { assert(s[q].at < s[i].at); }
        if i < q { assert(s[i].at < s[q].at); }
    }
    i
}
/// THEOREM (new once): two operations that succeeded do not both report the keyword as new; none
/// does when the keyword was there before them.
pub proof fn theorem_new_once<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, h: Seq<Step>, s: Seq<Seg>, st: Stores, a: int, na: Set<Tag>, b: int, nb: Set<Tag>)
    requires
        inv::<E, C, Tag>(w, ops, h, s, st), 0 <= a < ops.len(), 0 <= b < ops.len(),
        touches::<E, Tag>(w, ops[a]), own(h, a) == ops[a].log, succeeded::<E, C, Tag>(w, ops[a], na),
        touches::<E, Tag>(w, ops[b]), own(h, b) == ops[b].log, succeeded::<E, C, Tag>(w, ops[b], nb),
        na.contains(w.g),
    ensures s[0].op == a, a != b ==> !nb.contains(w.g)
{
    hide(inv);
    let i = theorem_all_done::<E, C, Tag>(w, ops, h, s, st, a, na);
    let j = theorem_all_done::<E, C, Tag>(w, ops, h, s, st, b, nb);
}
/// The changes that were there before the history stay, in front.
pub proof fn lemma_prefix<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s0: Stores, ops: Seq<HOp<E::Key, Tag>>, sg0: Seq<Seg>, h: Seq<Step>)
    requires runs(s0, h, ops, w.edb, w.cdb), forall|i: int| 0 <= i < sg0.len() ==> (#[trigger] sg0[i]).op < 0
    ensures
        segs::<E, Tag>(w, ops, sg0, h).len() >= sg0.len(), segs::<E, Tag>(w, ops, sg0, h).take(sg0.len() as int) == sg0,
        forall|i: int| sg0.len() <= i < segs::<E, Tag>(w, ops, sg0, h).len() ==> 0 <= (#[trigger] segs::<E, Tag>(w, ops, sg0, h)[i]).op < ops.len(),
    decreases h.len()
{
    hide(accepted);
    let s = segs::<E, Tag>(w, ops, sg0, h);
    let n = sg0.len() as int;
    if h.len() == 0 { assert(s.take(n) =~= sg0); }
    else {
        let x = h.last();
        let p = segs::<E, Tag>(w, ops, sg0, h.drop_last());
        lemma_prefix::<E, Tag>(w, s0, ops, sg0, h.drop_last());
        lemma_mark(p, x.op);
        assert forall|i: int| 0 <= i < n implies s[i] == sg0[i] by { assert(p.take(n)[i] == sg0[i]); assert(p[i] == sg0[i]); }
        assert(s.take(n) =~= sg0);
        assert forall|i: int| n <= i < s.len() implies 0 <= (#[trigger] s[i]).op < ops.len() by {
            if i < p.len() { assert(0 <= p[i].op < ops.len()); }
        }
    }
}
/// THEOREM (order): when every operation that has made a request has succeeded, the keyword holds
/// what it held before the history followed by the changes of the operations, each one once, in the
/// order in which they took effect.
pub open spec fn mods_of<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, s: Seq<Seg>, n: int) -> Seq<(Operation, Vec<u8>)>
    decreases s.len()
{
    if s.len() == 0 || s.len() <= n { Seq::empty() } else { mods_of::<E, Tag>(w, ops, s.drop_last(), n) + ops[s.last().op].mods[w.g]@ }
}
pub proof fn lemma_done_mods<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, ops: Seq<HOp<E::Key, Tag>>, s: Seq<Seg>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| n <= i < s.len() ==> (#[trigger] s[i]).done && s[i].mods == ops[s[i].op].mods[w.g]@
    ensures done_mods(s) == done_mods(s.take(n)) + mods_of::<E, Tag>(w, ops, s, n)
    decreases s.len()
{
    if s.len() == n { assert(s.take(n) =~= s); assert(done_mods(s) + Seq::<(Operation, Vec<u8>)>::empty() =~= done_mods(s)); }
    else {
        let p = s.drop_last();
        assert forall|i: int| n <= i < p.len() implies (#[trigger] p[i]).done && p[i].mods == ops[p[i].op].mods[w.g]@ by { assert(p[i] == s[i]); }
        lemma_done_mods::<E, Tag>(w, ops, p, n);
        assert(p.take(n) =~= s.take(n));
        assert(s.last() == s[s.len() - 1]);
        assert(done_mods(s) =~= done_mods(s.take(n)) + mods_of::<E, Tag>(w, ops, s, n));
    }
}
pub open spec fn ended<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, h: Seq<Step>, o: HOp<E::Key, Tag>, a: int) -> bool {
    touches::<E, Tag>(w, o) ==> own(h, a) == o.log && exists|nt: Set<Tag>| #[trigger] succeeded::<E, C, Tag>(w, o, nt)
}
pub proof fn theorem_order<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s0: Stores, ops: Seq<HOp<E::Key, Tag>>, sg0: Seq<Seg>, h: Seq<Step>)
    requires
        w.edb != w.cdb, runs(s0, h, ops, w.edb, w.cdb), all_ops::<E, C, Tag>(w, ops), chain_differs::<E::Key, C, Tag>(w),
        inv_state::<E, C, Tag>(w, sg0, s0), forall|i: int| 0 <= i < sg0.len() ==> (#[trigger] sg0[i]).op < 0,
        tot(segs::<E, Tag>(w, ops, sg0, h)) <= w.lim,
        forall|a: int| 0 <= a < ops.len() ==> ended::<E, C, Tag>(w, h, #[trigger] ops[a], a),
    ensures
        done_mods(segs::<E, Tag>(w, ops, sg0, h)) == done_mods(sg0) + mods_of::<E, Tag>(w, ops, segs::<E, Tag>(w, ops, sg0, h), sg0.len() as int),
        forall|a: int| 0 <= a < ops.len() && touches::<E, Tag>(w, #[trigger] ops[a]) ==> exists|i: int| sg0.len() <= i && #[trigger] one_seg(segs::<E, Tag>(w, ops, sg0, h), a, i),
        forall|i: int| sg0.len() <= i < segs::<E, Tag>(w, ops, sg0, h).len() ==> 0 <= (#[trigger] segs::<E, Tag>(w, ops, sg0, h)[i]).op < ops.len() && touches::<E, Tag>(w, ops[segs::<E, Tag>(w, ops, sg0, h)[i].op]),
{
    hide(inv_state); hide(succeeded); hide(touches); hide(ext_at); hide(all_ops);
    let s = segs::<E, Tag>(w, ops, sg0, h);
    let st = after(s0, h, w.edb);
    theorem_history::<E, C, Tag>(w, s0, ops, sg0, h);
    lemma_prefix::<E, Tag>(w, s0, ops, sg0, h);
    let n = sg0.len() as int;
    assert forall|i: int| n <= i < s.len() implies (#[trigger] s[i]).done && s[i].mods == ops[s[i].op].mods[w.g]@ && touches::<E, Tag>(w, ops[s[i].op]) by {
        let a = s[i].op;
        assert(linked::<E, C, Tag>(w, ops, h, s[i], off(s, i), i == 0));
        assert(ended::<E, C, Tag>(w, h, ops[a], a));
        let nt = choose|nt: Set<Tag>| #[trigger] succeeded::<E, C, Tag>(w, ops[a], nt);
        let j = theorem_all_done::<E, C, Tag>(w, ops, h, s, st, a, nt);
    }
    lemma_done_mods::<E, Tag>(w, ops, s, n);
    assert forall|a: int| 0 <= a < ops.len() && touches::<E, Tag>(w, #[trigger] ops[a]) implies exists|i: int| n <= i && #[trigger] one_seg(s, a, i) by {
        assert(ended::<E, C, Tag>(w, h, ops[a], a));
        let nt = choose|nt: Set<Tag>| #[trigger] succeeded::<E, C, Tag>(w, ops[a], nt);
        let i = theorem_all_done::<E, C, Tag>(w, ops, h, s, st, a, nt);
        if i < n { assert(s.take(n)[i] == s[i]); assert(sg0[i].op < 0); }
        assert(one_seg(s, a, i));
    }
}
/// THEOREM (untouched): operations that do not change the keyword leave what it reads as it was.
pub proof fn theorem_untouched<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s0: Stores, ops: Seq<HOp<E::Key, Tag>>, sg0: Seq<Seg>, h: Seq<Step>)
    requires
        w.edb != w.cdb, runs(s0, h, ops, w.edb, w.cdb), all_ops::<E, C, Tag>(w, ops), chain_differs::<E::Key, C, Tag>(w),
        inv_state::<E, C, Tag>(w, sg0, s0), forall|i: int| 0 <= i < sg0.len() ==> (#[trigger] sg0[i]).op < 0,
        tot(segs::<E, Tag>(w, ops, sg0, h)) <= w.lim,
        forall|a: int| 0 <= a < ops.len() ==> !touches::<E, Tag>(w, #[trigger] ops[a]),
    ensures segs::<E, Tag>(w, ops, sg0, h) == sg0, inv_state::<E, C, Tag>(w, sg0, after(s0, h, w.edb))
{
    hide(inv_state); hide(touches); hide(ext_at); hide(all_ops);
    let s = segs::<E, Tag>(w, ops, sg0, h);
    theorem_history::<E, C, Tag>(w, s0, ops, sg0, h);
    lemma_prefix::<E, Tag>(w, s0, ops, sg0, h);
    let n = sg0.len() as int;
    if s.len() > n {
        assert(0 <= s[n].op < ops.len());
        assert(linked::<E, C, Tag>(w, ops, h, s[n], off(s, n), n == 0));
    }
    assert(s.take(n) =~= s);
}
// ------------------------------------------------------------------ from the operations of the index
/// The changes that the index makes of what it is asked: for each keyword named, a non-empty list of
/// non-empty values, each value once, all with the same operation.
pub proof fn theorem_asked(op: Operation, asked: Map<Iv, Keywords>, mods: Map<Keyword, Vec<(Operation, Iv)>>, k: Keyword)
    requires mods_for(op, asked, mods)
    ensures
        graph_mods(mods).contains_key(k) <==> named(asked, k),
        graph_mods(mods).contains_key(k) ==> graph_mods(mods)[k]@.len() > 0 && no_empty(graph_mods(mods)[k]@),
        graph_mods(mods).contains_key(k) ==> forall|v: Iv| last_on(graph_mods(mods)[k]@, mk_vec(#[trigger] iv_bytes(v))) == (if named_by(asked, v, k) { Some(op) } else { None::<Operation> }),
{
    broadcast use all_axioms;
    if mods.contains_key(k) {
        let l = mods[k]@;
        let m = graph_mods(mods)[k]@;
        assert(m =~= iv_mods(l));
        assert(mods_list(op, asked, k, l));
        assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).0 == op && m[i].1@ == iv_bytes(l[i].1) && named_by(asked, l[i].1, k) by { assert(l.contains(l[i])); }
        assert(no_empty(m)) by {
            assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).1@.len() > 0 by { lemma_iv_some(l[i].1); }
        }
        assert(m.len() > 0) by {
            let v = choose|v: Iv| #[trigger] named_by(asked, v, k);
            assert(l.contains((op, v)));
        }
        assert forall|v: Iv| last_on(m, mk_vec(#[trigger] iv_bytes(v))) == (if named_by(asked, v, k) { Some(op) } else { None::<Operation> }) by {
            lemma_last_on(op, m, mk_vec(iv_bytes(v)));
            if named_by(asked, v, k) {
                assert(l.contains((op, v)));
                let i = choose|i: int| 0 <= i < l.len() && l[i] == (op, v);
                assert(m[i].1 == mk_vec(iv_bytes(v)));
            } else if last_on(m, mk_vec(iv_bytes(v))) is Some {
                let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).1 == mk_vec(iv_bytes(v));
                assert(iv_bytes(l[i].1) == iv_bytes(v));
                lemma_iv_same(l[i].1, v);
            }
        }
    }
}
pub proof fn lemma_iv_some(v: Iv)
    ensures iv_bytes(v).len() > 0
{}
pub proof fn lemma_iv_same(a: Iv, b: Iv)
    requires iv_bytes(a) == iv_bytes(b)
    ensures a == b
{
    lemma_iv_round_trip(a, iv_bytes(a), b);
    lemma_iv_round_trip(b, iv_bytes(b), b);
}
pub proof fn lemma_last_on(op: Operation, m: Seq<(Operation, Vec<u8>)>, x: Vec<u8>)
    requires forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 == op
    ensures last_on(m, x) == (if exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).1 == x { Some(op) } else { None::<Operation> })
    decreases m.len()
{
    if m.len() > 0 {
        let p = m.drop_last();
        lemma_last_on(op, p, x);
        if exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).1 == x { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).1 == x; assert(m[i].1 == x); }
        if exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).1 == x {
            let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).1 == x;
            if i < p.len() { assert(p[i].1 == x); }
        }
    }
}
// ------------------------------------------------------------------ a search ends
pub open spec fn read_in(rs: Seq<Round<Keyword, Data>>) -> Set<Keyword> { graph_of(rs).dom() }
pub proof fn lemma_read_grows<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashMap<Keyword, HashSet<Iv>>) -> Result<bool, String>>(
    n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, interrupt: F, kws: Set<Keyword>, rs: Seq<Round<Keyword, Data>>, t: KwGraph, u: Set<Keyword>, i: int)
    requires rounds_ok::<E, C, Keyword, Data, F>(n, edb, cdb, key, label, interrupt, kws, rs), rounds_true(t, u, rs), u.finite(), 0 <= i, 2 * i + 1 <= rs.len()
    ensures read_in(rs.take(2 * i)).len() >= i, read_in(rs.take(2 * i)).subset_of(u)
    decreases i
{
    hide(round_ok); hide(round_true); hide(is_next);
    lemma_read_sub(t, u, rs, 2 * i);
    if i > 0 {
        lemma_read_grows::<E, C, F>(n, edb, cdb, key, label, interrupt, kws, rs, t, u, i - 1);
        lemma_read_sub(t, u, rs, 2 * i - 2);
        let a = 2 * i - 2;
        lemma_round_new::<E, C, F>(n, edb, cdb, key, label, interrupt, kws, rs, t, u, a + 1);
        lemma_take_more(rs, a);
        lemma_take_more(rs, a + 1);
        let x = choose|x: Keyword| #[trigger] rs[a + 1].g@.contains_key(x) && !read_in(rs.take(a)).contains(x);
        assert(read_in(rs.take(a)).insert(x).subset_of(read_in(rs.take(a + 2))));
        vstd::set_lib::lemma_len_subset(read_in(rs.take(a)).insert(x), read_in(rs.take(a + 2)));
    }
}
pub proof fn lemma_take_more(rs: Seq<Round<Keyword, Data>>, a: int)
    requires 0 <= a < rs.len()
    ensures read_in(rs.take(a)).subset_of(read_in(rs.take(a + 1))), forall|x: Keyword| #[trigger] rs[a].g@.contains_key(x) ==> read_in(rs.take(a + 1)).contains(x)
{
    assert(rs.take(a + 1).drop_last() =~= rs.take(a));
    assert(rs.take(a + 1).last() == rs[a]);
}
pub proof fn lemma_read_sub(t: KwGraph, u: Set<Keyword>, rs: Seq<Round<Keyword, Data>>, a: int)
    requires rounds_true(t, u, rs), 0 <= a <= rs.len(), u.finite()
    ensures read_in(rs.take(a)).subset_of(u), read_in(rs.take(a)).finite()
{
    hide(round_true);
    let q = rs.take(a);
    assert forall|i: int| 0 <= i < q.len() implies round_true(t, (#[trigger] q[i]).tags, q[i].g@) && q[i].tags.subset_of(u) by { assert(q[i] == rs[i]); }
    assert forall|x: Keyword| #[trigger] read_in(q).contains(x) implies u.contains(x) by { lemma_graph_val(t, u, q, x); }
    vstd::set_lib::lemma_len_subset(read_in(q), u);
}
/// A round that is followed by another one has read a keyword that the rounds before the last one had not.
pub proof fn lemma_round_new<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashMap<Keyword, HashSet<Iv>>) -> Result<bool, String>>(
    n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, interrupt: F, kws: Set<Keyword>, rs: Seq<Round<Keyword, Data>>, t: KwGraph, u: Set<Keyword>, b: int)
    requires rounds_ok::<E, C, Keyword, Data, F>(n, edb, cdb, key, label, interrupt, kws, rs), rounds_true(t, u, rs), 1 <= b, b + 1 < rs.len()
    ensures exists|x: Keyword| #[trigger] rs[b].g@.contains_key(x) && !read_in(rs.take(b - 1)).contains(x)
{
    hide(round_ok);
    lemma_rounds_next::<E, C, F>(n, edb, cdb, key, label, interrupt, kws, rs, b);
    lemma_rounds_next::<E, C, F>(n, edb, cdb, key, label, interrupt, kws, rs, b + 1);
    assert(rs[b + 1].tags != Set::<Keyword>::empty()) by { reveal(rounds_ok); }
    let c = lemma_some(rs[b + 1].tags);
    assert(rs.take(b + 1).last() == rs[b]);
    assert(child_in(rs[b].g@, c));
    let x = choose|x: Keyword| edge(rs[b].g@, x, c);
    assert(rs[b].g@.contains_key(x));
    assert(round_true(t, rs[b].tags, rs[b].g@));
    assert(rs[b].tags.contains(x));
    assert(rs.take(b).last() == rs[b - 1] && rs.take(b).drop_last() =~= rs.take(b - 1));
    if rs[b - 1].stop { assert(rs[b].tags == Set::<Keyword>::empty()); }
}
pub proof fn lemma_some<T>(s: Set<T>) -> (x: T)
    requires s != Set::<T>::empty()
    ensures s.contains(x)
{
    if forall|x: T| !s.contains(x) { assert(s =~= Set::<T>::empty()); }
    choose|x: T| s.contains(x)
}
/// THEOREM (termination): on stores that do not change, a search that nothing interrupts makes at
/// most two rounds per keyword, and three more, whatever the associations, cycles included.
pub proof fn theorem_search_ends<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashMap<Keyword, HashSet<Iv>>) -> Result<bool, String>>(
    n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, interrupt: F, kws: Set<Keyword>, rs: Seq<Round<Keyword, Data>>,
    u: Set<Keyword>, t: KwGraph, st: Stores, wf: spec_fn(Keyword) -> Chain1<E::Key, Keyword>, sf: spec_fn(Keyword) -> Seq<Seg>)
    requires
        edb != cdb, rounds_ok::<E, C, Keyword, Data, F>(n, edb, cdb, key, label, interrupt, kws, rs), kws.subset_of(u), u.finite(),
        indexed::<E, C>(key, label, u, t, st, wf, sf), met(n, st, edb),
        forall|i: int| 0 <= i < rs.len() ==> !(#[trigger] rs[i]).stop,
    ensures rs.len() <= 2 * u.len() + 3
{
    hide(round_ok);
    lemma_rounds_true::<E, C, F>(n, edb, cdb, key, label, interrupt, kws, rs, rs.len() as int, u, t, st, wf, sf);
    assert(rs.take(rs.len() as int) =~= rs);
    if rs.len() > 2 * u.len() + 3 {
        let i = u.len() as int + 1;
        lemma_read_grows::<E, C, F>(n, edb, cdb, key, label, interrupt, kws, rs, t, u, i);
        vstd::set_lib::lemma_len_subset(read_in(rs.take(2 * i)), u);
    }
}
// ------------------------------------------------------------------ compaction
/// The stores after the requests `n`, which nothing else disturbs.
pub open spec fn left(st: Stores, n: Seq<Ev>, edb: int) -> Stores
    decreases n.len()
{
    if n.len() == 0 { st }
    else {
        let s = left(st, n.drop_last(), edb);
        if ev_db(n.last()) == edb { Stores { e: ev_post(n.last()), c: s.c } } else { Stores { e: s.e, c: ev_post(n.last()) } }
    }
}
pub open spec fn alone(st: Stores, n: Seq<Ev>, edb: int) -> bool {
    forall|i: int| 0 <= i < n.len() ==> ev_pre(#[trigger] n[i]) == sto(left(st, n.take(i), edb), edb, ev_db(n[i]))
}
pub proof fn lemma_left(st: Stores, n: Seq<Ev>, edb: int, k: int)
    requires alone(st, n, edb), 0 <= k < n.len()
    ensures
        left(st, n.take(0), edb) == st,
        ev_db(n[k]) == edb ==> ev_pre(n[k]) == left(st, n.take(k), edb).e && left(st, n.take(k + 1), edb) == (Stores { e: ev_post(n[k]), c: left(st, n.take(k), edb).c }),
        ev_db(n[k]) != edb ==> ev_pre(n[k]) == left(st, n.take(k), edb).c && left(st, n.take(k + 1), edb) == (Stores { e: left(st, n.take(k), edb).e, c: ev_post(n[k]) }),
{
    assert(n.take(k + 1).drop_last() =~= n.take(k));
    assert(n.take(k + 1).last() == n[k]);
}
/// The new entries are in place.
pub open spec fn moved(n: Seq<Ev>, k: int) -> bool { k >= 2 && ev_ok(n[0]) && ev_ok(n[1]) }
/// `x` is `y` except at the tokens `k`.
pub open spec fn same_off(x: Store, y: Store, k: Set<Token>) -> bool { forall|t: Token| !k.contains(t) ==> #[trigger] opt_at(x, t) == opt_at(y, t) }
/// The stores at any point of the replacement of a batch.
pub proof fn lemma_cuts(st: Stores, n: Seq<Ev>, edb: int, cdb: int, links: Store, entries: Store, olds: Set<Token>, olde: Set<Token>, k: int)
    requires edb != cdb, comp_reqs(n, edb, cdb, links, entries, olds, olde), alone(st, n, edb), 0 <= k <= n.len()
    ensures
        !moved(n, k) ==> left(st, n.take(k), edb).e == st.e && same_off(left(st, n.take(k), edb).c, st.c, links.dom()),
        moved(n, k) ==> same_off(left(st, n.take(k), edb).c, st.c.union_prefer_right(links), olds) && same_off(left(st, n.take(k), edb).e, st.e.union_prefer_right(entries), olde),
        k == 4 && all_evs_ok(n) ==> (forall|t: Token| #[trigger] olds.contains(t) ==> !left(st, n.take(k), edb).c.contains_key(t)) && (forall|t: Token| #[trigger] olde.contains(t) ==> !left(st, n.take(k), edb).e.contains_key(t)),
{
    lemma_left(st, n, edb, 0);
    lemma_left(st, n, edb, 1);
    if n.len() > 2 { lemma_left(st, n, edb, 2); }
    if n.len() > 3 { lemma_left(st, n, edb, 3); }
    let a1 = left(st, n.take(1), edb);
    let a2 = left(st, n.take(2), edb);
    assert(same_off(a1.c, st.c, links.dom()) && a1.e == st.e);
    if k >= 2 {
        if moved(n, k) {
            assert(a2.c == st.c.union_prefer_right(links) && a2.e == st.e.union_prefer_right(entries));
            if k == 4 { assert(k == n.len()); if all_evs_ok(n) { assert(ev_ok(n[3])); } }
        } else if !ev_ok(n[0]) {
            assert(k == 2 && n.len() == 2);
        } else {
            assert(n.len() == 3);
            assert(same_off(a2.c, st.c, links.dom()) && a2.e == st.e);
        }
    }
}
/// What is held for a keyword depends on its entry and on the tokens of its chain only.
pub proof fn lemma_same_state<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, s: Seq<Seg>, st: Stores, x: Stores)
    requires
        inv_state::<E, C, Tag>(w, s, st), tot(s) <= w.lim, opt_at(x.e, w_tok::<E, Tag>(w)) == opt_at(st.e, w_tok::<E, Tag>(w)),
        forall|j: int| 0 <= j < w.lim ==> opt_at(x.c, #[trigger] w_ct::<E::Key, C, Tag>(w, j)) == opt_at(st.c, w_ct::<E::Key, C, Tag>(w, j)),
    ensures inv_state::<E, C, Tag>(w, s, x)
{
    assert forall|i: int| 0 <= i < s.len() implies seg_ok::<E::Key, C, Tag>(w, x.c, #[trigger] s[i], off(s, i)) by {
        assert(seg_ok::<E::Key, C, Tag>(w, st.c, s[i], off(s, i)));
        lemma_off(s, i);
        lemma_seg_same::<E::Key, C, Tag>(w, st.c, x.c, s[i], off(s, i));
    }
    assert forall|j: int| tot(s) <= j < w.lim implies !x.c.contains_key(#[trigger] w_ct::<E::Key, C, Tag>(w, j)) by {
        assert(opt_at(x.c, w_ct::<E::Key, C, Tag>(w, j)) == opt_at(st.c, w_ct::<E::Key, C, Tag>(w, j)));
    }
    assert(entry_at::<E>(w.key, x.e, w_tok::<E, Tag>(w)) == entry_at::<E>(w.key, st.e, w_tok::<E, Tag>(w)));
}
/// The data of a batch (`comp_data`), together.
#[verifier::reject_recursive_types(C)]
pub struct Batch<C: DxEnc<LINK_LENGTH>> {
    pub ra: Map<Token, HashSet<Vec<u8>>>, pub d: CompactingData<C>, pub links: Store, pub entries: Store, pub olds: Set<Token>,
    pub fin: Map<Token, Entry<C>>, pub chains: Map<Token, (C::Key, Vec<Token>)>, pub lines: Map<Token, Vec<Link>>,
}
pub open spec fn b_data<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, label: Seq<u8>, b: Batch<C>) -> bool {
    comp_data::<E, C>(key, label, b.ra, b.d, b.links, b.entries, b.olds, b.fin, b.chains, b.lines)
}
/// `v` is the same keyword under the new key and label, with the chain it is given.
pub open spec fn heir<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, v: Chain1<E::Key, Tag>, key: E::Key, label: Seq<u8>, b: Batch<C>) -> bool {
    let t = w_tok::<E, Tag>(w);
    v.key == key && v.label == label && v.g == w.g && v.sd == b.fin[t].seed.v_bytes() && v.edb == w.edb && v.cdb == w.cdb
        && (!b.ra.contains_key(t) ==> v.lim == w.lim) && (b.ra.contains_key(t) ==> b.lines[t]@.len() <= v.lim)
}
/// HYPOTHESIS: no collision. The new token of the entry is not in use, and the tokens of different
/// chains differ.
pub open spec fn apart_batch<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, v: Chain1<E::Key, Tag>, st: Stores, key: E::Key, label: Seq<u8>, b: Batch<C>) -> bool {
    let t = w_tok::<E, Tag>(w);
    &&& !st.e.contains_key(w_tok::<E, Tag>(v))
    &&& forall|u: Token| #[trigger] b.fin.contains_key(u) && u != t ==> new_tok::<E, C>(key, label, b.fin[u]) != w_tok::<E, Tag>(v)
    &&& forall|j: int| 0 <= j < w.lim ==> !b.links.contains_key(#[trigger] w_ct::<E::Key, C, Tag>(w, j))
    &&& forall|j: int| 0 <= j < v.lim ==> !b.olds.contains(#[trigger] w_ct::<E::Key, C, Tag>(v, j))
    &&& b.ra.contains_key(t) ==> (forall|j: int| 0 <= j < v.lim ==> !st.c.contains_key(#[trigger] w_ct::<E::Key, C, Tag>(v, j)))
    &&& b.ra.contains_key(t) ==> forall|u: Token, i: int, j: int| #![trigger b.chains[u].1@[i], w_ct::<E::Key, C, Tag>(v, j)]
            b.chains.contains_key(u) && u != t && 0 <= i < b.chains[u].1@.len() && 0 <= j < v.lim ==> b.chains[u].1@[i] != w_ct::<E::Key, C, Tag>(v, j)
}
pub open spec fn new_segs(m: Seq<(Operation, Vec<u8>)>) -> Seq<Seg> {
    if m.len() == 0 { Seq::empty() } else { seq![Seg { op: -1, at: 0, n: n_lines(enc_mods(m).len()), mods: m, done: true }] }
}
pub proof fn lemma_new_segs(m: Seq<(Operation, Vec<u8>)>)
    ensures done_mods(new_segs(m)) == m, m.len() > 0 ==> tot(new_segs(m)) == n_lines(enc_mods(m).len()), m.len() == 0 ==> tot(new_segs(m)) == 0
{
    let s = new_segs(m);
    if m.len() > 0 {
        assert(s.drop_last() =~= Seq::<Seg>::empty());
        assert(done_mods(s.drop_last()) =~= Seq::<(Operation, Vec<u8>)>::empty());
        assert(tot(s.drop_last()) == 0);
        assert(done_mods(s) =~= m);
    } else { assert(done_mods(s) =~= m); }
}
/// The entry of the keyword once the entries of the batch are written.
pub proof fn lemma_new_entry<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, v: Chain1<E::Key, Tag>, st: Stores, x: Stores, key: E::Key, label: Seq<u8>, b: Batch<C>)
    requires
        b_data::<E, C>(key, label, b), heir::<E, C, Tag>(w, v, key, label, b), apart_batch::<E, C, Tag>(w, v, st, key, label, b),
        b.fin.contains_key(w_tok::<E, Tag>(w)), b.fin[w_tok::<E, Tag>(w)].tag_hash@ == w_hash(w),
        b.d.entries@.dom().subset_of(st.e.dom()),
        same_off(x.e, st.e.union_prefer_right(b.entries), b.d.entries@.dom()),
    ensures
        new_tok::<E, C>(key, label, b.fin[w_tok::<E, Tag>(w)]) == w_tok::<E, Tag>(v),
        keep(b.ra, w_tok::<E, Tag>(w)) ==> entry_at::<E>(key, x.e, w_tok::<E, Tag>(v)) == Some(norm(view_e(b.fin[w_tok::<E, Tag>(w)]))),
        !keep(b.ra, w_tok::<E, Tag>(w)) ==> !x.e.contains_key(w_tok::<E, Tag>(v)),
{
    let t = w_tok::<E, Tag>(w);
    let nt = w_tok::<E, Tag>(v);
    assert(new_tok::<E, C>(key, label, b.fin[t]) == nt);
    assert(!b.d.entries@.dom().contains(nt));
    assert(opt_at(x.e, nt) == opt_at(st.e.union_prefer_right(b.entries), nt));
    if keep(b.ra, t) {
        assert(stored_as::<E, C>(key, label, b.entries, b.fin[t]));
        assert(entry_at::<E>(key, x.e, nt) == entry_at::<E>(key, b.entries, nt));
    } else if b.entries.contains_key(nt) {
        let u = choose|u: Token| #[trigger] b.fin.contains_key(u) && keep(b.ra, u) && new_tok::<E, C>(key, label, b.fin[u]) == nt;
        assert(u == t);
    }
}
/// A keyword whose chain the batch does not rewrite: the same lines, under the new entry.
pub proof fn lemma_carried<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, v: Chain1<E::Key, Tag>, s: Seq<Seg>, st: Stores, x: Stores, key: E::Key, label: Seq<u8>, b: Batch<C>)
    requires
        inv_state::<E, C, Tag>(w, s, st), chain_differs::<E::Key, C, Tag>(w), s.len() > 0, tot(s) <= w.lim,
        b_data::<E, C>(key, label, b), heir::<E, C, Tag>(w, v, key, label, b), apart_batch::<E, C, Tag>(w, v, st, key, label, b),
        !b.ra.contains_key(w_tok::<E, Tag>(w)), b.d.entries@.contains_key(w_tok::<E, Tag>(w)),
        Some(view_e(b.d.entries@[w_tok::<E, Tag>(w)])) == entry_at::<E>(w.key, st.e, w_tok::<E, Tag>(w)),
        b.d.entries@.dom().subset_of(st.e.dom()),
        same_off(x.e, st.e.union_prefer_right(b.entries), b.d.entries@.dom()), same_off(x.c, st.c.union_prefer_right(b.links), b.olds),
    ensures inv_state::<E, C, Tag>(v, s, x), chain_differs::<E::Key, C, Tag>(v), tot(s) <= v.lim
{
    let t = w_tok::<E, Tag>(w);
    assert(b.fin.contains_key(t) && b.fin[t] == b.d.entries@[t]);
    lemma_new_entry::<E, C, Tag>(w, v, st, x, key, label, b);
    assert(v.sd == w.sd);
    assert forall|j: int| 0 <= j < w.lim implies #[trigger] w_ct::<E::Key, C, Tag>(v, j) == w_ct::<E::Key, C, Tag>(w, j) by {}
    assert forall|j: int| 0 <= j < w.lim implies opt_at(x.c, #[trigger] w_ct::<E::Key, C, Tag>(w, j)) == opt_at(st.c, w_ct::<E::Key, C, Tag>(w, j)) by {
        let q = w_ct::<E::Key, C, Tag>(v, j);
        assert(!b.olds.contains(q));
        assert(opt_at(x.c, q) == opt_at(st.c.union_prefer_right(b.links), q));
    }
    let mid = Stores { e: st.e, c: x.c };
    lemma_same_state::<E, C, Tag>(w, s, st, mid);
    assert forall|i: int| 0 <= i < s.len() implies seg_ok::<E::Key, C, Tag>(v, x.c, #[trigger] s[i], off(s, i)) by {
        assert(seg_ok::<E::Key, C, Tag>(w, x.c, s[i], off(s, i)));
        lemma_off(s, i);
        assert(seg_lines::<E::Key, C, Tag>(v, x.c, off(s, i), s[i].n) =~= seg_lines::<E::Key, C, Tag>(w, x.c, off(s, i), s[i].n));
        assert forall|j: int| 0 <= j < s[i].n implies #[trigger] w_ct::<E::Key, C, Tag>(v, off(s, i) + j) == w_ct::<E::Key, C, Tag>(w, off(s, i) + j) by {}
    }
    assert forall|j: int| tot(s) <= j < v.lim implies !x.c.contains_key(#[trigger] w_ct::<E::Key, C, Tag>(v, j)) by {
        assert(!mid.c.contains_key(w_ct::<E::Key, C, Tag>(w, j)));
    }
    assert(w_ct::<E::Key, C, Tag>(w, tot(s) - 1) != zero_token());
}
/// A keyword whose chain the batch rewrites: one change, which adds each of the values once.
pub proof fn lemma_rebuilt<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, v: Chain1<E::Key, Tag>, st: Stores, x: Stores, key: E::Key, label: Seq<u8>, b: Batch<C>) -> (m: Seq<(Operation, Vec<u8>)>)
    requires
        chain_differs::<E::Key, C, Tag>(v),
        b_data::<E, C>(key, label, b), heir::<E, C, Tag>(w, v, key, label, b), apart_batch::<E, C, Tag>(w, v, st, key, label, b),
        b.ra.contains_key(w_tok::<E, Tag>(w)), b.d.entries@[w_tok::<E, Tag>(w)].tag_hash@ == w_hash(w),
        forall|y: Vec<u8>| #[trigger] b.ra[w_tok::<E, Tag>(w)]@.contains(y) ==> y@.len() > 0,
        b.d.entries@.dom().subset_of(st.e.dom()),
        same_off(x.e, st.e.union_prefer_right(b.entries), b.d.entries@.dom()), same_off(x.c, st.c.union_prefer_right(b.links), b.olds),
    ensures adds_of(m, b.ra[w_tok::<E, Tag>(w)]@), inv_state::<E, C, Tag>(v, new_segs(m), x), tot(new_segs(m)) <= v.lim, tot(new_segs(m)) == b.lines[w_tok::<E, Tag>(w)]@.len()
{
    let t = w_tok::<E, Tag>(w);
    let val = b.ra[t]@;
    let lines = b.lines[t]@;
    assert(b.d.entries@.contains_key(t) && rewritten::<C>(view_e(b.d.entries@[t]), view_e(b.fin[t]), val, b.chains[t].0, b.chains[t].1@, lines));
    assert(holds(lines, val));
    let m = choose|m: Seq<(Operation, Vec<u8>)>| #[trigger] adds_of(m, val) && lines_for(m, lines);
    let e = choose|e: Seq<Vec<u8>>| #[trigger] enum_set(e, val) && m == adds(e);
    assert(b.fin.contains_key(t));
    lemma_new_entry::<E, C, Tag>(w, v, st, x, key, label, b);
    lemma_new_segs(m);
    let n = lines.len();
    let toks = b.chains[t].1@;
    assert(b.chains[t].0 == w_ck::<E::Key, C, Tag>(v));
    assert(toks =~= Seq::new(n, |i: int| w_ct::<E::Key, C, Tag>(v, i)));
    assert forall|j: int| 0 <= j < n implies toks[j] == #[trigger] w_ct::<E::Key, C, Tag>(v, j) by {}
    assert forall|j: int| 0 <= j < n implies line_at::<C>(w_ck::<E::Key, C, Tag>(v), x.c, #[trigger] w_ct::<E::Key, C, Tag>(v, j)) == Some(lines[j]) by { lemma_new_line::<E, C, Tag>(w, v, st, x, key, label, b, j); }
    assert forall|j: int| n <= j < v.lim implies !x.c.contains_key(#[trigger] w_ct::<E::Key, C, Tag>(v, j)) by { lemma_no_line::<E, C, Tag>(w, v, st, x, key, label, b, j); }
    let s = new_segs(m);
    assert(e.to_set() == val);
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).1@.len() > 0 by { assert(e.contains(e[i])); assert(val.contains(e[i])); }
    if m.len() == 0 {
        assert(enc_mods(m).len() == 0);
        assert(val =~= Set::<Vec<u8>>::empty()) by { assert forall|y: Vec<u8>| !val.contains(y) by { assert(e.contains(y) <==> val.contains(y)); } }
        assert(n == 0);
    } else {
        assert(val.contains(e[0])) by { assert(e.contains(e[0])); }
        lemma_some_lines(m);
        assert(off(s, 0) == 0);
        assert(seg_lines::<E::Key, C, Tag>(v, x.c, 0, n) =~= lines);
        assert(seg_ok::<E::Key, C, Tag>(v, x.c, s[0], 0)) by {
            assert forall|j: int| 0 <= j < n implies line_at::<C>(w_ck::<E::Key, C, Tag>(v), x.c, #[trigger] w_ct::<E::Key, C, Tag>(v, 0 + j)) is Some by { assert(w_ct::<E::Key, C, Tag>(v, 0 + j) == w_ct::<E::Key, C, Tag>(v, j)); }
        }
        assert(w_ct::<E::Key, C, Tag>(v, n - 1) != zero_token());
        assert(toks.last() == w_ct::<E::Key, C, Tag>(v, n - 1));
        assert(keep(b.ra, t));
    }
    m
}
pub proof fn lemma_some_lines(m: Seq<(Operation, Vec<u8>)>)
    requires m.len() > 0
    ensures n_lines(enc_mods(m).len()) > 0
{
    assert(enc_mods(m) == enc_mods(m.drop_last()) + enc_value(m.last().0, m.last().1@));
    assert(enc_value(m.last().0, m.last().1@).len() > 0);
    assert(enc_mods(m).len() > 0);
}
pub proof fn lemma_new_line<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, v: Chain1<E::Key, Tag>, st: Stores, x: Stores, key: E::Key, label: Seq<u8>, b: Batch<C>, j: int)
    requires
        chain_differs::<E::Key, C, Tag>(v), b_data::<E, C>(key, label, b), apart_batch::<E, C, Tag>(w, v, st, key, label, b), b.ra.contains_key(w_tok::<E, Tag>(w)),
        0 <= j < b.lines[w_tok::<E, Tag>(w)]@.len() <= v.lim, b.chains[w_tok::<E, Tag>(w)].0 == w_ck::<E::Key, C, Tag>(v),
        b.chains[w_tok::<E, Tag>(w)].1@ == Seq::new(b.lines[w_tok::<E, Tag>(w)]@.len(), |i: int| w_ct::<E::Key, C, Tag>(v, i)),
        same_off(x.c, st.c.union_prefer_right(b.links), b.olds),
    ensures line_at::<C>(w_ck::<E::Key, C, Tag>(v), x.c, w_ct::<E::Key, C, Tag>(v, j)) == Some(b.lines[w_tok::<E, Tag>(w)]@[j])
{
    broadcast use all_axioms;
    let t = w_tok::<E, Tag>(w);
    let q = w_ct::<E::Key, C, Tag>(v, j);
    assert(b.chains.contains_key(t) && b.chains[t].1@[j] == q);
    assert(b.links.contains_key(q));
    assert(a_line::<C, Token>(b.chains, b.lines, q, b.links[q]));
    let (u, i) = choose|u: Token, i: int| line_of::<C, Token>(b.chains, b.lines, q, b.links[q], u, i);
    assert(b.chains[u].1@[i] == q);
    assert(u == t);
    assert(w_ct::<E::Key, C, Tag>(v, i) == w_ct::<E::Key, C, Tag>(v, j));
    assert(i == j) by {
        if i < j { assert(w_ct::<E::Key, C, Tag>(v, i) != w_ct::<E::Key, C, Tag>(v, j)); }
        if j < i { assert(w_ct::<E::Key, C, Tag>(v, j) != w_ct::<E::Key, C, Tag>(v, i)); }
    }
    assert(!b.olds.contains(q));
    assert(opt_at(x.c, q) == opt_at(st.c.union_prefer_right(b.links), q));
}
pub proof fn lemma_no_line<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, v: Chain1<E::Key, Tag>, st: Stores, x: Stores, key: E::Key, label: Seq<u8>, b: Batch<C>, j: int)
    requires
        chain_differs::<E::Key, C, Tag>(v), b_data::<E, C>(key, label, b), apart_batch::<E, C, Tag>(w, v, st, key, label, b), b.ra.contains_key(w_tok::<E, Tag>(w)),
        b.lines[w_tok::<E, Tag>(w)]@.len() <= j < v.lim,
        b.chains[w_tok::<E, Tag>(w)].1@ == Seq::new(b.lines[w_tok::<E, Tag>(w)]@.len(), |i: int| w_ct::<E::Key, C, Tag>(v, i)),
        same_off(x.c, st.c.union_prefer_right(b.links), b.olds),
    ensures !x.c.contains_key(w_ct::<E::Key, C, Tag>(v, j))
{
    let t = w_tok::<E, Tag>(w);
    let q = w_ct::<E::Key, C, Tag>(v, j);
    if b.links.contains_key(q) {
        assert(a_line::<C, Token>(b.chains, b.lines, q, b.links[q]));
        let (u, i) = choose|u: Token, i: int| line_of::<C, Token>(b.chains, b.lines, q, b.links[q], u, i);
        assert(b.chains[u].1@[i] == q);
        assert(u == t);
        assert(w_ct::<E::Key, C, Tag>(v, i) != w_ct::<E::Key, C, Tag>(v, j));
    }
    assert(!b.olds.contains(q));
    assert(opt_at(x.c, q) == opt_at(st.c.union_prefer_right(b.links), q));
}
/// The parts of one batch of a compaction that has reached its replacement.
pub open spec fn batch_is<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, tokens: Set<Token>, f: F,
    g: Map<Token, HashSet<Iv>>, r: Map<Token, HashSet<Iv>>, asked: HashSet<Data>, kept: HashSet<Data>, b: Batch<C>) -> bool
{
    &&& n.len() > 2 && ev_db(n[0]) == edb && ev_db(n[1]) == cdb
    &&& gprepared::<E, C, Keyword, Data>(old_key, tokens, target, ev_pre(n[0]), ev_pre(n[1]), g, b.d)
    &&& f.ensures((asked,), Ok(kept)) && data_of(g, asked@) && left_of(g, kept@, r)
    &&& encoded_at(r, b.ra)
    &&& comp_reqs(n.skip(2), edb, cdb, b.links, b.entries, b.olds, b.d.entries@.dom())
    &&& b_data::<E, C>(new_key, label, b)
}
/// Every batch that the contract of `compact_batch` allows, and that writes, has such parts.
pub proof fn lemma_batch_is<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, tokens: Set<Token>, f: F)
    requires batch_log::<E, C, F>(n, edb, cdb, old_key, new_key, label, target, tokens, f), n.len() > 2
    ensures exists|g: Map<Token, HashSet<Iv>>, r: Map<Token, HashSet<Iv>>, asked: HashSet<Data>, kept: HashSet<Data>, b: Batch<C>|
        #[trigger] batch_is::<E, C, F>(n, edb, cdb, old_key, new_key, label, target, tokens, f, g, r, asked, kept, b)
{
    hide(prep_reqs); hide(encoded_at); hide(comp_reqs); hide(comp_data);
    let (g, d, r) = choose|g: Map<Token, HashSet<Iv>>, d: CompactingData<C>, r: Map<Token, HashSet<Iv>>| #[trigger] replaced::<E, C, F>(n, edb, cdb, old_key, new_key, label, target, tokens, f, g, d, r);
    assert(exists|a: HashSet<Data>, k: HashSet<Data>| #[trigger] f.ensures((a,), Ok(k)) && data_of(g, a@) && left_of(g, k@, r)) by { reveal(filtered); }
    let (a, k) = choose|a: HashSet<Data>, k: HashSet<Data>| #[trigger] f.ensures((a,), Ok(k)) && data_of(g, a@) && left_of(g, k@, r);
    let q = n.skip(2);
    let m = choose|m: Map<Token, HashSet<Vec<u8>>>| #[trigger] encoded_at(r, m) && comp_log::<E, C>(q, edb, cdb, new_key, label, m, d);
    let (links, entries, olds) = choose|links: Store, entries: Store, olds: Set<Token>| #[trigger] comp_reqs(q, edb, cdb, links, entries, olds, d.entries@.dom()) && comp_some::<E, C>(new_key, label, m, d, links, entries, olds);
    let (fin, chains, lines) = choose|fin: Map<Token, Entry<C>>, chains: Map<Token, (C::Key, Vec<Token>)>, lines: Map<Token, Vec<Link>>| comp_data::<E, C>(new_key, label, m, d, links, entries, olds, fin, chains, lines);
    let b = Batch::<C> { ra: m, d, links, entries, olds, fin, chains, lines };
    assert(ev_db(n[0]) == edb && ev_db(n[1]) == cdb) by { reveal(prep_reqs); let p = n.take(2); assert(p[0] == n[0] && p[1] == n[1]); }
    assert(batch_is::<E, C, F>(n, edb, cdb, old_key, new_key, label, target, tokens, f, g, r, a, k, b));
}
/// What a batch leaves of what a keyword holds: everything when its chain is not rewritten, else what
/// the filter does not reject.
pub open spec fn remains(target: bool, kept: Set<Data>, t: Set<Iv>, v: Iv) -> bool { t.contains(v) && (target ==> survives(kept, v)) }
/// What a batch reads of a keyword.
pub proof fn lemma_batch_reads<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(
    old_key: E::Key, old_label: Seq<u8>, target: Set<Token>, tokens: Set<Token>, st: Stores, g: Map<Token, HashSet<Iv>>, d: CompactingData<C>, k: Keyword, t: Set<Iv>, w: Chain1<E::Key, Keyword>, s: Seq<Seg>)
    requires
        gprepared::<E, C, Keyword, Data>(old_key, tokens, target, st.e, st.c, g, d),
        indexed1::<E, C>(old_key, old_label, k, t, st, w, s), s.len() > 0, tokens.contains(w_tok::<E, Keyword>(w)),
    ensures
        d.entries@.contains_key(w_tok::<E, Keyword>(w)), entry_at::<E>(w.key, st.e, w_tok::<E, Keyword>(w)) == Some(view_e(d.entries@[w_tok::<E, Keyword>(w)])),
        d.entries@[w_tok::<E, Keyword>(w)].tag_hash@ == w_hash(w),
        d.entries@.dom().subset_of(st.e.dom()),
        g.contains_key(w_tok::<E, Keyword>(w)) <==> target.contains(w_tok::<E, Keyword>(w)),
        target.contains(w_tok::<E, Keyword>(w)) ==> g[w_tok::<E, Keyword>(w)]@ =~= t && d.metadata@.contains_key(w_tok::<E, Keyword>(w)) && d.metadata@[w_tok::<E, Keyword>(w)].1@ == w_toks::<E::Key, C, Keyword>(w, tot(s)),
{
    let u = w_tok::<E, Keyword>(w);
    reveal(gprepared);
    let m = choose|m: Map<Token, HashSet<Vec<u8>>>| #[trigger] prepared::<E, C>(old_key, tokens, target, st.e, st.c, m, d) && decoded_at(m, g);
    theorem_read::<E, C, Keyword>(w, s, st);
    assert(d.entries@.contains_key(u));
    assert(entry_read::<E, C>(old_key, st.e, u, d.entries@[u]));
    let e = d.entries@[u];
    assert(view_e(e).hash == e.tag_hash@);
    assert(m.contains_key(u) <==> d.metadata@.contains_key(u)) by { assert(m.dom() == d.metadata@.dom()); assert(m.contains_key(u) == m.dom().contains(u)); }
    assert(m.contains_key(u) <==> g.contains_key(u)) by { assert(m.dom() == g.dom()); assert(m.contains_key(u) == m.dom().contains(u)); }
    if target.contains(u) {
        assert(mm_got1::<E, C>(old_key, st.e, st.c, u, m[u]@));
        assert(m[u]@ == replay(done_mods(s)));
        assert(dec_set(m[u]@, g[u]@));
        assert forall|v: Iv| g[u]@.contains(v) <==> t.contains(v) by {
            lemma_dec_set(m[u]@, g[u]@, v);
            theorem_latest(done_mods(s), mk_vec(iv_bytes(v)));
        }
        lemma_the_chain::<E::Key, C, Keyword>(w, tot(s));
        assert(chain_of::<C>(view_e(e), d.metadata@[u].1@));
        lemma_chain_unique::<C>(view_e(e), d.metadata@[u].1@, w_toks::<E::Key, C, Keyword>(w, tot(s)));
    }
}
pub proof fn lemma_adds(m: Seq<(Operation, Vec<u8>)>, val: Set<Vec<u8>>, x: Vec<u8>)
    requires adds_of(m, val)
    ensures last_on(m, x) == Some(Operation::Addition) <==> val.contains(x)
{
    let e = choose|e: Seq<Vec<u8>>| #[trigger] enum_set(e, val) && m == adds(e);
    assert(e.to_set() == val);
    lemma_last_on(Operation::Addition, m, x);
    if val.contains(x) {
        assert(e.to_set().contains(x));
        let i = choose|i: int| 0 <= i < e.len() && e[i] == x;
        assert(m[i].1 == x);
    }
    if exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).1 == x { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).1 == x; assert(e[i] == x); assert(e.to_set().contains(e[i])); }
}
pub proof fn lemma_encoded(a: Set<Iv>, b: Set<Vec<u8>>, v: Iv)
    requires enc_set(a, b)
    ensures b.contains(mk_vec(iv_bytes(v))) <==> a.contains(v)
{
    broadcast use all_axioms;
    let f = |v: Iv| mk_vec(iv_bytes(v));
    if a.contains(v) { assert(b.contains(f(v))); }
    if b.contains(mk_vec(iv_bytes(v))) {
        let x = choose|x: Iv| a.contains(x) && f(x) == mk_vec(iv_bytes(v));
        assert(mk_vec(iv_bytes(x))@ == iv_bytes(x) && mk_vec(iv_bytes(v))@ == iv_bytes(v));
        lemma_iv_same(x, v);
    }
}
pub proof fn lemma_encoded_some(a: Set<Iv>, b: Set<Vec<u8>>, y: Vec<u8>)
    requires enc_set(a, b), b.contains(y)
    ensures y@.len() > 0
{
    broadcast use all_axioms;
    let f = |v: Iv| mk_vec(iv_bytes(v));
    let x = choose|x: Iv| a.contains(x) && f(x) == y;
    lemma_iv_some(x);
}
/// THEOREM (compaction, at any point): for a keyword of the batch, at every point between two
/// requests of the replacement, whatever failed before: as long as the new entries are not written,
/// the keyword holds under the old key and label what it held; from then on it holds under the new key
/// and label what the filter has left of it - everything when its chain is not rewritten.
pub proof fn theorem_compact_cut<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, old_key: E::Key, old_label: Seq<u8>, new_key: E::Key, label: Seq<u8>, target: Set<Token>, tokens: Set<Token>, f: F,
    g: Map<Token, HashSet<Iv>>, r: Map<Token, HashSet<Iv>>, asked: HashSet<Data>, kept: HashSet<Data>, b: Batch<C>,
    st: Stores, c: int, k: Keyword, t: Set<Iv>, t2: Set<Iv>, w: Chain1<E::Key, Keyword>, v: Chain1<E::Key, Keyword>, s: Seq<Seg>) -> (s2: Seq<Seg>)
    requires
        edb != cdb, batch_is::<E, C, F>(n, edb, cdb, old_key, new_key, label, target, tokens, f, g, r, asked, kept, b),
        ev_pre(n[0]) == st.e, ev_pre(n[1]) == st.c, alone(st, n.skip(2), edb), 0 <= c <= n.len() - 2,
        indexed1::<E, C>(old_key, old_label, k, t, st, w, s), s.len() > 0, tokens.contains(w_tok::<E, Keyword>(w)),
        heir::<E, C, Keyword>(w, v, new_key, label, b), apart_batch::<E, C, Keyword>(w, v, st, new_key, label, b), chain_differs::<E::Key, C, Keyword>(v),
        forall|x: Iv| #[trigger] t2.contains(x) <==> remains(target.contains(w_tok::<E, Keyword>(w)), kept@, t, x),
    ensures
        !moved(n.skip(2), c) ==> indexed1::<E, C>(old_key, old_label, k, t, left(st, n.skip(2).take(c), edb), w, s),
        moved(n.skip(2), c) ==> indexed1::<E, C>(new_key, label, k, t2, left(st, n.skip(2).take(c), edb), v, s2),
        moved(n.skip(2), c) && !target.contains(w_tok::<E, Keyword>(w)) ==> s2 == s,
        target.contains(w_tok::<E, Keyword>(w)) ==> tot(s2) == b.lines[w_tok::<E, Keyword>(w)]@.len() && (s2.len() == 0 || s2.len() == 1 && tot(s2) == n_lines(enc_mods(s2[0].mods).len())),
{
    hide(inv_state); hide(comp_reqs); hide(comp_data);
    let u = w_tok::<E, Keyword>(w);
    let q = n.skip(2);
    let x = left(st, q.take(c), edb);
    lemma_cuts(st, q, edb, cdb, b.links, b.entries, b.olds, b.d.entries@.dom(), c);
    lemma_batch_reads::<E, C>(old_key, old_label, target, tokens, st, g, b.d, k, t, w, s);
    assert(g.contains_key(u) <==> b.ra.contains_key(u)) by { reveal(left_of); assert(g.contains_key(u) == g.dom().contains(u)); assert(b.ra.contains_key(u) == b.ra.dom().contains(u)); }
    if !moved(q, c) {
        lemma_same_state::<E, C, Keyword>(w, s, st, x);
    }
    if !target.contains(u) {
        assert(t2 =~= t);
        if moved(q, c) { lemma_carried::<E, C, Keyword>(w, v, s, st, x, new_key, label, b); }
        s
    } else {
        assert(r.contains_key(u) && sieved(g[u]@, kept@, r[u]@)) by { reveal(left_of); assert(r.contains_key(u) == r.dom().contains(u)); assert(g.contains_key(u) == g.dom().contains(u)); }
        assert(enc_set(r[u]@, b.ra[u]@));
        assert forall|y: Vec<u8>| #[trigger] b.ra[u]@.contains(y) implies y@.len() > 0 by { lemma_encoded_some(r[u]@, b.ra[u]@, y); }
        let m = if moved(q, c) { lemma_rebuilt::<E, C, Keyword>(w, v, st, x, new_key, label, b) } else { lemma_rebuilt_lines::<E, C>(new_key, label, b, u) };
        let s2 = new_segs(m);
        lemma_new_segs(m);
        assert forall|y: Iv| #[trigger] t2.contains(y) <==> last_on(done_mods(s2), mk_vec(iv_bytes(y))) == Some(Operation::Addition) by {
            lemma_adds(m, b.ra[u]@, mk_vec(iv_bytes(y)));
            lemma_encoded(r[u]@, b.ra[u]@, y);
            reveal(sieved);
        }
        s2
    }
}
pub proof fn lemma_rebuilt_lines<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, label: Seq<u8>, b: Batch<C>, t: Token) -> (m: Seq<(Operation, Vec<u8>)>)
    requires b_data::<E, C>(key, label, b), b.ra.contains_key(t)
    ensures adds_of(m, b.ra[t]@), tot(new_segs(m)) == b.lines[t]@.len()
{
    let lines = b.lines[t]@;
    let val = b.ra[t]@;
    assert(rewritten::<C>(view_e(b.d.entries@[t]), view_e(b.fin[t]), val, b.chains[t].0, b.chains[t].1@, lines));
    assert(holds(lines, val));
    let m = choose|m: Seq<(Operation, Vec<u8>)>| #[trigger] adds_of(m, val) && lines_for(m, lines);
    lemma_new_segs(m);
    if m.len() == 0 { assert(enc_mods(m).len() == 0); }
    m
}
/// THEOREM (compaction, the others): a keyword that is not in the batch - under any key and label -
/// holds what it held at every point.
pub proof fn theorem_compact_other<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(
    q: Seq<Ev>, edb: int, cdb: int, b: Batch<C>, st: Stores, c: int, key: E::Key, label: Seq<u8>, k: Keyword, t: Set<Iv>, w: Chain1<E::Key, Keyword>, s: Seq<Seg>)
    requires
        edb != cdb, comp_reqs(q, edb, cdb, b.links, b.entries, b.olds, b.d.entries@.dom()), alone(st, q, edb), 0 <= c <= q.len(),
        indexed1::<E, C>(key, label, k, t, st, w, s),
        !b.d.entries@.contains_key(w_tok::<E, Keyword>(w)), !b.entries.contains_key(w_tok::<E, Keyword>(w)),
        forall|j: int| 0 <= j < w.lim ==> !b.links.contains_key(#[trigger] w_ct::<E::Key, C, Keyword>(w, j)) && !b.olds.contains(w_ct::<E::Key, C, Keyword>(w, j)),
    ensures indexed1::<E, C>(key, label, k, t, left(st, q.take(c), edb), w, s)
{
    hide(comp_reqs); hide(inv_state); hide(left);
    let x = left(st, q.take(c), edb);
    lemma_cuts(st, q, edb, cdb, b.links, b.entries, b.olds, b.d.entries@.dom(), c);
    let u = w_tok::<E, Keyword>(w);
    assert(opt_at(x.e, u) == opt_at(st.e, u)) by { if moved(q, c) { assert(opt_at(x.e, u) == opt_at(st.e.union_prefer_right(b.entries), u)); } }
    assert forall|j: int| 0 <= j < w.lim implies opt_at(x.c, #[trigger] w_ct::<E::Key, C, Keyword>(w, j)) == opt_at(st.c, w_ct::<E::Key, C, Keyword>(w, j)) by {
        let y = w_ct::<E::Key, C, Keyword>(w, j);
        assert(!b.links.contains_key(y) && !b.olds.contains(y));
        if moved(q, c) { assert(opt_at(x.c, y) == opt_at(st.c.union_prefer_right(b.links), y)); } else { assert(opt_at(x.c, y) == opt_at(st.c, y)); }
    }
    lemma_same_state::<E, C, Keyword>(w, s, st, x);
}
/// THEOREM (compaction, clean): after a batch that went through, nothing is left under the old entry
/// token of its keywords, nor of the lines of a chain that it has rewritten.
pub proof fn theorem_compact_clean<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, old_key: E::Key, old_label: Seq<u8>, new_key: E::Key, label: Seq<u8>, target: Set<Token>, tokens: Set<Token>, f: F,
    g: Map<Token, HashSet<Iv>>, r: Map<Token, HashSet<Iv>>, asked: HashSet<Data>, kept: HashSet<Data>, b: Batch<C>,
    st: Stores, k: Keyword, t: Set<Iv>, w: Chain1<E::Key, Keyword>, s: Seq<Seg>)
    requires
        edb != cdb, batch_is::<E, C, F>(n, edb, cdb, old_key, new_key, label, target, tokens, f, g, r, asked, kept, b),
        ev_pre(n[0]) == st.e, ev_pre(n[1]) == st.c, alone(st, n.skip(2), edb), n.len() == 6, all_evs_ok(n),
        indexed1::<E, C>(old_key, old_label, k, t, st, w, s), s.len() > 0, tokens.contains(w_tok::<E, Keyword>(w)),
    ensures
        !left(st, n.skip(2), edb).e.contains_key(w_tok::<E, Keyword>(w)),
        target.contains(w_tok::<E, Keyword>(w)) ==> forall|j: int| 0 <= j < tot(s) ==> !left(st, n.skip(2), edb).c.contains_key(#[trigger] w_ct::<E::Key, C, Keyword>(w, j)),
{
    hide(inv_state); hide(comp_reqs);
    let u = w_tok::<E, Keyword>(w);
    let q = n.skip(2);
    assert(q.take(4) =~= q);
    assert(all_evs_ok(q)) by { assert forall|i: int| 0 <= i < q.len() implies ev_ok(#[trigger] q[i]) by { assert(ev_ok(n[i + 2])); } }
    lemma_cuts(st, q, edb, cdb, b.links, b.entries, b.olds, b.d.entries@.dom(), 4);
    lemma_batch_reads::<E, C>(old_key, old_label, target, tokens, st, g, b.d, k, t, w, s);
    assert(b.d.entries@.dom().contains(u));
    if target.contains(u) {
        let toks = b.d.metadata@[u].1@;
        assert forall|j: int| 0 <= j < tot(s) implies !left(st, q, edb).c.contains_key(#[trigger] w_ct::<E::Key, C, Keyword>(w, j)) by {
            let y = w_ct::<E::Key, C, Keyword>(w, j);
            assert(toks[j] == y);
            assert(toks.contains(y));
            assert(chain_tokens_of(b.d.metadata@, y));
            assert(b.olds.contains(y));
        }
    }
}
/// The parts of a batch.
#[verifier::reject_recursive_types(C)]
pub struct Parts<C: DxEnc<LINK_LENGTH>> { pub n: Seq<Ev>, pub g: Map<Token, HashSet<Iv>>, pub r: Map<Token, HashSet<Iv>>, pub asked: HashSet<Data>, pub kept: HashSet<Data>, pub b: Batch<C> }
/// Consecutive batches that went through, on stores that nothing else changes: `sts[i]` before the `i`-th.
pub open spec fn batches<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    ps: Seq<Parts<C>>, sts: Seq<Stores>, edb: int, cdb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, s: Seq<Token>, f: F) -> bool
{
    &&& sts.len() == ps.len() + 1
    &&& forall|i: int| 0 <= i < ps.len() ==> #[trigger] batch_at::<E, C, F>(ps[i], sts[i], sts[i + 1], edb, cdb, old_key, new_key, label, target, chunk(s, i), f)
}
pub open spec fn batch_at<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    p: Parts<C>, st: Stores, x: Stores, edb: int, cdb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, tokens: Set<Token>, f: F) -> bool
{
    &&& batch_is::<E, C, F>(p.n, edb, cdb, old_key, new_key, label, target, tokens, f, p.g, p.r, p.asked, p.kept, p.b)
    &&& p.n.len() == 6 && all_evs_ok(p.n) && ev_pre(p.n[0]) == st.e && ev_pre(p.n[1]) == st.c
    &&& alone(st, p.n.skip(2), edb) && x == left(st, p.n.skip(2), edb)
}
/// HYPOTHESIS: no collision between the keyword and what the batch writes, nor the lines it removes.
pub open spec fn clear<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(w: Chain1<E::Key, Tag>, b: Batch<C>) -> bool {
    &&& !b.entries.contains_key(w_tok::<E, Tag>(w))
    &&& forall|j: int| 0 <= j < w.lim ==> !b.links.contains_key(#[trigger] w_ct::<E::Key, C, Tag>(w, j)) && !b.olds.contains(w_ct::<E::Key, C, Tag>(w, j))
}
pub proof fn lemma_through<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    ps: Seq<Parts<C>>, sts: Seq<Stores>, edb: int, cdb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, s: Seq<Token>, f: F,
    a: int, z: int, key: E::Key, lab: Seq<u8>, k: Keyword, t: Set<Iv>, w: Chain1<E::Key, Keyword>, sg: Seq<Seg>)
    requires
        edb != cdb, batches::<E, C, F>(ps, sts, edb, cdb, old_key, new_key, label, target, s, f), 0 <= a <= z <= ps.len(),
        indexed1::<E, C>(key, lab, k, t, sts[a], w, sg),
        forall|i: int| a <= i < z ==> clear::<E, C, Keyword>(w, (#[trigger] ps[i]).b) && !chunk(s, i).contains(w_tok::<E, Keyword>(w)),
    ensures indexed1::<E, C>(key, lab, k, t, sts[z], w, sg)
    decreases z - a
{
    hide(comp_reqs); hide(comp_data); hide(indexed1); hide(left); hide(chunk);
    if a < z {
        let i = z - 1;
        lemma_through::<E, C, F>(ps, sts, edb, cdb, old_key, new_key, label, target, s, f, a, i, key, lab, k, t, w, sg);
        let p = ps[i];
        assert(clear::<E, C, Keyword>(w, p.b));
        assert(batch_at::<E, C, F>(ps[i], sts[i], sts[i + 1], edb, cdb, old_key, new_key, label, target, chunk(s, i), f));
        let q = p.n.skip(2);
        assert(q.take(4) =~= q);
        assert(!p.b.d.entries@.contains_key(w_tok::<E, Keyword>(w))) by { if p.b.d.entries@.contains_key(w_tok::<E, Keyword>(w)) { lemma_batch_tokens::<E, C>(old_key, target, chunk(s, i), sts[i], p.g, p.b.d, w_tok::<E, Keyword>(w)); } }
        theorem_compact_other::<E, C>(q, edb, cdb, p.b, sts[i], 4, key, lab, k, t, w, sg);
    }
}
pub proof fn lemma_batch_tokens<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(old_key: E::Key, target: Set<Token>, tokens: Set<Token>, st: Stores, g: Map<Token, HashSet<Iv>>, d: CompactingData<C>, u: Token)
    requires gprepared::<E, C, Keyword, Data>(old_key, tokens, target, st.e, st.c, g, d), d.entries@.contains_key(u)
    ensures tokens.contains(u)
{ reveal(gprepared); }
/// Each token is in one batch, and in one only.
pub proof fn lemma_chunks(s: Seq<Token>, u: Token) -> (i: int)
    requires s.no_duplicates(), s.to_set().contains(u)
    ensures 0 <= i < s.len() as int / 1_000_000 + 1, forall|j: int| 0 <= j < s.len() as int / 1_000_000 + 1 ==> (#[trigger] chunk(s, j).contains(u) <==> j == i)
{
    let p = choose|p: int| 0 <= p < s.len() && s[p] == u;
    let i = p / 1_000_000;
    assert forall|j: int| 0 <= j < s.len() as int / 1_000_000 + 1 implies (#[trigger] chunk(s, j).contains(u) <==> j == i) by {
        let hi = if (j + 1) * 1_000_000 <= s.len() { (j + 1) * 1_000_000 } else { s.len() as int };
        let lo = j * 1_000_000;
        let x = s.subrange(lo, hi);
        if j == i { assert(x[p - lo] == u); assert(x.contains(u)); }
        if x.contains(u) { let a = choose|a: int| 0 <= a < x.len() && x[a] == u; assert(s[a + lo] == u); assert(a + lo == p); }
    }
    i
}
pub proof fn lemma_no_chunk(s: Seq<Token>, u: Token, j: int)
    requires !s.to_set().contains(u), 0 <= j < s.len() as int / 1_000_000 + 1
    ensures !chunk(s, j).contains(u)
{
    let hi = if (j + 1) * 1_000_000 <= s.len() { (j + 1) * 1_000_000 } else { s.len() as int };
    let lo = j * 1_000_000;
    let x = s.subrange(lo, hi);
    if x.contains(u) { let a = choose|a: int| 0 <= a < x.len() && x[a] == u; assert(s[a + lo] == u); assert(s.contains(u)); }
}
/// THEOREM (compaction, complete): when every batch of a compaction went through, each keyword holds
/// under the new key and label what the filter of its batch has left of it - everything when its chain
/// was not rewritten - and nothing is left under its old entry token.
pub proof fn theorem_compacted<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    ps: Seq<Parts<C>>, sts: Seq<Stores>, edb: int, cdb: int, old_key: E::Key, old_label: Seq<u8>, new_key: E::Key, label: Seq<u8>, target: Set<Token>, s: Seq<Token>, f: F,
    i: int, k: Keyword, t: Set<Iv>, t2: Set<Iv>, w: Chain1<E::Key, Keyword>, v: Chain1<E::Key, Keyword>, sg: Seq<Seg>) -> (s2: Seq<Seg>)
    requires
        edb != cdb, batches::<E, C, F>(ps, sts, edb, cdb, old_key, new_key, label, target, s, f), ps.len() == s.len() as int / 1_000_000 + 1,
        s.no_duplicates(), s.to_set() == sts[0].e.dom(),
        indexed1::<E, C>(old_key, old_label, k, t, sts[0], w, sg), sg.len() > 0,
        0 <= i < ps.len(), chunk(s, i).contains(w_tok::<E, Keyword>(w)),
        forall|j: int| 0 <= j < ps.len() && j != i ==> clear::<E, C, Keyword>(w, (#[trigger] ps[j]).b) && clear::<E, C, Keyword>(v, ps[j].b),
        heir::<E, C, Keyword>(w, v, new_key, label, ps[i].b), apart_batch::<E, C, Keyword>(w, v, sts[i], new_key, label, ps[i].b), chain_differs::<E::Key, C, Keyword>(v),
        !sts[0].e.contains_key(w_tok::<E, Keyword>(v)),
        forall|x: Iv| #[trigger] t2.contains(x) <==> remains(target.contains(w_tok::<E, Keyword>(w)), ps[i].kept@, t, x),
    ensures
        indexed1::<E, C>(new_key, label, k, t2, sts.last(), v, s2),
        !target.contains(w_tok::<E, Keyword>(w)) ==> s2 == sg,
        !sts[i + 1].e.contains_key(w_tok::<E, Keyword>(w)),
{
    hide(comp_reqs); hide(comp_data); hide(indexed1); hide(left); hide(chunk); hide(heir); hide(apart_batch);
    let u = w_tok::<E, Keyword>(w);
    let nu = w_tok::<E, Keyword>(v);
    let i2 = lemma_in_chunks(s, u, i);
    assert forall|j: int| 0 <= j < i implies clear::<E, C, Keyword>(w, (#[trigger] ps[j]).b) && !chunk(s, j).contains(u) by {}
    lemma_through::<E, C, F>(ps, sts, edb, cdb, old_key, new_key, label, target, s, f, 0, i, old_key, old_label, k, t, w, sg);
    let p = ps[i];
    assert(batch_at::<E, C, F>(ps[i], sts[i], sts[i + 1], edb, cdb, old_key, new_key, label, target, chunk(s, i), f));
    let q = p.n.skip(2);
    assert(q.take(4) =~= q);
    assert(ev_ok(q[0]) && ev_ok(q[1])) by { assert(ev_ok(p.n[2]) && ev_ok(p.n[3])); }
    let s2 = theorem_compact_cut::<E, C, F>(p.n, edb, cdb, old_key, old_label, new_key, label, target, chunk(s, i), f, p.g, p.r, p.asked, p.kept, p.b, sts[i], 4, k, t, t2, w, v, sg);
    theorem_compact_clean::<E, C, F>(p.n, edb, cdb, old_key, old_label, new_key, label, target, chunk(s, i), f, p.g, p.r, p.asked, p.kept, p.b, sts[i], k, t, w, sg);
    assert forall|j: int| i + 1 <= j < ps.len() implies clear::<E, C, Keyword>(v, (#[trigger] ps[j]).b) && !chunk(s, j).contains(nu) by { lemma_no_chunk(s, nu, j); }
    lemma_through::<E, C, F>(ps, sts, edb, cdb, old_key, new_key, label, target, s, f, i + 1, ps.len() as int, new_key, label, k, t2, v, s2);
    s2
}
pub proof fn lemma_in_chunks(s: Seq<Token>, u: Token, i: int) -> (r: int)
    requires s.no_duplicates(), chunk(s, i).contains(u), 0 <= i < s.len() as int / 1_000_000 + 1
    ensures r == i, forall|j: int| 0 <= j < s.len() as int / 1_000_000 + 1 ==> (#[trigger] chunk(s, j).contains(u) <==> j == i)
{
    if !s.to_set().contains(u) { lemma_no_chunk(s, u, i); }
    lemma_chunks(s, u)
}
// ------------------------------------------------------------------ from the requests of `compact`
pub proof fn lemma_left_concat(st: Stores, a: Seq<Ev>, b: Seq<Ev>, edb: int)
    ensures left(st, a + b, edb) == left(left(st, a, edb), b, edb)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        lemma_left_concat(st, a, b.drop_last(), edb);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}
/// Requests that run alone, cut in two.
pub proof fn lemma_alone_cut(st: Stores, n: Seq<Ev>, edb: int, a: int, b: int)
    requires alone(st, n, edb), 0 <= a <= b <= n.len()
    ensures
        alone(left(st, n.take(a), edb), n.subrange(a, b), edb),
        left(left(st, n.take(a), edb), n.subrange(a, b), edb) == left(st, n.take(b), edb),
{
    let m = n.subrange(a, b);
    let x = left(st, n.take(a), edb);
    assert forall|i: int| 0 <= i < m.len() implies ev_pre(#[trigger] m[i]) == sto(left(x, m.take(i), edb), edb, ev_db(m[i])) by {
        lemma_left_concat(st, n.take(a), m.take(i), edb);
        assert(n.take(a) + m.take(i) =~= n.take(a + i));
        assert(m[i] == n[a + i]);
    }
    lemma_left_concat(st, n.take(a), m, edb);
    assert(n.take(a) + m =~= n.take(b));
}
pub open spec fn parts_of<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, tokens: Set<Token>, f: F, p: Parts<C>) -> bool
{
    p.n == n && batch_is::<E, C, F>(p.n, edb, cdb, old_key, new_key, label, target, tokens, f, p.g, p.r, p.asked, p.kept, p.b)
}
pub proof fn lemma_batch_alone<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    p: Parts<C>, st: Stores, edb: int, cdb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, tokens: Set<Token>, f: F)
    requires
        edb != cdb, parts_of::<E, C, F>(p.n, edb, cdb, old_key, new_key, label, target, tokens, f, p), p.n.len() == 6, all_evs_ok(p.n), p.n[0] is Get, p.n[1] is Get, alone(st, p.n, edb),
    ensures batch_at::<E, C, F>(p, st, left(st, p.n, edb), edb, cdb, old_key, new_key, label, target, tokens, f)
{
    hide(gprepared); hide(comp_reqs); hide(comp_data); hide(encoded_at);
    let n = p.n;
    lemma_left(st, n, edb, 0);
    lemma_left(st, n, edb, 1);
    assert(left(st, n.take(1), edb) == st);
    assert(left(st, n.take(2), edb) == st);
    lemma_alone_cut(st, n, edb, 2, 6);
    assert(n.subrange(2, 6) =~= n.skip(2));
    assert(n.take(6) =~= n);
}
/// What a complete compaction has done, when nothing else wrote in the stores meanwhile, is a sequence
/// of batches, as `theorem_compacted` wants it.
pub proof fn theorem_batches<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashSet<Data>) -> Result<HashSet<Data>, String>>(
    n: Seq<Ev>, edb: int, cdb: int, ddb: int, old_key: E::Key, new_key: E::Key, label: Seq<u8>, target: Set<Token>, s: Seq<Token>, k: int, f: F, st: Stores) -> (r: (Seq<Parts<C>>, Seq<Stores>))
    requires
        edb != cdb, compact_part::<E, C, F>(n, edb, cdb, ddb, old_key, new_key, label, target, s, k, f),
        ev_pre(n[0]) == st.e, alone(st, n.skip(1), edb),
    ensures
        r.0.len() == k, r.1[0] == st, r.1.last() == left(st, n.skip(1), edb), batches::<E, C, F>(r.0, r.1, edb, cdb, old_key, new_key, label, target, s, f),
        s.no_duplicates() && s.to_set() == st.e.dom(),
{
    hide(batch_is); hide(batch_log); hide(chunk);
    reveal(batches_done);
    let m = n.skip(1);
    let ps = Seq::new(k as nat, |i: int| choose|p: Parts<C>| parts_of::<E, C, F>(batch_evs(n, i), edb, cdb, old_key, new_key, label, target, chunk(s, i), f, p));
    let sts = Seq::new((k + 1) as nat, |i: int| left(st, m.take(6 * i), edb));
    assert(m.take(0) =~= Seq::<Ev>::empty());
    assert(m.take(6 * k) =~= m);
    assert forall|i: int| 0 <= i < ps.len() implies #[trigger] batch_at::<E, C, F>(ps[i], sts[i], sts[i + 1], edb, cdb, old_key, new_key, label, target, chunk(s, i), f) by {
        let b = batch_evs(n, i);
        assert(batch_done::<E, C, F>(b, edb, cdb, old_key, new_key, label, target, chunk(s, i), f));
        lemma_batch_is::<E, C, F>(b, edb, cdb, old_key, new_key, label, target, chunk(s, i), f);
        let (g, r, a, kp, bt) = choose|g: Map<Token, HashSet<Iv>>, r: Map<Token, HashSet<Iv>>, a: HashSet<Data>, kp: HashSet<Data>, bt: Batch<C>|
            #[trigger] batch_is::<E, C, F>(b, edb, cdb, old_key, new_key, label, target, chunk(s, i), f, g, r, a, kp, bt);
        assert(parts_of::<E, C, F>(b, edb, cdb, old_key, new_key, label, target, chunk(s, i), f, Parts { n: b, g, r, asked: a, kept: kp, b: bt }));
        let p = ps[i];
        assert(parts_of::<E, C, F>(b, edb, cdb, old_key, new_key, label, target, chunk(s, i), f, p));
        lemma_alone_cut(st, m, edb, 6 * i, 6 * i + 6);
        assert(m.subrange(6 * i, 6 * i + 6) =~= b);
        assert(b[0] is Get && b[1] is Get) by { reveal(batch_log); assert(b.take(2)[0] == b[0] && b.take(2)[1] == b[1]); }
        lemma_batch_alone::<E, C, F>(p, sts[i], edb, cdb, old_key, new_key, label, target, chunk(s, i), f);
    }
    (ps, sts)
}
} // mod hist
