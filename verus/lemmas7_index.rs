// ------------------------------------------------------------------ the operations of the index
pub open spec fn searched<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, F: Fn(HashMap<Keyword, HashSet<IndexedValue<Keyword, Data>>>) -> Result<bool, String>>(
    n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, interrupt: F, kws: Set<Keyword>, m: Map<Keyword, HashSet<Data>>) -> bool
{
    exists|g: Map<Keyword, HashSet<IndexedValue<Keyword, Data>>>| #[trigger] gx_got::<E, C, Keyword, Data, F>(n, edb, cdb, key, label, interrupt, kws, g) && data_from(g, kws, m)
}
/// The result of a search of the keywords `kws` in the graph `g`.
pub open spec fn data_from(g: Map<Keyword, HashSet<IndexedValue<Keyword, Data>>>, kws: Set<Keyword>, m: Map<Keyword, HashSet<Data>>) -> bool {
    m.dom() == kws && forall|k: Keyword| #[trigger] m.contains_key(k) ==> all_data(g, k, m[k]@)
}
pub open spec fn walk_res<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, entry: Tag, res: Set<Item>) -> bool {
    exists|v1: Set<&Tag>| walked(graph, entry, Set::<&Tag>::empty(), v1) && #[trigger] walk_data(graph, Set::<&Tag>::empty(), v1, res)
}
pub proof fn lemma_walk_any<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, entry: Tag, res: Set<Item>)
    requires walk_res(graph, entry, res)
    ensures all_data(graph, entry, res)
{
    let v1 = choose|v1: Set<&Tag>| walked(graph, entry, Set::<&Tag>::empty(), v1) && #[trigger] walk_data(graph, Set::<&Tag>::empty(), v1, res);
    lemma_walk_all(graph, entry, Set::<&Tag>::empty(), v1, res);
}
pub type Iv = IndexedValue<Keyword, Data>;
/// `k` is one of the keywords of the value `v`.
pub open spec fn named_by(adds: Map<Iv, Keywords>, v: Iv, k: Keyword) -> bool { adds.contains_key(v) && adds[v].0@.contains(k) }
pub open spec fn named(adds: Map<Iv, Keywords>, k: Keyword) -> bool { exists|v: Iv| #[trigger] named_by(adds, v, k) }
/// The changes asked for, keyword by keyword: each value once, in some order.
pub open spec fn mods_for(op: Operation, adds: Map<Iv, Keywords>, mods: Map<Keyword, Vec<(Operation, Iv)>>) -> bool {
    &&& forall|k: Keyword| #[trigger] mods.contains_key(k) <==> named(adds, k)
    &&& forall|k: Keyword| #[trigger] mods.contains_key(k) ==> mods_list(op, adds, k, mods[k]@)
}
pub open spec fn mods_list(op: Operation, adds: Map<Iv, Keywords>, k: Keyword, l: Seq<(Operation, Iv)>) -> bool {
    &&& l.no_duplicates()
    &&& forall|x: (Operation, Iv)| #[trigger] l.contains(x) <==> x.0 == op && named_by(adds, x.1, k)
}
/// Different keywords have different tokens (the tokens are outputs of a keyed hash function).
pub open spec fn kws_differ<E: DxEnc<ENTRY_LENGTH>>(key: E::Key, label: Seq<u8>, adds: Map<Iv, Keywords>) -> bool {
    forall|a: Keyword, b: Keyword| #[trigger] named(adds, a) && #[trigger] named(adds, b) && tag_tok::<E>(key, a.v_bytes(), label) == tag_tok::<E>(key, b.v_bytes(), label) ==> a == b
}
pub open spec fn changed_log<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, op: Operation, adds: Map<Iv, Keywords>) -> bool {
    exists|mods: Map<Keyword, Vec<(Operation, Iv)>>| #[trigger] mods_for(op, adds, mods) && ins_log::<E, C, Keyword>(n, edb, cdb, key, label, graph_mods(mods))
}
pub open spec fn changed<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, op: Operation, adds: Map<Iv, Keywords>, nt: Set<Keyword>) -> bool {
    exists|mods: Map<Keyword, Vec<(Operation, Iv)>>| #[trigger] mods_for(op, adds, mods) && ins_full::<E, C, Keyword>(n, edb, cdb, key, label, graph_mods(mods), nt)
}
pub proof fn lemma_kws_differ<E: DxEnc<ENTRY_LENGTH>>(key: E::Key, label: Seq<u8>, op: Operation, adds: Map<Iv, Keywords>, mods: Map<Keyword, Vec<(Operation, Iv)>>)
    requires mods_for(op, adds, mods), kws_differ::<E>(key, label, adds)
    ensures toks_differ::<E, Keyword>(key, label, mods.dom())
{
    assert forall|a: Keyword, b: Keyword| #[trigger] mods.dom().contains(a) && #[trigger] mods.dom().contains(b) && tag_tok::<E>(key, a.v_bytes(), label) == tag_tok::<E>(key, b.v_bytes(), label) implies a == b by {
        assert(mods.contains_key(a) && mods.contains_key(b));
        assert(named(adds, a) && named(adds, b));
    }
}
/// The changes of the values listed in `s`.
pub open spec fn seq_named(s: Seq<(Iv, Keywords)>, k: Keyword, v: Iv) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == v && s[i].1.0@.contains(k) }
pub open spec fn has_change(mods: Map<Keyword, Vec<(Operation, Iv)>>, k: Keyword, x: (Operation, Iv)) -> bool { mods.contains_key(k) && mods[k]@.contains(x) }
pub open spec fn mods_wf(mods: Map<Keyword, Vec<(Operation, Iv)>>) -> bool {
    forall|k: Keyword| #[trigger] mods.contains_key(k) ==> mods[k]@.no_duplicates() && mods[k]@.len() > 0
}
pub open spec fn mods_done(op: Operation, s: Seq<(Iv, Keywords)>, mods: Map<Keyword, Vec<(Operation, Iv)>>) -> bool {
    &&& mods_wf(mods)
    &&& forall|k: Keyword, x: (Operation, Iv)| #[trigger] has_change(mods, k, x) <==> x.0 == op && seq_named(s, k, x.1)
}
/// The changes of `md1`, plus the value `v` for the keywords `ks`.
pub open spec fn mods_part(op: Operation, md1: Map<Keyword, Vec<(Operation, Iv)>>, v: Iv, ks: Seq<Keyword>, mods: Map<Keyword, Vec<(Operation, Iv)>>) -> bool {
    &&& mods_wf(mods)
    &&& forall|k: Keyword, x: (Operation, Iv)| #[trigger] has_change(mods, k, x) <==> has_change(md1, k, x) || (x == (op, v) && ks.contains(k))
}
pub proof fn lemma_change_push(op: Operation, md1: Map<Keyword, Vec<(Operation, Iv)>>, v: Iv, ks: Seq<Keyword>, i: int, md2: Map<Keyword, Vec<(Operation, Iv)>>, md3: Map<Keyword, Vec<(Operation, Iv)>>)
    requires
        0 <= i < ks.len(), ks.no_duplicates(), mods_part(op, md1, v, ks.take(i), md2),
        !has_change(md1, ks[i], (op, v)),
        md3 == md2.insert(ks[i], md3[ks[i]]),
        md3[ks[i]]@ == (if md2.contains_key(ks[i]) { md2[ks[i]]@ } else { Seq::<(Operation, Iv)>::empty() }).push((op, v)),
    ensures mods_part(op, md1, v, ks.take(i + 1), md3)
{
    let kw = ks[i];
    let t0 = ks.take(i);
    let t1 = ks.take(i + 1);
    assert(t1 =~= t0.push(kw));
    assert(!t0.contains(kw));
    let l2 = if md2.contains_key(kw) { md2[kw]@ } else { Seq::<(Operation, Iv)>::empty() };
    let l3 = md3[kw]@;
    assert(!has_change(md2, kw, (op, v)));
    assert(!l2.contains((op, v)));
    assert forall|k: Keyword, x: (Operation, Iv)| #[trigger] has_change(md3, k, x) <==> has_change(md1, k, x) || (x == (op, v) && t1.contains(k)) by {
        assert(t1.contains(k) <==> t0.contains(k) || k == kw) by {
            if t0.contains(k) { let j = choose|j: int| 0 <= j < t0.len() && t0[j] == k; assert(t1[j] == k); }
            assert(t1[i] == kw);
        }
        if k == kw {
            assert(l3.contains(x) <==> l2.contains(x) || x == (op, v)) by {
                if l2.contains(x) { let j = choose|j: int| 0 <= j < l2.len() && l2[j] == x; assert(l3[j] == x); }
                assert(l3[l2.len() as int] == (op, v));
            }
            assert(has_change(md2, k, x) <==> l2.contains(x));
        } else { assert(has_change(md3, k, x) <==> has_change(md2, k, x)); }
    }
    assert forall|k: Keyword| #[trigger] md3.contains_key(k) implies md3[k]@.no_duplicates() && md3[k]@.len() > 0 by {
        if k != kw { assert(md2.contains_key(k)); }
        else if md2.contains_key(kw) { assert(md2[kw]@.no_duplicates()); }
    }
}
pub proof fn lemma_mods_line(op: Operation, s: Seq<(Iv, Keywords)>, adds: Map<Iv, Keywords>, i: int, md1: Map<Keyword, Vec<(Operation, Iv)>>, kws: Set<Keyword>, ks: Seq<Keyword>, md: Map<Keyword, Vec<(Operation, Iv)>>)
    requires 0 <= i < s.len(), mods_done(op, s.take(i), md1), s[i].1.0@ == kws, enum_set(ks, kws), mods_part(op, md1, s[i].0, ks, md)
    ensures mods_done(op, s.take(i + 1), md)
{
    let s0 = s.take(i);
    let s1 = s.take(i + 1);
    assert forall|k: Keyword, x: (Operation, Iv)| #[trigger] has_change(md, k, x) <==> x.0 == op && seq_named(s1, k, x.1) by {
        assert(ks.contains(k) <==> ks.to_set().contains(k));
        if seq_named(s0, k, x.1) { let j = choose|j: int| 0 <= j < s0.len() && (#[trigger] s0[j]).0 == x.1 && s0[j].1.0@.contains(k); assert(s1[j] == s0[j]); }
        if x.1 == s[i].0 && kws.contains(k) { assert(s1[i] == s[i]); assert(seq_named(s1, k, x.1)); }
        if seq_named(s1, k, x.1) {
            let j = choose|j: int| 0 <= j < s1.len() && (#[trigger] s1[j]).0 == x.1 && s1[j].1.0@.contains(k);
            if j < i { assert(s0[j] == s1[j]); assert(seq_named(s0, k, x.1)); }
        }
        assert(has_change(md1, k, x) <==> x.0 == op && seq_named(s0, k, x.1));
    }
}
/// A value that is not listed yet has no change.
pub proof fn lemma_mods_fresh(op: Operation, s: Seq<(Iv, Keywords)>, adds: Map<Iv, Keywords>, i: int, md1: Map<Keyword, Vec<(Operation, Iv)>>)
    requires 0 <= i < s.len(), enum_map(s, adds), mods_done(op, s.take(i), md1)
    ensures forall|k: Keyword| !(#[trigger] has_change(md1, k, (op, s[i].0)))
{
    let s0 = s.take(i);
    assert forall|k: Keyword| !(#[trigger] has_change(md1, k, (op, s[i].0))) by {
        if has_change(md1, k, (op, s[i].0)) {
            assert(seq_named(s0, k, s[i].0));
            let j = choose|j: int| 0 <= j < s0.len() && (#[trigger] s0[j]).0 == s[i].0 && s0[j].1.0@.contains(k);
            assert(s[j].0 != s[i].0);
        }
    }
}
pub proof fn lemma_mods_all(op: Operation, s: Seq<(Iv, Keywords)>, adds: Map<Iv, Keywords>, mods: Map<Keyword, Vec<(Operation, Iv)>>)
    requires enum_map(s, adds), mods_done(op, s, mods)
    ensures mods_for(op, adds, mods)
{
    assert forall|k: Keyword, v: Iv| seq_named(s, k, v) <==> #[trigger] named_by(adds, v, k) by {
        if named_by(adds, v, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == v; assert(s[i].1 == adds[v]); }
        if seq_named(s, k, v) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == v && s[i].1.0@.contains(k); assert(adds[s[i].0] == s[i].1); }
    }
    assert forall|k: Keyword| #[trigger] mods.contains_key(k) implies mods_list(op, adds, k, mods[k]@) by {
        assert forall|x: (Operation, Iv)| #[trigger] mods[k]@.contains(x) <==> x.0 == op && named_by(adds, x.1, k) by { assert(has_change(mods, k, x) <==> mods[k]@.contains(x)); assert(seq_named(s, k, x.1) <==> named_by(adds, x.1, k)); }
    }
    assert forall|k: Keyword| #[trigger] mods.contains_key(k) <==> named(adds, k) by {
        if mods.contains_key(k) { let x = mods[k]@[0]; assert(mods[k]@.contains(x)); assert(has_change(mods, k, x)); assert(named_by(adds, x.1, k)); }
        if named(adds, k) { let v = choose|v: Iv| #[trigger] named_by(adds, v, k); assert(has_change(mods, k, (op, v))); }
    }
}
pub proof fn lemma_changed<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(edb: int, cdb: int, key: E::Key, label: Seq<u8>, op: Operation, adds: Map<Iv, Keywords>, mods: Map<Keyword, Vec<(Operation, Iv)>>)
    requires mods_for(op, adds, mods)
    ensures
        forall|n: Seq<Ev>| #[trigger] ins_log::<E, C, Keyword>(n, edb, cdb, key, label, graph_mods(mods)) ==> changed_log::<E, C>(n, edb, cdb, key, label, op, adds),
        forall|n: Seq<Ev>, nt: Set<Keyword>| #[trigger] ins_full::<E, C, Keyword>(n, edb, cdb, key, label, graph_mods(mods), nt) ==> changed::<E, C>(n, edb, cdb, key, label, op, adds, nt),
{}
