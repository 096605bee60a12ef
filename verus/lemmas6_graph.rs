// ------------------------------------------------------------------ indexed values
/// Serialized indexed value: a kind byte, then the bytes of the keyword or of the data.
pub open spec fn iv_bytes<Tag: VAsRef, Data: VAsRef>(v: IndexedValue<Tag, Data>) -> Seq<u8> {
    match v { IndexedValue::Pointer(t) => seq![119u8] + t.v_bytes(), IndexedValue::Data(d) => seq![108u8] + d.v_bytes() }
}
pub open spec fn iv_known(b: Seq<u8>) -> bool { b.len() > 0 && (b[0] == 119 || b[0] == 108) }
/// `v` is what the bytes `b` stand for.
pub open spec fn iv_is<Tag: VFrom<Vec<u8>>, Data: VFrom<Vec<u8>>>(b: Seq<u8>, v: IndexedValue<Tag, Data>) -> bool {
    b.len() > 0 && match v {
        IndexedValue::Pointer(t) => b[0] == 119 && Tag::vfrom_spec(mk_vec(b.subrange(1, b.len() as int)), t),
        IndexedValue::Data(d) => b[0] == 108 && Data::vfrom_spec(mk_vec(b.subrange(1, b.len() as int)), d),
    }
}
/// The kind and the bytes of keywords and data are read back.
pub proof fn lemma_iv_round_trip(v: IndexedValue<Keyword, Data>, b: Seq<u8>, w: IndexedValue<Keyword, Data>)
    requires b == iv_bytes(v)
    ensures iv_is(b, w) <==> w == v, iv_known(b), b.len() > 0
{
    broadcast use all_axioms;
    let t = b.subrange(1, b.len() as int);
    match v {
        IndexedValue::Pointer(k) => { assert(t =~= k.0@); assert(mk_vec(t) == k.0); }
        IndexedValue::Data(d) => { assert(t =~= d.0@); assert(mk_vec(t) == d.0); }
    }
}
/// What is given to the multi-map for the items of the graph.
pub open spec fn iv_mods<Tag: VAsRef, Value: VAsRef>(l: Seq<(Operation, IndexedValue<Tag, Value>)>) -> Seq<(Operation, Vec<u8>)> {
    Seq::new(l.len(), |i: int| (l[i].0, mk_vec(iv_bytes(l[i].1))))
}
pub open spec fn graph_mods<K, Tag: VAsRef, Value: VAsRef>(m: Map<K, Vec<(Operation, IndexedValue<Tag, Value>)>>) -> Map<K, Vec<(Operation, Vec<u8>)>> {
    m.map_values(|l: Vec<(Operation, IndexedValue<Tag, Value>)>| mk_vec(iv_mods(l@)))
}
pub proof fn lemma_graph_mods<Tag: VAsRef, Value: VAsRef>(m: Map<Tag, Vec<(Operation, IndexedValue<Tag, Value>)>>, s: Seq<(Tag, Vec<(Operation, IndexedValue<Tag, Value>)>)>, t: Seq<(Tag, Vec<(Operation, Vec<u8>)>)>)
    requires
        enum_map(s, m), s.len() == t.len(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).0 == s[i].0 && t[i].1@ == iv_mods(s[i].1@),
    ensures seq_to_map(t) == graph_mods(m), seq_to_map(t).dom() == m.dom()
{
    broadcast use all_axioms;
    lemma_stm_map(s, m, t);
    let x = seq_to_map(t);
    let y = graph_mods(m);
    assert(x.dom() =~= y.dom());
    assert forall|k: Tag| x.contains_key(k) implies #[trigger] x[k] == y[k] by {
        assert(m.contains_key(k));
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, m[k]) && t[i] == (k, x[k]);
        assert(x[k]@ == iv_mods(m[k]@));
        assert(mk_vec(x[k]@) == x[k]);
    }
    assert(x =~= y);
}
// ------------------------------------------------------------------ walks
pub open spec fn edge<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, a: Tag, b: Tag) -> bool {
    graph.contains_key(a) && graph[a]@.contains(IndexedValue::<Tag, Item>::Pointer(b))
}
pub open spec fn closed<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, s: spec_fn(Tag) -> bool) -> bool {
    forall|a: Tag, b: Tag| #[trigger] edge(graph, a, b) && s(a) ==> s(b)
}
/// `b` can be reached from `a`: it is in every set that contains `a` and is closed under the edges.
pub open spec fn reach<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, a: Tag, b: Tag) -> bool {
    forall|s: spec_fn(Tag) -> bool| #[trigger] closed(graph, s) && s(a) ==> s(b)
}
pub open spec fn new_in<Tag>(v0: Set<&Tag>, v1: Set<&Tag>, x: Tag) -> bool { v1.contains(&x) && !v0.contains(&x) }
pub open spec fn data_at<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, x: Tag, d: Item) -> bool {
    graph.contains_key(x) && graph[x]@.contains(IndexedValue::<Tag, Item>::Data(d))
}
pub open spec fn some_data<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, v0: Set<&Tag>, v1: Set<&Tag>, d: Item) -> bool {
    exists|x: Tag| #[trigger] new_in(v0, v1, x) && data_at(graph, x, d)
}
/// The walk has visited the tags of `v1`, starting from `entry` with those of `v0` visited.
pub open spec fn walked<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, entry: Tag, v0: Set<&Tag>, v1: Set<&Tag>) -> bool {
    &&& v0.subset_of(v1) && v1.contains(&entry)
    &&& forall|x: Tag, c: Tag| #[trigger] edge(graph, x, c) && new_in(v0, v1, x) ==> v1.contains(&c)
    &&& forall|x: Tag| #[trigger] new_in(v0, v1, x) ==> reach(graph, entry, x)
}
pub open spec fn walk_data<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, v0: Set<&Tag>, v1: Set<&Tag>, res: Set<Item>) -> bool {
    forall|d: Item| #[trigger] res.contains(d) <==> some_data(graph, v0, v1, d)
}
/// What a walk that starts with nothing visited returns.
pub open spec fn all_data<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, entry: Tag, res: Set<Item>) -> bool {
    forall|d: Item| #[trigger] res.contains(d) <==> reach_data(graph, entry, d)
}
pub open spec fn reach_data<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, entry: Tag, d: Item) -> bool {
    exists|x: Tag| #[trigger] reach(graph, entry, x) && data_at(graph, x, d)
}
pub proof fn lemma_walk_all<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, entry: Tag, v0: Set<&Tag>, v1: Set<&Tag>, res: Set<Item>)
    requires v0 == Set::<&Tag>::empty(), walked(graph, entry, v0, v1), walk_data(graph, v0, v1, res)
    ensures all_data(graph, entry, res)
{
    let s = |x: Tag| v1.contains(&x);
    assert(closed(graph, s)) by {
        assert forall|a: Tag, b: Tag| #[trigger] edge(graph, a, b) && s(a) implies s(b) by { assert(new_in(v0, v1, a)); }
    }
    assert forall|d: Item| #[trigger] res.contains(d) <==> reach_data(graph, entry, d) by {
        if res.contains(d) { let x = choose|x: Tag| #[trigger] new_in(v0, v1, x) && data_at(graph, x, d); assert(reach(graph, entry, x)); }
        if reach_data(graph, entry, d) {
            let x = choose|x: Tag| #[trigger] reach(graph, entry, x) && data_at(graph, x, d);
            assert(s(entry)); assert(s(x)); assert(new_in(v0, v1, x));
        }
    }
}
pub proof fn lemma_reach_edge<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, a: Tag, b: Tag, c: Tag)
    requires edge(graph, a, b), reach(graph, b, c)
    ensures reach(graph, a, c)
{
    assert forall|s: spec_fn(Tag) -> bool| #[trigger] closed(graph, s) && s(a) implies s(c) by { assert(s(b)); }
}
/// How far a walk can still go.
pub open spec fn to_visit<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, v: Set<&Tag>) -> nat { graph.dom().filter(|t: Tag| !v.contains(&t)).len() }
pub proof fn lemma_to_visit<Tag, Item>(graph: Map<Tag, HashSet<IndexedValue<Tag, Item>>>, v0: Set<&Tag>, v1: Set<&Tag>)
    requires v0.subset_of(v1)
    ensures
        to_visit(graph, v1) <= to_visit(graph, v0),
        forall|t: Tag| #![trigger graph.contains_key(t)] graph.contains_key(t) && !v0.contains(&t) && v1.contains(&t) ==> to_visit(graph, v1) < to_visit(graph, v0),
{
    let a = graph.dom().filter(|t: Tag| !v0.contains(&t));
    let b = graph.dom().filter(|t: Tag| !v1.contains(&t));
    assert(b.subset_of(a));
    vstd::set_lib::lemma_len_subset(b, a);
    assert forall|t: Tag| #![trigger graph.contains_key(t)] graph.contains_key(t) && !v0.contains(&t) && v1.contains(&t) implies b.len() < a.len() by {
        assert(a.contains(t) && !b.contains(t));
        assert(b.subset_of(a.remove(t)));
        vstd::set_lib::lemma_len_subset(b, a.remove(t));
    }
}
// ------------------------------------------------------------------ rounds of a search
/// One round of a search: the keywords looked for, what was read, its decoding, and what the
/// interrupt function answered.
#[verifier::reject_recursive_types(Tag)]
#[verifier::reject_recursive_types(Value)]
pub struct Round<Tag, Value> { pub tags: Set<Tag>, pub m: Map<Tag, HashSet<Vec<u8>>>, pub g: HashMap<Tag, HashSet<IndexedValue<Tag, Value>>>, pub stop: bool }
/// `s` is the set of the values that the serialized values of `b` stand for.
pub open spec fn iv_in<Tag: VFrom<Vec<u8>>, Value: VFrom<Vec<u8>>>(s: Set<IndexedValue<Tag, Value>>, b: Seq<u8>) -> bool {
    exists|w: IndexedValue<Tag, Value>| #[trigger] s.contains(w) && iv_is(b, w)
}
pub open spec fn iv_from<Tag: VFrom<Vec<u8>>, Value: VFrom<Vec<u8>>>(m: Set<Vec<u8>>, w: IndexedValue<Tag, Value>) -> bool {
    exists|b: Vec<u8>| #[trigger] m.contains(b) && iv_is(b@, w)
}
pub open spec fn dec_set<Tag: VFrom<Vec<u8>>, Value: VFrom<Vec<u8>>>(m: Set<Vec<u8>>, s: Set<IndexedValue<Tag, Value>>) -> bool {
    &&& forall|w: IndexedValue<Tag, Value>| #[trigger] s.contains(w) ==> iv_from(m, w)
    &&& forall|b: Vec<u8>| #[trigger] m.contains(b) ==> iv_in(s, b@)
}
pub open spec fn decoded<Tag: VFrom<Vec<u8>>, Value: VFrom<Vec<u8>>>(m: Map<Tag, HashSet<Vec<u8>>>, g: Map<Tag, HashSet<IndexedValue<Tag, Value>>>) -> bool {
    &&& m.dom() == g.dom()
    &&& forall|t: Tag| #[trigger] g.contains_key(t) ==> dec_set(m[t]@, g[t]@)
}
pub open spec fn child_in<Tag, Value>(g: Map<Tag, HashSet<IndexedValue<Tag, Value>>>, c: Tag) -> bool { exists|t: Tag| edge(g, t, c) }
/// `tags` are the children found in `g` that are not bound in `old`.
pub open spec fn is_frontier<Tag, Value>(old: Map<Tag, HashSet<IndexedValue<Tag, Value>>>, g: Map<Tag, HashSet<IndexedValue<Tag, Value>>>, tags: Set<Tag>) -> bool {
    forall|c: Tag| #[trigger] tags.contains(c) <==> child_in(g, c) && !old.contains_key(c)
}
/// What the rounds read, the last reading winning.
pub open spec fn graph_of<Tag, Value>(rs: Seq<Round<Tag, Value>>) -> Map<Tag, HashSet<IndexedValue<Tag, Value>>>
    decreases rs.len()
{
    if rs.len() == 0 { Map::empty() } else { graph_of(rs.drop_last()).union_prefer_right(rs.last().g@) }
}
/// `tags` is what is looked for after the rounds `rs`.
pub open spec fn is_next<Tag, Value>(tags0: Set<Tag>, rs: Seq<Round<Tag, Value>>, tags: Set<Tag>) -> bool {
    if rs.len() == 0 { tags == tags0 }
    else if rs.last().stop { tags == Set::<Tag>::empty() }
    else { is_frontier(graph_of(rs.drop_last()), rs.last().g@, tags) }
}
pub open spec fn round_ok<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef + VFrom<Vec<u8>>, Value: VFrom<Vec<u8>>, F: Fn(HashMap<Tag, HashSet<IndexedValue<Tag, Value>>>) -> Result<bool, String>>(
    e1: Ev, e2: Ev, edb: int, cdb: int, key: E::Key, label: Seq<u8>, interrupt: F, rd: Round<Tag, Value>) -> bool
{
    &&& e1 matches Ev::Get { db, keys, .. } && db == edb && keys == tag_toks::<E, Tag>(key, rd.tags, label)
    &&& e2 matches Ev::Get { db, .. } && db == cdb
    &&& ev_ok(e1) && ev_ok(e2)
    &&& mm_got::<E, C, Tag>(key, rd.tags, label, ev_pre(e1), ev_pre(e2), rd.m)
    &&& decoded(rd.m, rd.g@)
    &&& interrupt.ensures((rd.g,), Ok(rd.stop))
}
#[verifier::opaque]
pub open spec fn rounds_ok<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef + VFrom<Vec<u8>>, Value: VFrom<Vec<u8>>, F: Fn(HashMap<Tag, HashSet<IndexedValue<Tag, Value>>>) -> Result<bool, String>>(
    n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, interrupt: F, tags0: Set<Tag>, rs: Seq<Round<Tag, Value>>) -> bool
{
    &&& n.len() == 2 * rs.len()
    &&& forall|i: int| 0 <= i < rs.len() ==> round_ok::<E, C, Tag, Value, F>(n[2 * i], n[2 * i + 1], edb, cdb, key, label, interrupt, #[trigger] rs[i])
        && is_next(tags0, rs.take(i), rs[i].tags) && rs[i].tags != Set::<Tag>::empty()
}
/// What a search of the graph is: rounds, up to one with nothing more to look for.
pub open spec fn gx_got<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef + VFrom<Vec<u8>>, Value: VFrom<Vec<u8>>, F: Fn(HashMap<Tag, HashSet<IndexedValue<Tag, Value>>>) -> Result<bool, String>>(
    n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, interrupt: F, tags0: Set<Tag>, g: Map<Tag, HashSet<IndexedValue<Tag, Value>>>) -> bool
{
    exists|rs: Seq<Round<Tag, Value>>| #[trigger] rounds_ok::<E, C, Tag, Value, F>(n, edb, cdb, key, label, interrupt, tags0, rs)
        && is_next(tags0, rs, Set::<Tag>::empty()) && g == graph_of(rs)
}
pub open spec fn all_gets(n: Seq<Ev>, edb: int, cdb: int) -> bool {
    forall|i: int| 0 <= i < n.len() ==> (#[trigger] n[i] matches Ev::Get { db, .. } && (db == edb || db == cdb))
}
pub proof fn lemma_frontier_step<Tag, Value>(g0: Map<Tag, HashSet<IndexedValue<Tag, Value>>>, l0: Map<Tag, HashSet<IndexedValue<Tag, Value>>>, l1: Map<Tag, HashSet<IndexedValue<Tag, Value>>>, tag: Tag, t0: Set<Tag>, t1: Set<Tag>)
    requires
        is_frontier(g0, l0, t0), !l0.contains_key(tag), l1 == l0.insert(tag, l1[tag]),
        forall|c: Tag| #[trigger] t1.contains(c) <==> t0.contains(c) || (l1[tag]@.contains(IndexedValue::<Tag, Value>::Pointer(c)) && !g0.contains_key(c)),
    ensures is_frontier(g0, l1, t1)
{
    assert forall|c: Tag| #[trigger] t1.contains(c) <==> child_in(l1, c) && !g0.contains_key(c) by {
        if child_in(l1, c) {
            let t = choose|t: Tag| edge(l1, t, c);
            if t != tag { assert(edge(l0, t, c)); }
        }
        if child_in(l0, c) { let t = choose|t: Tag| edge(l0, t, c); assert(edge(l1, t, c)); }
        if l1[tag]@.contains(IndexedValue::<Tag, Value>::Pointer(c)) { assert(edge(l1, tag, c)); }
    }
}
pub proof fn lemma_round_push<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef + VFrom<Vec<u8>>, Value: VFrom<Vec<u8>>, F: Fn(HashMap<Tag, HashSet<IndexedValue<Tag, Value>>>) -> Result<bool, String>>(
    n1: Seq<Ev>, n2: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, interrupt: F, tags0: Set<Tag>, rs: Seq<Round<Tag, Value>>, rd: Round<Tag, Value>)
    requires
        rounds_ok::<E, C, Tag, Value, F>(n1, edb, cdb, key, label, interrupt, tags0, rs),
        n2.len() == 2, round_ok::<E, C, Tag, Value, F>(n2[0], n2[1], edb, cdb, key, label, interrupt, rd),
        is_next(tags0, rs, rd.tags), rd.tags != Set::<Tag>::empty(),
    ensures rounds_ok::<E, C, Tag, Value, F>(n1 + n2, edb, cdb, key, label, interrupt, tags0, rs.push(rd))
{
    reveal(rounds_ok);
    let n = n1 + n2;
    let q = rs.push(rd);
    assert forall|i: int| 0 <= i < q.len() implies round_ok::<E, C, Tag, Value, F>(n[2 * i], n[2 * i + 1], edb, cdb, key, label, interrupt, #[trigger] q[i])
        && is_next(tags0, q.take(i), q[i].tags) && q[i].tags != Set::<Tag>::empty() by {
        if i < rs.len() { assert(q[i] == rs[i]); assert(q.take(i) =~= rs.take(i)); }
        else { assert(q.take(i) =~= rs); }
    }
}
pub proof fn lemma_extend<K, V>(g0: Map<K, V>, lg: Map<K, V>, g1: Map<K, V>)
    requires exists|s: Seq<(K, V)>| #[trigger] enum_map(s, lg) && g1 == g0.union_prefer_right(seq_to_map(s))
    ensures g1 == g0.union_prefer_right(lg)
{
    let s = choose|s: Seq<(K, V)>| #[trigger] enum_map(s, lg) && g1 == g0.union_prefer_right(seq_to_map(s));
    lemma_stm_enum(s, lg);
}
/// The requests of a part of an operation, appended.
pub proof fn lemma_gets_append(w0: World, w1: World, edb: int, cdb: int)
    requires grew(w0, w1), all_gets(new_evs(w0, w1), edb, cdb)
    ensures forall|w: World| #[trigger] grew(w1, w) && all_gets(new_evs(w1, w), edb, cdb) ==> grew(w0, w) && new_evs(w0, w) == new_evs(w0, w1) + new_evs(w1, w) && all_gets(new_evs(w0, w), edb, cdb)
{
    assert forall|w: World| #[trigger] grew(w1, w) && all_gets(new_evs(w1, w), edb, cdb) implies grew(w0, w) && new_evs(w0, w) == new_evs(w0, w1) + new_evs(w1, w) && all_gets(new_evs(w0, w), edb, cdb) by {
        lemma_grew2(w0, w1, w);
        let n = new_evs(w0, w);
        assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i] matches Ev::Get { db, .. } && (db == edb || db == cdb)) by {
            if i < new_evs(w0, w1).len() { assert(n[i] == new_evs(w0, w1)[i]); } else { assert(n[i] == new_evs(w1, w)[i - new_evs(w0, w1).len()]); }
        }
    }
}
pub proof fn lemma_grew0(w: World)
    ensures grew(w, w), new_evs(w, w) == Seq::<Ev>::empty()
{
    assert(w.log.take(w.log.len() as int) =~= w.log);
    assert(new_evs(w, w) =~= Seq::<Ev>::empty());
}
