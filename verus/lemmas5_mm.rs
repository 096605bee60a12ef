// ------------------------------------------------------------------ chains of tokens
/// The `i`-th token of a chain: the first one is derived from `start`, each next one from the one before.
pub open spec fn chain_tok<C: DxEnc<LINK_LENGTH>>(key: C::Key, start: Seq<u8>, i: nat) -> Token
    decreases i
{
    if i == 0 { C::sp_tok(key, start, None) } else { C::sp_tok(key, chain_tok::<C>(key, start, (i - 1) as nat).0@, None) }
}
pub open spec fn chain_toks<C: DxEnc<LINK_LENGTH>>(key: C::Key, start: Seq<u8>, n: nat) -> Seq<Token> {
    Seq::new(n, |i: int| chain_tok::<C>(key, start, i as nat))
}
/// `toks` is the chain that starts at `start`, up to the first occurrence of `last`.
pub open spec fn unrolled<C: DxEnc<LINK_LENGTH>>(key: C::Key, start: Seq<u8>, last: Token, toks: Seq<Token>) -> bool {
    &&& toks.len() > 0
    &&& toks == chain_toks::<C>(key, start, toks.len())
    &&& toks.last() == last
    &&& forall|i: int| 0 <= i < toks.len() - 1 ==> #[trigger] toks[i] != last
}
/// Contents of an entry.
pub struct EntryV { pub tok: Option<Token>, pub seed: Seq<u8>, pub hash: Seq<u8> }
pub open spec fn entry_v(b: Seq<u8>) -> EntryV { EntryV { tok: de_entry_token(b), seed: de_entry_seed(b), hash: de_entry_hash(b) } }
pub open spec fn view_e<C: DxEnc<LINK_LENGTH>>(e: Entry<C>) -> EntryV { EntryV { tok: e.chain_token, seed: e.seed.v_bytes(), hash: e.tag_hash@ } }
/// The chain an entry refers to.
pub open spec fn chain_of<C: DxEnc<LINK_LENGTH>>(e: EntryV, toks: Seq<Token>) -> bool {
    match e.tok { None => toks.len() == 0, Some(last) => unrolled::<C>(C::sp_keys(e.seed), e.hash, last, toks) }
}
/// Deriving from the token `n - 1` continues the chain.
pub proof fn lemma_chain_shift<C: DxEnc<LINK_LENGTH>>(key: C::Key, start: Seq<u8>, n: nat, i: nat)
    requires n > 0
    ensures chain_tok::<C>(key, chain_tok::<C>(key, start, (n - 1) as nat).0@, i) == chain_tok::<C>(key, start, n + i)
    decreases i
{
    if i > 0 { lemma_chain_shift::<C>(key, start, n, (i - 1) as nat); assert(n + i - 1 == n + (i - 1)); }
}
/// The chain of an entry is unique.
pub proof fn lemma_chain_unique<C: DxEnc<LINK_LENGTH>>(e: EntryV, a: Seq<Token>, b: Seq<Token>)
    requires chain_of::<C>(e, a), chain_of::<C>(e, b)
    ensures a == b
{
    match e.tok {
        None => { assert(a =~= b); }
        Some(last) => {
            let k = C::sp_keys(e.seed);
            if a.len() < b.len() { assert(b[a.len() - 1] == a.last()); }
            if b.len() < a.len() { assert(a[b.len() - 1] == b.last()); }
        }
    }
}
// ------------------------------------------------------------------ entries
/// Entry token of a tag.
pub open spec fn tag_tok<E: DxEnc<ENTRY_LENGTH>>(key: E::Key, tag: Seq<u8>, label: Seq<u8>) -> Token {
    E::sp_tok(key, sha3_spec(tag), Some(label))
}
pub open spec fn tag_toks<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(key: E::Key, tags: Set<Tag>, label: Seq<u8>) -> Set<Token> {
    tags.map(|t: Tag| tag_tok::<E>(key, t.v_bytes(), label))
}
/// What is stored for the entry token `t`.
pub open spec fn entry_at<E: DxEnc<ENTRY_LENGTH>>(key: E::Key, s: Store, t: Token) -> Option<EntryV> {
    if s.contains_key(t) { match E::sp_open(key, s[t]) { Some(b) => Some(entry_v(b)), None => None } } else { None }
}
pub open spec fn entry_read<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, s: Store, t: Token, e: Entry<C>) -> bool {
    s.contains_key(t) && entry_at::<E>(key, s, t) == Some(view_e(e))
}
/// Every entry among `keys` opens.
pub open spec fn all_open<E: DxEnc<ENTRY_LENGTH>>(key: E::Key, s: Store, keys: Set<Token>) -> bool {
    forall|t: Token| #[trigger] keys.contains(t) && s.contains_key(t) ==> E::sp_open(key, s[t]) is Some
}
pub open spec fn last_ev(w: World) -> Ev { w.log.last() }
/// `l` lists what the store `s` holds for the tokens `keys`.
pub open spec fn entries_read<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, s: Store, keys: Set<Token>, l: Seq<(Token, Entry<C>)>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> keys.contains((#[trigger] l[i]).0) && entry_read::<E, C>(key, s, l[i].0, l[i].1)
    &&& forall|t: Token| #[trigger] keys.contains(t) && s.contains_key(t) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == t
}
pub open spec fn entries_read_by<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(key: E::Key, s: Store, tags: Set<Tag>, label: Seq<u8>, l: Seq<(Tag, Entry<C>)>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> tags.contains((#[trigger] l[i]).0) && entry_read::<E, C>(key, s, tag_tok::<E>(key, l[i].0.v_bytes(), label), l[i].1)
    &&& forall|t: Tag| #[trigger] tags.contains(t) && s.contains_key(tag_tok::<E>(key, t.v_bytes(), label)) ==> list_has::<E, C, Tag>(key, label, l, tag_tok::<E>(key, t.v_bytes(), label))
}
pub open spec fn list_has<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(key: E::Key, label: Seq<u8>, l: Seq<(Tag, Entry<C>)>, k: Token) -> bool {
    exists|i: int| 0 <= i < l.len() && tag_tok::<E>(key, (#[trigger] l[i]).0.v_bytes(), label) == k
}
pub open spec fn map_has<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef, V>(key: E::Key, label: Seq<u8>, m: Map<Tag, V>, k: Token) -> bool {
    exists|u: Tag| #[trigger] m.contains_key(u) && tag_tok::<E>(key, u.v_bytes(), label) == k
}
/// The table of the tokens of a set of tags.
pub proof fn lemma_tag_map<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(key: E::Key, tags: Set<Tag>, label: Seq<u8>, s: Seq<Tag>, l: Seq<(Token, Tag)>)
    requires
        enum_set(s, tags), l.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] l[i]) == (tag_tok::<E>(key, s[i].v_bytes(), label), s[i]),
    ensures
        seq_to_map(l).dom() == tag_toks::<E, Tag>(key, tags, label),
        forall|t: Tag| #[trigger] tags.contains(t) ==> seq_to_map(l).contains_key(tag_tok::<E>(key, t.v_bytes(), label)),
        forall|k: Token| #[trigger] seq_to_map(l).contains_key(k) ==> tags.contains(seq_to_map(l)[k]) && tag_tok::<E>(key, seq_to_map(l)[k].v_bytes(), label) == k,
{
    lemma_stm(l);
    let m = seq_to_map(l);
    assert forall|t: Tag| #[trigger] tags.contains(t) implies m.contains_key(tag_tok::<E>(key, t.v_bytes(), label)) by {
        assert(s.to_set().contains(t));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == t;
        assert(m.contains_key(l[i].0));
    }
    assert forall|k: Token| #[trigger] m.contains_key(k) implies tags.contains(m[k]) && tag_tok::<E>(key, m[k].v_bytes(), label) == k by {
        let i = choose|i: int| 0 <= i < l.len() && #[trigger] l[i] == (k, m[k]);
        assert(s.to_set().contains(s[i]));
    }
    let f = |t: Tag| tag_tok::<E>(key, t.v_bytes(), label);
    assert forall|k: Token| m.dom().contains(k) <==> #[trigger] tag_toks::<E, Tag>(key, tags, label).contains(k) by {
        if m.contains_key(k) { assert(tags.contains(m[k]) && f(m[k]) == k); }
        if tag_toks::<E, Tag>(key, tags, label).contains(k) { let t = choose|t: Tag| tags.contains(t) && f(t) == k; assert(m.contains_key(f(t))); }
    }
    assert(m.dom() =~= tag_toks::<E, Tag>(key, tags, label));
}
// ------------------------------------------------------------------ lines
/// The line stored for a token, as it opens under the chain key.
pub open spec fn line_at<C: DxEnc<LINK_LENGTH>>(ckey: C::Key, s: Store, t: Token) -> Option<Link> {
    if s.contains_key(t) { match C::sp_open(ckey, s[t]) { Some(b) => Some(Link(mk_arr(b))), None => None } } else { None }
}
/// The lines found for a chain, in the order of the chain.
pub open spec fn lines_of<C: DxEnc<LINK_LENGTH>>(ckey: C::Key, s: Store, toks: Seq<Token>) -> Seq<Link> {
    somes(Seq::new(toks.len(), |i: int| line_at::<C>(ckey, s, toks[i])))
}
pub open spec fn the_chain<C: DxEnc<LINK_LENGTH>>(e: EntryV) -> Seq<Token> { choose|toks: Seq<Token>| chain_of::<C>(e, toks) }
/// The lines of the chain of an entry.
pub open spec fn chain_lines<C: DxEnc<LINK_LENGTH>>(e: EntryV, s: Store) -> Seq<Link> { lines_of::<C>(C::sp_keys(e.seed), s, the_chain::<C>(e)) }
/// What an entry read in the store `s1` and its chain read in the store `s2` contain.
pub open spec fn content<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, s1: Store, s2: Store, t: Token) -> Seq<Link> {
    chain_lines::<C>(entry_at::<E>(key, s1, t).unwrap(), s2)
}
/// Every line that opens is one that the library can have written.
pub open spec fn lines_genuine<C: DxEnc<LINK_LENGTH>>(s: Store) -> bool {
    forall|ckey: C::Key, t: Token| s.contains_key(t) && (#[trigger] C::sp_open(ckey, s[t])) is Some ==> link_ok(C::sp_open(ckey, s[t]).unwrap())
}
/// ASSUMPTION (unforgeability of AES-256-GCM): a line that the storage returned to a running
/// operation and that opens under a chain key was sealed by the library; every line the library
/// writes is well formed (contract of `FindexMultiMap::insert`, `complete_compacting`).
#[verifier::external_body]
pub proof fn ax_authentic<C: DxEnc<LINK_LENGTH>>(tracked w: &World, i: int)
    requires 0 <= i < w.log.len(), w.log[i] is Get, ev_ok(w.log[i])
    ensures lines_genuine::<C>(ev_pre(w.log[i]))
{}
pub open spec fn all_evs_ok(s: Seq<Ev>) -> bool { forall|i: int| 0 <= i < s.len() ==> ev_ok(#[trigger] s[i]) }
/// What `get` returns for the requests it made: one read of the entries, one read of the lines.
pub open spec fn mm_got<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(
    key: E::Key, tags: Set<Tag>, label: Seq<u8>, s1: Store, s2: Store, m: Map<Tag, HashSet<Vec<u8>>>) -> bool
{
    &&& all_open::<E>(key, s1, tag_toks::<E, Tag>(key, tags, label))
    &&& forall|t: Tag| #[trigger] m.contains_key(t) ==> tags.contains(t) && mm_got1::<E, C>(key, s1, s2, tag_tok::<E>(key, t.v_bytes(), label), m[t]@)
    &&& forall|t: Tag| #[trigger] tags.contains(t) && s1.contains_key(tag_tok::<E>(key, t.v_bytes(), label)) ==> map_has::<E, Tag, HashSet<Vec<u8>>>(key, label, m, tag_tok::<E>(key, t.v_bytes(), label))
}
/// Every line present opens.
#[verifier::opaque]
pub open spec fn opens<C: DxEnc<LINK_LENGTH>>(ckey: C::Key, s: Store, toks: Seq<Token>) -> bool {
    forall|i: int| 0 <= i < toks.len() && s.contains_key(#[trigger] toks[i]) ==> C::sp_open(ckey, s[toks[i]]) is Some
}
/// `v` is what the entry `t` of the store `s1` and the lines of the store `s2` contain.
pub open spec fn mm_got1<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(key: E::Key, s1: Store, s2: Store, t: Token, v: Set<Vec<u8>>) -> bool {
    &&& entry_at::<E>(key, s1, t) is Some
    &&& chain_of::<C>(entry_at::<E>(key, s1, t).unwrap(), the_chain::<C>(entry_at::<E>(key, s1, t).unwrap()))
    &&& opens::<C>(C::sp_keys(entry_at::<E>(key, s1, t).unwrap().seed), s2, the_chain::<C>(entry_at::<E>(key, s1, t).unwrap()))
    &&& parse(chain_blocks(content::<E, C>(key, s1, s2, t))).ok
    &&& v == chain_set(content::<E, C>(key, s1, s2, t))
}
/// The lines read through a table of the fetched lines.
pub proof fn lemma_lines<C: DxEnc<LINK_LENGTH>>(ckey: C::Key, s: Store, toks: Seq<Token>, m: Seq<Option<EncV>>, r: Seq<Link>)
    requires
        m.len() == toks.len(),
        forall|i: int| 0 <= i < toks.len() ==> #[trigger] m[i] == opt_at(s, toks[i]),
        r.len() == somes(m).len(),
        forall|i: int| 0 <= i < r.len() ==> C::sp_open(ckey, #[trigger] somes(m)[i]) is Some && r[i] == Link(mk_arr(C::sp_open(ckey, somes(m)[i]).unwrap())),
    ensures r == lines_of::<C>(ckey, s, toks), opens::<C>(ckey, s, toks)
    decreases toks.len()
{
    reveal(opens);
    assert forall|i: int| 0 <= i < toks.len() && s.contains_key(#[trigger] toks[i]) implies C::sp_open(ckey, s[toks[i]]) is Some by {
        lemma_somes(m);
        assert(m[i] == opt_at(s, toks[i]));
        let j = choose|j: int| 0 <= j < somes(m).len() && Some(somes(m)[j]) == m[i];
        assert(C::sp_open(ckey, somes(m)[j]) is Some);
    }
    let q = Seq::new(toks.len(), |i: int| line_at::<C>(ckey, s, toks[i]));
    if toks.len() == 0 { assert(r =~= somes(q)); }
    else {
        let t1 = toks.drop_last();
        let m1 = m.drop_last();
        assert forall|i: int| 0 <= i < t1.len() implies #[trigger] m1[i] == opt_at(s, t1[i]) by { assert(m[i] == opt_at(s, toks[i])); }
        assert(m[toks.len() - 1] == opt_at(s, toks.last()));
        assert(q.drop_last() =~= Seq::new(t1.len(), |i: int| line_at::<C>(ckey, s, t1[i])));
        let r1 = r.take(somes(m1).len() as int);
        assert forall|i: int| 0 <= i < r1.len() implies C::sp_open(ckey, #[trigger] somes(m1)[i]) is Some && r1[i] == Link(mk_arr(C::sp_open(ckey, somes(m1)[i]).unwrap())) by {
            assert(somes(m)[i] == somes(m1)[i]);
        }
        lemma_lines::<C>(ckey, s, t1, m1, r1);
        match m.last() {
            None => { assert(r =~= r1); }
            Some(e) => { assert(somes(m)[somes(m).len() - 1] == e); assert(r =~= r1.push(r.last())); }
        }
    }
}
/// `somes` commutes with a function on the elements.
pub proof fn lemma_somes_map<T, U>(s: Seq<Option<T>>, t: Seq<Option<U>>, f: spec_fn(T) -> U)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == (match s[i] { Some(x) => Some(f(x)), None => None })
    ensures somes(t).len() == somes(s).len(), forall|i: int| 0 <= i < somes(s).len() ==> #[trigger] somes(t)[i] == f(somes(s)[i])
    decreases s.len()
{
    if s.len() > 0 {
        let a = s.drop_last();
        let b = t.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] b[i] == (match a[i] { Some(x) => Some(f(x)), None => None }) by { assert(t[i] == b[i]); }
        lemma_somes_map(a, b, f);
        assert(t[s.len() - 1] == (match s[s.len() - 1] { Some(x) => Some(f(x)), None => None }));
        assert forall|i: int| 0 <= i < somes(s).len() implies #[trigger] somes(t)[i] == f(somes(s)[i]) by {
            if i < somes(a).len() { assert(somes(b)[i] == f(somes(a)[i])); }
        }
    }
}
// ------------------------------------------------------------------ updates of entries
/// The conditional write `e` took effect on the entry `t`.
pub open spec fn accepted(e: Ev, t: Token) -> bool {
    e matches Ev::Upsert { old, new, pre, ok, .. } && ok && new.contains_key(t) && upsert_accepts(t, old, pre)
}
/// Where the next lines of an entry are derived from.
pub open spec fn next_start(e: EntryV) -> Seq<u8> { match e.tok { Some(t) => t.0@, None => e.hash } }
/// `e` with a chain that ends with `last`.
pub open spec fn with_last(e: EntryV, toks: Seq<Token>) -> EntryV {
    EntryV { tok: if toks.len() == 0 || toks.last() == zero_token() { None } else { Some(toks.last()) }, ..e }
}
/// The entry `to` extends `from` by the lines `toks` under the chain key `ck`.
pub open spec fn extends<C: DxEnc<LINK_LENGTH>>(from: EntryV, to: EntryV, n: nat, ck: C::Key, toks: Seq<Token>) -> bool {
    ck == C::sp_keys(from.seed) && toks == chain_toks::<C>(ck, next_start(from), n) && to == with_last(from, toks)
}
/// In a conditional write of `new` for `old`, the new value of `t` extends by `toks` the old one, or
/// starts a chain for the tag of hash `hash` when the write expects that there is no entry.
pub open spec fn ext_maps<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(old: Store, new: Store, key: E::Key, t: Token, hash: Seq<u8>, n: nat, is_new: bool, ck: C::Key, toks: Seq<Token>) -> bool {
    &&& new.contains_key(t) && is_new == !old.contains_key(t) && entry_at::<E>(key, new, t) is Some
    &&& old.contains_key(t) ==> entry_at::<E>(key, old, t) is Some && extends::<C>(entry_at::<E>(key, old, t).unwrap(), entry_at::<E>(key, new, t).unwrap(), n, ck, toks)
    &&& !old.contains_key(t) ==> extends::<C>(EntryV { tok: None, seed: entry_at::<E>(key, new, t).unwrap().seed, hash: hash }, entry_at::<E>(key, new, t).unwrap(), n, ck, toks)
}
pub open spec fn ext_at<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(e: Ev, key: E::Key, t: Token, hash: Seq<u8>, n: nat, is_new: bool, ck: C::Key, toks: Seq<Token>) -> bool {
    e matches Ev::Upsert { old, new, .. } && ext_maps::<E, C>(old, new, key, t, hash, n, is_new, ck, toks)
}
/// One of the requests took effect on the entry `t`, only one, and it recorded `toks`.
#[verifier::opaque]
pub open spec fn committed<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(evs: Seq<Ev>, key: E::Key, t: Token, hash: Seq<u8>, n: nat, is_new: bool, ck: C::Key, toks: Seq<Token>) -> bool {
    exists|j: int| #![trigger evs[j]] 0 <= j < evs.len() && committed_at::<E, C>(evs, j, key, t, hash, n, is_new, ck, toks)
}
pub open spec fn committed_at<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>>(evs: Seq<Ev>, j: int, key: E::Key, t: Token, hash: Seq<u8>, n: nat, is_new: bool, ck: C::Key, toks: Seq<Token>) -> bool {
    accepted(evs[j], t) && ext_at::<E, C>(evs[j], key, t, hash, n, is_new, ck, toks) && (forall|i: int| 0 <= i < evs.len() && i != j ==> !accepted(#[trigger] evs[i], t))
}
pub open spec fn untouched(evs: Seq<Ev>, t: Token) -> bool { forall|i: int| 0 <= i < evs.len() ==> !accepted(#[trigger] evs[i], t) }
/// Every entry the request `e` writes extends the chain of one of the tags, by as many lines as the tag is given.
pub open spec fn ext_upsert<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(e: Ev, db: int, key: E::Key, label: Seq<u8>, lens: Map<Tag, nat>) -> bool {
    &&& e is Upsert && ev_db(e) == db
    &&& forall|t: Token| #[trigger] e->new.contains_key(t) ==> ext_some::<E, C, Tag>(e, key, label, lens, t)
}
pub open spec fn ext_some<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(e: Ev, key: E::Key, label: Seq<u8>, lens: Map<Tag, nat>, t: Token) -> bool {
    exists|g: Tag, is_new: bool, ck: C::Key, toks: Seq<Token>| #[trigger] lens.contains_key(g) && tag_tok::<E>(key, g.v_bytes(), label) == t
        && #[trigger] ext_at::<E, C>(e, key, t, sha3_spec(g.v_bytes()), lens[g], is_new, ck, toks)
}
/// HYPOTHESIS: the tags have different tokens (no collision).
pub open spec fn toks_differ<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(key: E::Key, label: Seq<u8>, tags: Set<Tag>) -> bool {
    forall|a: Tag, b: Tag| #[trigger] tags.contains(a) && #[trigger] tags.contains(b) && tag_tok::<E>(key, a.v_bytes(), label) == tag_tok::<E>(key, b.v_bytes(), label) ==> a == b
}
pub open spec fn lens_of<Tag>(a: Map<Tag, Vec<Link>>) -> Map<Tag, nat> { a.map_values(|l: Vec<Link>| l@.len()) }
pub proof fn lemma_entry_bytes<C: DxEnc<LINK_LENGTH>>(e: Entry<C>)
    ensures
        ser_entry(e).len() == ENTRY_LENGTH,
        entry_v(ser_entry(e)) == (EntryV { tok: if e.chain_token == Some(zero_token()) { None } else { e.chain_token }, ..view_e(e) }),
{
    broadcast use all_axioms;
    C::ax_seed(e.seed);
    lemma_zeros();
    if e.chain_token == Some(zero_token()) {
        let b = ser_entry(e);
        assert(de_entry_seed(b) =~= e.seed.v_bytes());
        assert(de_entry_hash(b) =~= e.tag_hash@);
        assert(b.subrange(0, 32) =~= zeros(32));
    } else { lemma_entry_round_trip(e); }
}
/// The work list of `commit`.
pub type Work<'a, Tag> = Map<&'a Tag, (Token, [u8; HASH_LENGTH], usize)>;
pub type WorkSeq<'a, 'b, Tag> = Seq<(&'a &'b Tag, &'a (Token, [u8; HASH_LENGTH], usize))>;
pub open spec fn work_item<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(key: E::Key, label: Seq<u8>, add: Map<Tag, Vec<Link>>, g: Tag, x: (Token, [u8; HASH_LENGTH], usize)) -> bool {
    add.contains_key(g) && x.0 == tag_tok::<E>(key, g.v_bytes(), label) && x.1@ == sha3_spec(g.v_bytes()) && x.2 == add[g]@.len()
}
pub open spec fn work_list<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(key: E::Key, label: Seq<u8>, add: Map<Tag, Vec<Link>>, ca: Map<&Tag, (Token, [u8; HASH_LENGTH], usize)>) -> bool {
    forall|g: Tag| #[trigger] ca.contains_key(&g) ==> work_item::<E, Tag>(key, label, add, g, ca[&g])
}
pub proof fn lemma_commit_tags<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(key: E::Key, label: Seq<u8>, add: Map<Tag, Vec<Link>>, s: Seq<(&Tag, &Vec<Link>)>, l: Seq<(&Tag, (Token, [u8; HASH_LENGTH], usize))>)
    requires
        enum_map_refs(s, add), l.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] l[i]).0 == s[i].0 && l[i].1.0 == tag_tok::<E>(key, s[i].0.v_bytes(), label) && l[i].1.1@ == sha3_spec(s[i].0.v_bytes()) && l[i].1.2 == s[i].1@.len(),
    ensures
        work_list::<E, Tag>(key, label, add, seq_to_map(l)),
        forall|g: Tag| #[trigger] add.contains_key(g) ==> seq_to_map(l).contains_key(&g),
{
    lemma_stm(l);
    assert forall|g: Tag| #[trigger] seq_to_map(l).contains_key(&g) implies work_item::<E, Tag>(key, label, add, g, seq_to_map(l)[&g]) by {
        let i = choose|i: int| 0 <= i < l.len() && #[trigger] l[i] == (&g, seq_to_map(l)[&g]);
        assert(add.contains_key(*s[i].0));
    }
    assert forall|g: Tag| #[trigger] add.contains_key(g) implies seq_to_map(l).contains_key(&g) by {
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == g;
        assert(seq_to_map(l).contains_key(l[i].0));
    }
}
pub proof fn lemma_commit_keys<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(key: E::Key, label: Seq<u8>, add: Map<Tag, Vec<Link>>, ca: Map<&Tag, (Token, [u8; HASH_LENGTH], usize)>, s: Seq<&(Token, [u8; HASH_LENGTH], usize)>, l: Seq<Token>)
    requires
        work_list::<E, Tag>(key, label, add, ca), forall|g: Tag| #[trigger] add.contains_key(g) ==> ca.contains_key(&g),
        exists|t: Seq<(&&Tag, &(Token, [u8; HASH_LENGTH], usize))>| #![trigger enum_map_refs(t, ca)] enum_map_refs(t, ca) && s.len() == t.len()
            && forall|i: int| 0 <= i < t.len() ==> *(#[trigger] s[i]) == *t[i].1,
        l.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] l[i] == s[i].0,
    ensures l.to_set() == tag_toks::<E, Tag>(key, add.dom(), label)
{
    let t = choose|t: Seq<(&&Tag, &(Token, [u8; HASH_LENGTH], usize))>| #![trigger enum_map_refs(t, ca)] enum_map_refs(t, ca) && s.len() == t.len()
            && forall|i: int| 0 <= i < t.len() ==> *(#[trigger] s[i]) == *t[i].1;
    let f = |g: Tag| tag_tok::<E>(key, g.v_bytes(), label);
    let want = tag_toks::<E, Tag>(key, add.dom(), label);
    assert forall|x: Token| #[trigger] l.to_set().contains(x) <==> want.contains(x) by {
        if l.to_set().contains(x) {
            let i = choose|i: int| 0 <= i < l.len() && l[i] == x;
            let g = **t[i].0;
            assert(*s[i] == *t[i].1);
            assert(ca.contains_key(&g));
            assert(add.dom().contains(g) && f(g) == x);
        }
        if want.contains(x) {
            let g = choose|g: Tag| add.dom().contains(g) && f(g) == x;
            assert(ca.contains_key(&g));
            let i = choose|i: int| 0 <= i < t.len() && *(#[trigger] t[i]).0 == &g;
            assert(*s[i] == *t[i].1);
            assert(l[i] == x);
        }
    }
    assert(l.to_set() =~= want);
}

// one round of `commit`
pub open spec fn listed<Tag>(s: WorkSeq<Tag>, p: int, g: Tag) -> bool { exists|i: int| 0 <= i < p && **(#[trigger] s[i]).0 == g }
pub open spec fn tok_listed<Tag>(s: WorkSeq<Tag>, p: int, t: Token) -> bool { exists|i: int| 0 <= i < p && (#[trigger] s[i]).1.0 == t }
pub open spec fn round_item<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(key: E::Key, old: Store, new: Store, g: Tag, x: (Token, [u8; HASH_LENGTH], usize), chain: Map<Tag, (C::Key, Vec<Token>)>, nt: Set<Tag>) -> bool {
    chain.contains_key(g) && ext_maps::<E, C>(old, new, key, x.0, x.1@, x.2 as nat, nt.contains(g), chain[g].0, chain[g].1@)
}
/// The first `p` tags of the work list have a new entry, and only they.
pub open spec fn in_round<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(key: E::Key, old: Store, new: Store, s: WorkSeq<Tag>, p: int, chain: Map<Tag, (C::Key, Vec<Token>)>, nt: Set<Tag>) -> bool {
    &&& forall|i: int| 0 <= i < p ==> round_item::<E, C, Tag>(key, old, new, **(#[trigger] s[i]).0, *s[i].1, chain, nt)
    &&& forall|t: Token| #[trigger] new.contains_key(t) ==> tok_listed(s, p, t)
}
/// The round has not changed what concerns the other tags.
pub open spec fn round_frame<K, Tag>(s: WorkSeq<Tag>, p: int, c0: Map<Tag, (K, Vec<Token>)>, c1: Map<Tag, (K, Vec<Token>)>, nt0: Set<Tag>, nt1: Set<Tag>) -> bool {
    forall|g: Tag| !listed(s, p, g) ==> #[trigger] round_same(c0, c1, nt0, nt1, g)
}
pub open spec fn round_same<K, Tag>(c0: Map<Tag, (K, Vec<Token>)>, c1: Map<Tag, (K, Vec<Token>)>, nt0: Set<Tag>, nt1: Set<Tag>, g: Tag) -> bool {
    (c1.contains_key(g) <==> c0.contains_key(g)) && c1[g] == c0[g] && (nt1.contains(g) <==> nt0.contains(g))
}
pub open spec fn work_seq<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(key: E::Key, label: Seq<u8>, add: Map<Tag, Vec<Link>>, s: WorkSeq<Tag>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> work_item::<E, Tag>(key, label, add, **(#[trigger] s[i]).0, *s[i].1)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> **(#[trigger] s[i]).0 != **(#[trigger] s[j]).0 && s[i].1.0 != s[j].1.0
}
pub proof fn lemma_work_seq<E: DxEnc<ENTRY_LENGTH>, Tag: VAsRef>(key: E::Key, label: Seq<u8>, add: Map<Tag, Vec<Link>>, ca: Work<Tag>, s: WorkSeq<Tag>)
    requires work_list::<E, Tag>(key, label, add, ca), enum_map_refs(s, ca), toks_differ::<E, Tag>(key, label, add.dom())
    ensures work_seq::<E, Tag>(key, label, add, s)
{
    assert forall|i: int| 0 <= i < s.len() implies work_item::<E, Tag>(key, label, add, **(#[trigger] s[i]).0, *s[i].1) by { assert(ca.contains_key(*s[i].0)); }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies **(#[trigger] s[i]).0 != **(#[trigger] s[j]).0 && s[i].1.0 != s[j].1.0 by {
        let a = **s[i].0;
        let b = **s[j].0;
        assert(*s[i].0 == &a && *s[j].0 == &b);
        assert(work_item::<E, Tag>(key, label, add, a, *s[i].1));
        assert(work_item::<E, Tag>(key, label, add, b, *s[j].1));
        assert(add.dom().contains(a) && add.dom().contains(b));
    }
}
pub proof fn lemma_round_step<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(
    key: E::Key, label: Seq<u8>, add: Map<Tag, Vec<Link>>, old: Store, new: Store, s: WorkSeq<Tag>, p: int,
    c0: Map<Tag, (C::Key, Vec<Token>)>, chain: Map<Tag, (C::Key, Vec<Token>)>, nt0: Set<Tag>, nt: Set<Tag>, g: Tag, c: (C::Key, Vec<Token>), e: EncV, nt2: Set<Tag>)
    requires
        work_seq::<E, Tag>(key, label, add, s), 0 <= p < s.len(), g == **s[p].0,
        in_round::<E, C, Tag>(key, old, new, s, p, chain, nt),
        round_frame(s, p, c0, chain, nt0, nt), !nt0.contains(g),
        nt2 == (if old.contains_key(s[p].1.0) { nt } else { nt.insert(g) }),
        ext_maps::<E, C>(old, new.insert(s[p].1.0, e), key, s[p].1.0, s[p].1.1@, s[p].1.2 as nat, !old.contains_key(s[p].1.0), c.0, c.1@),
    ensures
        in_round::<E, C, Tag>(key, old, new.insert(s[p].1.0, e), s, p + 1, chain.insert(g, c), nt2),
        round_frame(s, p + 1, c0, chain.insert(g, c), nt0, nt2),
{
    let t = s[p].1.0;
    let n2 = new.insert(t, e);
    let c2 = chain.insert(g, c);
    assert(!listed(s, p, g));
    assert(round_same(c0, chain, nt0, nt, g));
    assert(!nt.contains(g));
    assert forall|i: int| 0 <= i < p + 1 implies round_item::<E, C, Tag>(key, old, n2, **(#[trigger] s[i]).0, *s[i].1, c2, nt2) by {
        if i < p {
            assert(round_item::<E, C, Tag>(key, old, new, **s[i].0, *s[i].1, chain, nt));
            assert(**s[i].0 != **s[p].0 && s[i].1.0 != s[p].1.0);
            assert(entry_at::<E>(key, n2, s[i].1.0) == entry_at::<E>(key, new, s[i].1.0));
        }
    }
    assert forall|u: Token| #[trigger] n2.contains_key(u) implies tok_listed(s, p + 1, u) by {
        if u == t { assert(s[p].1.0 == u); }
        else {
            assert(new.contains_key(u));
            let i = choose|i: int| 0 <= i < p && (#[trigger] s[i]).1.0 == u;
            assert(s[i].1.0 == u);
        }
    }
    assert forall|h: Tag| !listed(s, p + 1, h) implies #[trigger] round_same(c0, c2, nt0, nt2, h) by {
        if listed(s, p, h) { let i = choose|i: int| 0 <= i < p && **(#[trigger] s[i]).0 == h; assert(**s[i].0 == h); }
        assert(**s[p].0 == g);
        assert(h != g);
        assert(round_same(c0, chain, nt0, nt, h));
    }
}
pub open spec fn com_done1<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(evs: Seq<Ev>, key: E::Key, label: Seq<u8>, add: Map<Tag, Vec<Link>>, ca: Work<Tag>, chain: Map<Tag, (C::Key, Vec<Token>)>, nt: Set<Tag>, g: Tag) -> bool {
    let t = tag_tok::<E>(key, g.v_bytes(), label);
    if ca.contains_key(&g) { untouched(evs, t) && !nt.contains(g) }
    else { chain.contains_key(g) && committed::<E, C>(evs, key, t, sha3_spec(g.v_bytes()), add[g]@.len(), nt.contains(g), chain[g].0, chain[g].1@) }
}
/// The tags that are no longer in the work list are committed, the others are as they were.
pub open spec fn com_done<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(evs: Seq<Ev>, key: E::Key, label: Seq<u8>, add: Map<Tag, Vec<Link>>, ca: Work<Tag>, chain: Map<Tag, (C::Key, Vec<Token>)>, nt: Set<Tag>) -> bool {
    &&& forall|g: Tag| #[trigger] add.contains_key(g) ==> com_done1::<E, C, Tag>(evs, key, label, add, ca, chain, nt, g)
    &&& forall|g: Tag| #[trigger] chain.contains_key(g) ==> add.contains_key(g)
    &&& forall|g: Tag| #[trigger] nt.contains(g) ==> add.contains_key(g)
}
pub proof fn lemma_round_upsert<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(
    e: Ev, key: E::Key, label: Seq<u8>, add: Map<Tag, Vec<Link>>, s: WorkSeq<Tag>, chain: Map<Tag, (C::Key, Vec<Token>)>, nt: Set<Tag>)
    requires
        e is Upsert, work_seq::<E, Tag>(key, label, add, s), in_round::<E, C, Tag>(key, e->old, e->new, s, s.len() as int, chain, nt),
    ensures ext_upsert::<E, C, Tag>(e, ev_db(e), key, label, lens_of(add))
{
    let lens = lens_of(add);
    assert forall|t: Token| #[trigger] e->new.contains_key(t) implies ext_some::<E, C, Tag>(e, key, label, lens, t) by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1.0 == t;
        let g = **s[i].0;
        assert(round_item::<E, C, Tag>(key, e->old, e->new, g, *s[i].1, chain, nt));
        assert(work_item::<E, Tag>(key, label, add, g, *s[i].1));
        assert(lens.contains_key(g));
        assert(ext_at::<E, C>(e, key, t, sha3_spec(g.v_bytes()), lens[g], nt.contains(g), chain[g].0, chain[g].1@));
    }
}
pub proof fn lemma_round_end<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(
    evs: Seq<Ev>, e: Ev, key: E::Key, label: Seq<u8>, add: Map<Tag, Vec<Link>>, ca0: Work<Tag>, ca1: Work<Tag>, s: WorkSeq<Tag>,
    c0: Map<Tag, (C::Key, Vec<Token>)>, c1: Map<Tag, (C::Key, Vec<Token>)>, nt0: Set<Tag>, nt1: Set<Tag>, nt2: Set<Tag>)
    requires
        com_done::<E, C, Tag>(evs, key, label, add, ca0, c0, nt0), work_list::<E, Tag>(key, label, add, ca0), enum_map_refs(s, ca0), toks_differ::<E, Tag>(key, label, add.dom()),
        e is Upsert, ev_ok(e), in_round::<E, C, Tag>(key, e->old, e->new, s, s.len() as int, c1, nt1), round_frame(s, s.len() as int, c0, c1, nt0, nt1),
        ca1.submap_of(ca0), forall|g: &Tag| #[trigger] ca0.contains_key(g) ==> (ca1.contains_key(g) <==> upsert_rejected(e->old, e->new, ev_pre(e)).contains_key(ca0[g].0)),
        nt2.subset_of(nt1), forall|g: Tag| #[trigger] nt1.contains(g) ==> (nt2.contains(g) <==> !ca1.contains_key(&g)),
    ensures com_done::<E, C, Tag>(evs.push(e), key, label, add, ca1, c1, nt2), work_list::<E, Tag>(key, label, add, ca1),
{
    reveal(committed);
    let ev2 = evs.push(e);
    let old = e->old;
    let new = e->new;
    lemma_work_seq::<E, Tag>(key, label, add, ca0, s);
    assert forall|g: Tag| #[trigger] ca1.contains_key(&g) implies work_item::<E, Tag>(key, label, add, g, ca1[&g]) by { assert(ca0.contains_key(&g)); }
    assert forall|g: Tag| listed(s, s.len() as int, g) <==> #[trigger] ca0.contains_key(&g) by {
        if listed(s, s.len() as int, g) {
            let i = choose|i: int| 0 <= i < s.len() && **(#[trigger] s[i]).0 == g;
            assert(ca0.contains_key(*s[i].0)); assert(*s[i].0 == &g);
        }
        if ca0.contains_key(&g) { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == &g; assert(**s[i].0 == g); }
    }
    assert forall|g: Tag| #[trigger] add.contains_key(g) implies com_done1::<E, C, Tag>(ev2, key, label, add, ca1, c1, nt2, g) by {
        let t = tag_tok::<E>(key, g.v_bytes(), label);
        assert(com_done1::<E, C, Tag>(evs, key, label, add, ca0, c0, nt0, g));
        assert(add.dom().contains(g));
        if ca0.contains_key(&g) {
            let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == &g;
            assert(round_item::<E, C, Tag>(key, old, new, **s[i].0, *s[i].1, c1, nt1));
            assert(work_item::<E, Tag>(key, label, add, g, ca0[&g]));
            assert(ca0[&g].0 == t);
            if ca1.contains_key(&g) {
                assert(!accepted(e, t));
                assert(untouched(ev2, t)) by { assert forall|j: int| 0 <= j < ev2.len() implies !accepted(#[trigger] ev2[j], t) by { if j < evs.len() { assert(ev2[j] == evs[j]); } } }
                assert(!nt2.contains(g));
            } else {
                assert(accepted(e, t));
                assert(nt2.contains(g) <==> nt1.contains(g));
                let j = evs.len() as int;
                assert(ev2[j] == e);
                assert forall|q: int| 0 <= q < ev2.len() && q != j implies !accepted(#[trigger] ev2[q], t) by { assert(ev2[q] == evs[q]); }
                assert(committed_at::<E, C>(ev2, j, key, t, sha3_spec(g.v_bytes()), add[g]@.len(), nt2.contains(g), c1[g].0, c1[g].1@));
            }
        } else {
            assert(!ca1.contains_key(&g));
            assert(!listed(s, s.len() as int, g));
            assert(round_same(c0, c1, nt0, nt1, g));
            assert(c1.contains_key(g) && c1[g] == c0[g]);
            assert(nt1.contains(g) <==> nt0.contains(g));
            assert(nt2.contains(g) <==> nt1.contains(g));
            assert(!new.contains_key(t)) by {
                if new.contains_key(t) {
                    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1.0 == t;
                    let h = **s[i].0;
                    assert(work_item::<E, Tag>(key, label, add, h, *s[i].1));
                    assert(add.dom().contains(h));
                    assert(h == g);
                    assert(listed(s, s.len() as int, g));
                }
            }
            let j = choose|j: int| #![trigger evs[j]] 0 <= j < evs.len() && committed_at::<E, C>(evs, j, key, t, sha3_spec(g.v_bytes()), add[g]@.len(), nt0.contains(g), c0[g].0, c0[g].1@);
            assert(ev2[j] == evs[j]);
            assert forall|q: int| 0 <= q < ev2.len() && q != j implies !accepted(#[trigger] ev2[q], t) by { if q < evs.len() { assert(ev2[q] == evs[q]); } }
            assert(committed_at::<E, C>(ev2, j, key, t, sha3_spec(g.v_bytes()), add[g]@.len(), nt2.contains(g), c1[g].0, c1[g].1@));
        }
    }
    assert forall|g: Tag| #[trigger] c1.contains_key(g) implies add.contains_key(g) by {
        if ca0.contains_key(&g) { assert(work_item::<E, Tag>(key, label, add, g, ca0[&g])); } else { assert(!listed(s, s.len() as int, g)); assert(round_same(c0, c1, nt0, nt1, g)); assert(c0.contains_key(g)); }
    }
    assert forall|g: Tag| #[trigger] nt2.contains(g) implies add.contains_key(g) by {
        assert(nt1.contains(g));
        if ca0.contains_key(&g) { assert(work_item::<E, Tag>(key, label, add, g, ca0[&g])); } else { assert(!listed(s, s.len() as int, g)); assert(round_same(c0, c1, nt0, nt1, g)); assert(nt0.contains(g)); }
    }
}
/// The requests `commit` makes: one read of the entries, then conditional writes that extend chains.
pub open spec fn com_log<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(n: Seq<Ev>, db: int, key: E::Key, label: Seq<u8>, lens: Map<Tag, nat>) -> bool {
    &&& n.len() >= 1
    &&& n[0] matches Ev::Get { db: d, keys, .. } && d == db && keys == tag_toks::<E, Tag>(key, lens.dom(), label)
    &&& forall|i: int| 1 <= i < n.len() ==> ext_upsert::<E, C, Tag>(#[trigger] n[i], db, key, label, lens)
}
// ------------------------------------------------------------------ insertions
/// The lines of the chain of each tag hold its modifications.
pub open spec fn lines_for(mods: Seq<(Operation, Vec<u8>)>, c: Seq<Link>) -> bool {
    chain_blocks(c) == padded(enc_mods(mods)) && links_ok(c) && c.len() == n_lines(enc_mods(mods).len())
}
pub open spec fn all_lines<Tag>(mods: Map<Tag, Vec<(Operation, Vec<u8>)>>, lines: Map<Tag, Vec<Link>>) -> bool {
    lines.dom() == mods.dom() && forall|g: Tag| #[trigger] lines.contains_key(g) ==> lines_for(mods[g]@, lines[g]@)
}
pub open spec fn mod_lens<Tag>(mods: Map<Tag, Vec<(Operation, Vec<u8>)>>) -> Map<Tag, nat> { mods.map_values(|m: Vec<(Operation, Vec<u8>)>| n_lines(enc_mods(m@).len())) }
pub open spec fn line_of<C: DxEnc<LINK_LENGTH>, Tag>(chains: Map<Tag, (C::Key, Vec<Token>)>, lines: Map<Tag, Vec<Link>>, t: Token, v: EncV, g: Tag, i: int) -> bool {
    chains.contains_key(g) && 0 <= i < chains[g].1@.len() && chains[g].1@[i] == t && C::sp_open(chains[g].0, v) == Some(lines[g]@[i].0@)
}
pub open spec fn a_line<C: DxEnc<LINK_LENGTH>, Tag>(chains: Map<Tag, (C::Key, Vec<Token>)>, lines: Map<Tag, Vec<Link>>, t: Token, v: EncV) -> bool {
    exists|g: Tag, i: int| line_of::<C, Tag>(chains, lines, t, v, g, i)
}
/// The values written are the lines, each one for its token in the chain.
pub open spec fn lines_written<C: DxEnc<LINK_LENGTH>, Tag>(items: Store, chains: Map<Tag, (C::Key, Vec<Token>)>, lines: Map<Tag, Vec<Link>>) -> bool {
    &&& forall|t: Token| #[trigger] items.contains_key(t) ==> a_line::<C, Tag>(chains, lines, t, items[t])
    &&& forall|g: Tag, i: int| #![trigger chains[g].1@[i]] chains.contains_key(g) && 0 <= i < chains[g].1@.len() ==> items.contains_key(chains[g].1@[i])
}
pub open spec fn all_committed<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(n: Seq<Ev>, key: E::Key, label: Seq<u8>, lens: Map<Tag, nat>, nt: Set<Tag>, chains: Map<Tag, (C::Key, Vec<Token>)>) -> bool {
    &&& nt.subset_of(lens.dom()) && chains.dom() == lens.dom()
    &&& forall|g: Tag| #[trigger] lens.contains_key(g) ==>
        committed::<E, C>(n, key, tag_tok::<E>(key, g.v_bytes(), label), sha3_spec(g.v_bytes()), lens[g], nt.contains(g), chains[g].0, chains[g].1@)
}
/// The request `e` writes the lines of the chains that the requests `n` have recorded in the entries.
pub open spec fn ins_ev<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(n: Seq<Ev>, e: Ev, db: int, key: E::Key, label: Seq<u8>, mods: Map<Tag, Vec<(Operation, Vec<u8>)>>, nt: Set<Tag>) -> bool {
    exists|lines: Map<Tag, Vec<Link>>, chains: Map<Tag, (C::Key, Vec<Token>)>| ins_at::<E, C, Tag>(n, e, db, key, label, mods, nt, lines, chains)
}
pub open spec fn ins_at<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(n: Seq<Ev>, e: Ev, db: int, key: E::Key, label: Seq<u8>, mods: Map<Tag, Vec<(Operation, Vec<u8>)>>, nt: Set<Tag>, lines: Map<Tag, Vec<Link>>, chains: Map<Tag, (C::Key, Vec<Token>)>) -> bool {
    &&& e matches Ev::Insert { db: d, items, .. } && d == db && lines_written::<C, Tag>(items, chains, lines)
    &&& all_lines(mods, lines)
    &&& all_committed::<E, C, Tag>(n, key, label, mod_lens(mods), nt, chains)
}
/// The requests of `insert`: those of `commit`, and when they have all succeeded one insertion of the lines.
pub open spec fn ins_log<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, mods: Map<Tag, Vec<(Operation, Vec<u8>)>>) -> bool {
    com_log::<E, C, Tag>(n, edb, key, label, mod_lens(mods)) || (exists|nt: Set<Tag>| ins_full::<E, C, Tag>(n, edb, cdb, key, label, mods, nt))
}
pub open spec fn ins_full<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(n: Seq<Ev>, edb: int, cdb: int, key: E::Key, label: Seq<u8>, mods: Map<Tag, Vec<(Operation, Vec<u8>)>>, nt: Set<Tag>) -> bool {
    &&& n.len() >= 2 && all_evs_ok(n.drop_last())
    &&& com_log::<E, C, Tag>(n.drop_last(), edb, key, label, mod_lens(mods))
    &&& ins_ev::<E, C, Tag>(n.drop_last(), n.last(), cdb, key, label, mods, nt)
}
/// The table of the lines.
pub proof fn lemma_ins_lines<Tag>(mods: Map<Tag, Vec<(Operation, Vec<u8>)>>, s: Seq<(Tag, Vec<(Operation, Vec<u8>)>)>, l: Seq<Result<(Tag, Vec<Link>), CoreError>>)
    requires
        enum_map(s, mods), l.len() == s.len(), all_ok(l),
        forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i] matches Ok(q) ==> q.0 == s[i].0 && lines_for(s[i].1@, q.1@)),
    ensures all_lines(mods, seq_to_map(oks(l))), lens_of(seq_to_map(oks(l))) == mod_lens(mods)
{
    let o = oks(l);
    lemma_stm(o);
    let m = seq_to_map(o);
    assert forall|g: Tag| #[trigger] m.contains_key(g) implies mods.contains_key(g) && lines_for(mods[g]@, m[g]@) by {
        let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == (g, m[g]);
        assert(l[i] is Ok);
        assert(mods.contains_key(s[i].0));
    }
    assert forall|g: Tag| #[trigger] mods.contains_key(g) implies m.contains_key(g) by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == g;
        assert(l[i] is Ok);
        assert(m.contains_key(o[i].0));
    }
    assert(m.dom() =~= mods.dom());
    assert(lens_of(m) =~= mod_lens(mods));
}
pub proof fn lemma_line_step<C: DxEnc<LINK_LENGTH>, Tag>(items: Store, chains: Map<Tag, (C::Key, Vec<Token>)>, lines: Map<Tag, Vec<Link>>, t: Token, v: EncV, g: Tag, i: int)
    requires
        forall|t: Token| #[trigger] items.contains_key(t) ==> a_line::<C, Tag>(chains, lines, t, items[t]),
        line_of::<C, Tag>(chains, lines, t, v, g, i),
    ensures forall|u: Token| #[trigger] items.insert(t, v).contains_key(u) ==> a_line::<C, Tag>(chains, lines, u, items.insert(t, v)[u])
{
    assert forall|u: Token| #[trigger] items.insert(t, v).contains_key(u) implies a_line::<C, Tag>(chains, lines, u, items.insert(t, v)[u]) by {
        if u == t { assert(line_of::<C, Tag>(chains, lines, u, v, g, i)); } else { assert(items.contains_key(u)); }
    }
}

/// The chain recorded for a keyword has a token for each line it is given.
pub proof fn lemma_chains_len<E: DxEnc<ENTRY_LENGTH>, C: DxEnc<LINK_LENGTH>, Tag: VAsRef>(n: Seq<Ev>, key: E::Key, label: Seq<u8>, lens: Map<Tag, nat>, nt: Set<Tag>, chains: Map<Tag, (C::Key, Vec<Token>)>)
    requires all_committed::<E, C, Tag>(n, key, label, lens, nt, chains)
    ensures forall|g: Tag| #[trigger] chains.contains_key(g) ==> lens.contains_key(g) && chains[g].1@.len() == lens[g]
{
    reveal(committed);
    assert forall|g: Tag| #[trigger] chains.contains_key(g) implies lens.contains_key(g) && chains[g].1@.len() == lens[g] by {
        assert(chains.dom().contains(g));
        assert(lens.contains_key(g));
        assert(committed::<E, C>(n, key, tag_tok::<E>(key, g.v_bytes(), label), sha3_spec(g.v_bytes()), lens[g], nt.contains(g), chains[g].0, chains[g].1@));
        let t = tag_tok::<E>(key, g.v_bytes(), label);
        let j = choose|j: int| #![trigger n[j]] 0 <= j < n.len() && committed_at::<E, C>(n, j, key, t, sha3_spec(g.v_bytes()), lens[g], nt.contains(g), chains[g].0, chains[g].1@);
    }
}
