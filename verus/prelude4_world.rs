// ====================================================================================
// The storage: what the requests of one operation did to the stores.
// ====================================================================================
/// A stored value as the storage sees it.
pub struct EncV { pub ct: Seq<u8>, pub tag: Seq<u8>, pub nonce: Seq<u8> }
pub type Store = Map<Token, EncV>;
/// A storage request: `pre` is the content of the store when it took effect; `ok` tells whether
/// the storage accepted it.
pub enum Ev {
    Dump { db: int, pre: Store, ok: bool },
    Get { db: int, keys: Set<Token>, pre: Store, ok: bool },
    Upsert { db: int, old: Store, new: Store, pre: Store, ok: bool },
    Insert { db: int, items: Store, pre: Store, ok: bool },
    Delete { db: int, keys: Set<Token>, pre: Store, ok: bool },
}
/// Ghost log of the storage requests of the running operation.
/// `clock` counts the locks the operation took on the generator.
pub tracked struct World { pub ghost log: Seq<Ev>, pub ghost clock: nat }
impl<R: CryptoRngCore> Shared<R> {
    /// A lock on the generator: what it draws next was never drawn before.
    #[verifier::external_body]
    pub fn v_lock_w(&self, Tracked(wd__): Tracked<&mut World>) -> (r: &mut R)
        ensures (*r).at() == (old(wd__).clock, 0nat), final(wd__).log == old(wd__).log, final(wd__).clock == old(wd__).clock + 1
    { unimplemented!() }
}

/// Values with a storage representation.
pub trait HasEncV: Sized { spec fn ev(self) -> EncV; }

pub open spec fn opt_at<K, V>(m: Map<K, V>, k: K) -> Option<V> {
    if m.contains_key(k) { Some(m[k]) } else { None }
}
/// The storage view of a map of encrypted values.
pub open spec fn store_of<E: HasEncV>(m: Map<Token, E>) -> Store { m.map_values(|e: E| e.ev()) }

/// `b` is `a` with one more request.
pub open spec fn one_more(a: World, b: World) -> bool {
    b.log.len() == a.log.len() + 1 && b.log.drop_last() == a.log && b.clock == a.clock
}
pub open spec fn is_dump(e: Ev, db: int, pre: Store, ok: bool) -> bool { e == (Ev::Dump { db, pre, ok }) }
pub open spec fn is_get(e: Ev, db: int, keys: Set<Token>, pre: Store, ok: bool) -> bool { e == (Ev::Get { db, keys, pre, ok }) }

/// What a list returned for the tokens `keys` says about the store `pre`.
pub open spec fn fetched<E: HasEncV>(l: Seq<(Token, E)>, keys: Set<Token>, pre: Store) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> keys.contains((#[trigger] l[i]).0) && pre.contains_key(l[i].0) && pre[l[i].0] == l[i].1.ev()
    &&& forall|t: Token| #[trigger] keys.contains(t) && pre.contains_key(t) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == t
}
/// The outcome of the conditional upsert, line by line of the table of `DbInterface::upsert`.
pub open spec fn upsert_accepts(t: Token, old: Store, pre: Store) -> bool { opt_at(old, t) == opt_at(pre, t) }
pub open spec fn upsert_fails(old: Store, pre: Store) -> bool { exists|t: Token| #[trigger] old.contains_key(t) && !pre.contains_key(t) }
pub open spec fn upsert_post(old: Store, new: Store, pre: Store) -> Store {
    Map::new(pre.dom().union(new.dom().filter(|t: Token| upsert_accepts(t, old, pre))),
        |t: Token| if new.contains_key(t) && upsert_accepts(t, old, pre) { new[t] } else { pre[t] })
}
pub open spec fn upsert_rejected(old: Store, new: Store, pre: Store) -> Store {
    Map::new(new.dom().filter(|t: Token| !upsert_accepts(t, old, pre)), |t: Token| pre[t])
}
/// The content of the store `db` after the request `e`.
pub open spec fn ev_db(e: Ev) -> int {
    match e { Ev::Dump { db, .. } => db, Ev::Get { db, .. } => db, Ev::Upsert { db, .. } => db, Ev::Insert { db, .. } => db, Ev::Delete { db, .. } => db }
}
pub open spec fn ev_pre(e: Ev) -> Store {
    match e { Ev::Dump { pre, .. } => pre, Ev::Get { pre, .. } => pre, Ev::Upsert { pre, .. } => pre, Ev::Insert { pre, .. } => pre, Ev::Delete { pre, .. } => pre }
}
pub open spec fn ev_ok(e: Ev) -> bool {
    match e { Ev::Dump { ok, .. } => ok, Ev::Get { ok, .. } => ok, Ev::Upsert { ok, .. } => ok, Ev::Insert { ok, .. } => ok, Ev::Delete { ok, .. } => ok }
}
pub open spec fn ev_post(e: Ev) -> Store {
    match e {
        Ev::Dump { pre, .. } => pre,
        Ev::Get { pre, .. } => pre,
        Ev::Upsert { old, new, pre, ok, .. } => if ok { upsert_post(old, new, pre) } else { pre },
        Ev::Insert { items, pre, ok, .. } => if ok { pre.union_prefer_right(items) } else { pre },
        Ev::Delete { keys, pre, ok, .. } => if ok { pre.remove_keys(keys) } else { pre },
    }
}
/// The requests of an operation since the log `a`.
pub open spec fn grew(a: World, b: World) -> bool { a.clock <= b.clock && a.log.len() <= b.log.len() && b.log.take(a.log.len() as int) == a.log }
pub open spec fn new_evs(a: World, b: World) -> Seq<Ev> { b.log.skip(a.log.len() as int) }
pub broadcast proof fn lemma_grew1(a: World, b: World)
    requires #[trigger] one_more(a, b)
    ensures grew(a, b), new_evs(a, b) == seq![b.log.last()]
{
    assert(b.log.take(a.log.len() as int) =~= a.log);
    assert(new_evs(a, b) =~= seq![b.log.last()]);
}
pub proof fn lemma_grew2(a: World, b: World, c: World)
    requires grew(a, b), grew(b, c)
    ensures grew(a, c), new_evs(a, c) == new_evs(a, b) + new_evs(b, c)
{
    assert(c.log.take(a.log.len() as int) =~= a.log) by {
        assert forall|i: int| 0 <= i < a.log.len() implies #[trigger] c.log[i] == a.log[i] by { assert(c.log.take(b.log.len() as int)[i] == b.log[i]); assert(b.log.take(a.log.len() as int)[i] == a.log[i]); }
    }
    assert(new_evs(a, c) =~= new_evs(a, b) + new_evs(b, c)) by {
        assert forall|i: int| 0 <= i < b.log.len() - a.log.len() implies #[trigger] c.log[a.log.len() + i] == b.log[a.log.len() + i] by { assert(c.log.take(b.log.len() as int)[a.log.len() + i] == b.log[a.log.len() + i]); }
    }
}
pub broadcast proof fn lemma_grew3(a: World, b: World, c: World)
    requires #[trigger] grew(a, b), #[trigger] one_more(b, c)
    ensures grew(a, c), new_evs(a, c) == new_evs(a, b).push(c.log.last())
{
    lemma_grew1(b, c);
    lemma_grew2(a, b, c);
    assert(new_evs(a, b) + seq![c.log.last()] =~= new_evs(a, b).push(c.log.last()));
}
/// Locks on the generator leave the requests alone.
pub proof fn lemma_locked(a: World, b: World, c: World)
    requires grew(a, b), b.log == c.log, b.clock <= c.clock
    ensures grew(a, c), new_evs(a, c) == new_evs(a, b)
{}
pub broadcast group log_axioms { lemma_grew1, lemma_grew3, lemma_covers_add, lemma_all_fresh, lemma_comp_fresh0 }
