// ====================================================================================
// Iterators. `It<T>` stands for any iterator: `rest()` is what it will still yield.
// Every chain in the code is consumed at once, so an eager reading is faithful: closures
// are `Fn` (no side effect).
// ====================================================================================
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct It<T> { _p: core::marker::PhantomData<T> }

pub open spec fn sel<T>(s: Seq<T>, m: Seq<bool>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 || m.len() != s.len() { Seq::empty() }
    else {
        let p = sel(s.drop_last(), m.drop_last());
        if m.last() { p.push(s.last()) } else { p }
    }
}
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let p = somes(s.drop_last());
        match s.last() { Some(x) => p.push(x), None => p }
    }
}
pub open spec fn oks<T, E>(s: Seq<Result<T, E>>) -> Seq<T> {
    Seq::new(s.len(), |i: int| s[i]->Ok_0)
}
pub open spec fn all_ok<T, E>(s: Seq<Result<T, E>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok
}
pub open spec fn first_err<T, E>(s: Seq<Result<T, E>>, e: E) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e) && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) is Ok)
}
/// Last binding wins, as in `HashMap::from_iter`.
pub open spec fn seq_to_map<K, V>(s: Seq<(K, V)>) -> Map<K, V>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { seq_to_map(s.drop_last()).insert(s.last().0, s.last().1) }
}
pub open spec fn concat<T>(parts: Seq<Seq<T>>) -> Seq<T>
    decreases parts.len()
{
    if parts.len() == 0 { Seq::empty() } else { concat(parts.drop_last()) + parts.last() }
}
pub open spec fn mapped<T, U, F: Fn(T) -> U>(f: F, s: Seq<T>, r: Seq<U>) -> bool {
    &&& r.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> f.ensures((s[i],), #[trigger] r[i])
}

impl<T> It<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn rest(&self) -> Seq<T> { self.all().skip(self.pos()) }
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.all().len() }

    #[verifier::external_body]
    pub fn v_next(&mut self) -> (r: Option<T>)
        ensures
            final(self).all() == old(self).all(),
            0 <= old(self).pos() <= old(self).all().len(),
            match r {
                None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos(),
                Some(x) => old(self).pos() < old(self).all().len() && x == old(self).all()[old(self).pos()]
                    && final(self).pos() == old(self).pos() + 1,
            }
    { unimplemented!() }

    #[verifier::external_body]
    pub fn v_map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> f.requires((#[trigger] self.rest()[i],))
        ensures r.pos() == 0, mapped(f, self.rest(), r.rest()), r.rest() == r.all()
    { unimplemented!() }

    #[verifier::external_body]
    pub fn v_map_into<U: VFrom<T>>(self) -> (r: It<U>)
        ensures r.pos() == 0, r.rest() == r.all(), r.rest().len() == self.rest().len(),
            forall|i: int| 0 <= i < r.rest().len() ==> U::vfrom_spec(self.rest()[i], #[trigger] r.rest()[i])
    { unimplemented!() }

    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> f.requires((& #[trigger] self.rest()[i],))
        ensures r.pos() == 0, r.rest() == r.all(),
            exists|m: Seq<bool>| #![trigger sel(self.rest(), m)] m.len() == self.rest().len() && r.rest() == sel(self.rest(), m)
                && (forall|i: int| 0 <= i < m.len() ==> f.ensures((&self.rest()[i],), #[trigger] m[i]))
    { unimplemented!() }

    #[verifier::external_body]
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> f.requires((#[trigger] self.rest()[i],))
        ensures r.pos() == 0, r.rest() == r.all(),
            exists|m: Seq<Option<U>>| #![trigger somes(m)] m.len() == self.rest().len() && r.rest() == somes(m)
                && (forall|i: int| 0 <= i < m.len() ==> f.ensures((self.rest()[i],), #[trigger] m[i]))
    { unimplemented!() }

    #[verifier::external_body]
    pub fn flat_map<U: VIntoIter, F: Fn(T) -> U>(self, f: F) -> (r: It<U::VItem>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> f.requires((#[trigger] self.rest()[i],))
        ensures r.pos() == 0, r.rest() == r.all(),
            exists|u: Seq<U>, p: Seq<Seq<U::VItem>>| #![trigger u.len(), concat(p)] u.len() == self.rest().len() && p.len() == u.len()
                && (forall|i: int| 0 <= i < u.len() ==> f.ensures((self.rest()[i],), #[trigger] u[i]))
                && (forall|i: int| 0 <= i < u.len() ==> u[i].into_spec(#[trigger] p[i]))
                && r.rest() == concat(p)
    { unimplemented!() }

    #[verifier::external_body]
    pub fn flatten(self) -> (r: It<T::VItem>) where T: VIntoIter
        ensures r.pos() == 0, r.rest() == r.all(),
            exists|p: Seq<Seq<T::VItem>>| #![trigger concat(p)] p.len() == self.rest().len()
                && (forall|i: int| 0 <= i < p.len() ==> self.rest()[i].into_spec(#[trigger] p[i]))
                && r.rest() == concat(p)
    { unimplemented!() }

    pub fn collect<C: VFromIter<T>>(self) -> (r: C)
        ensures C::from_spec(self.rest(), r)
    { C::v_from_iter(self) }

    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.rest().len() ==> f.requires((#[trigger] self.rest()[i],))
        ensures
            r ==> exists|i: int| 0 <= i < self.rest().len() && f.ensures((#[trigger] self.rest()[i],), true),
            !r ==> forall|i: int| 0 <= i < self.rest().len() ==> f.ensures((#[trigger] self.rest()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all_hold<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.rest().len() ==> f.requires((#[trigger] self.rest()[i],))
        ensures
            !r ==> exists|i: int| 0 <= i < self.rest().len() && f.ensures((#[trigger] self.rest()[i],), false),
            r ==> forall|i: int| 0 <= i < self.rest().len() ==> f.ensures((#[trigger] self.rest()[i],), true),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn try_fold<B, E, F: Fn(B, T) -> Result<B, E>>(self, init: B, f: F) -> (r: Result<B, E>)
        requires forall|b: B, i: int| #![trigger f.requires((b, self.rest()[i]))] 0 <= i < self.rest().len() ==> f.requires((b, self.rest()[i]))
        ensures exists|tr: Seq<B>| #![trigger tr.len()] 0 < tr.len() <= self.rest().len() + 1 && tr[0] == init
            && (forall|i: int| 0 <= i < tr.len() - 1 ==> f.ensures((#[trigger] tr[i], self.rest()[i]), Ok(tr[i + 1])))
            && match r {
                Ok(b) => tr.len() == self.rest().len() + 1 && b == tr.last(),
                Err(e) => tr.len() <= self.rest().len() && f.ensures((tr.last(), self.rest()[tr.len() - 1]), Err(e)),
            }
    { unimplemented!() }

    #[verifier::external_body]
    pub fn zip<U: VIntoIter>(self, o: U) -> (r: It<(T, U::VItem)>)
        ensures r.pos() == 0, r.rest() == r.all(),
            exists|s: Seq<U::VItem>| #[trigger] o.into_spec(s)
                && r.rest().len() == (if s.len() <= self.rest().len() { s.len() } else { self.rest().len() })
                && (forall|i: int| 0 <= i < r.rest().len() ==> #[trigger] r.rest()[i] == (self.rest()[i], s[i]))
    { unimplemented!() }
}
impl<'a, T> It<&'a T> {
    #[verifier::external_body]
    pub fn v_copied(self) -> (r: It<T>) where T: Copy
        ensures r.pos() == 0, r.rest() == r.all(), refs_of(self.rest(), r.rest())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_cloned(self) -> (r: It<T>) where T: VClone
        ensures r.pos() == 0, r.rest() == r.all(), refs_of(self.rest(), r.rest())
    { unimplemented!() }
}

pub trait VIntoIter: Sized {
    type VItem;
    spec fn into_spec(self, s: Seq<Self::VItem>) -> bool;
    fn v_into_iter(self) -> (r: It<Self::VItem>)
        ensures r.pos() == 0, r.rest() == r.all(), self.into_spec(r.all());
}
impl<T> VIntoIter for It<T> {
    type VItem = T;
    open spec fn into_spec(self, s: Seq<T>) -> bool { s == self.rest() }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: It<T>) { unimplemented!() }
}
impl<T> VIntoIter for Vec<T> {
    type VItem = T;
    open spec fn into_spec(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: It<T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a Vec<T> {
    type VItem = &'a T;
    open spec fn into_spec(self, s: Seq<&'a T>) -> bool { refs_of(s, self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a [T] {
    type VItem = &'a T;
    open spec fn into_spec(self, s: Seq<&'a T>) -> bool { refs_of(s, self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<T, const N: usize> VIntoIter for [T; N] {
    type VItem = T;
    open spec fn into_spec(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: It<T>) { unimplemented!() }
}
impl<K: VEq> VIntoIter for HashSet<K> {
    type VItem = K;
    open spec fn into_spec(self, s: Seq<K>) -> bool { enum_set(s, self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: It<K>) { unimplemented!() }
}
impl<'a, K: VEq> VIntoIter for &'a HashSet<K> {
    type VItem = &'a K;
    open spec fn into_spec(self, s: Seq<&'a K>) -> bool { exists|t: Seq<K>| enum_set(t, self@) && refs_of(s, t) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: It<&'a K>) { unimplemented!() }
}
impl<K: VEq, V> VIntoIter for HashMap<K, V> {
    type VItem = (K, V);
    open spec fn into_spec(self, s: Seq<(K, V)>) -> bool { enum_map(s, self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: It<(K, V)>) { unimplemented!() }
}
impl<'a, K: VEq, V> VIntoIter for &'a HashMap<K, V> {
    type VItem = (&'a K, &'a V);
    open spec fn into_spec(self, s: Seq<(&'a K, &'a V)>) -> bool { enum_map_refs(s, self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: It<(&'a K, &'a V)>) { unimplemented!() }
}

pub trait VFromIter<T>: Sized {
    spec fn from_spec(s: Seq<T>, r: Self) -> bool;
    fn v_from_iter(iter: It<T>) -> (r: Self)
        ensures Self::from_spec(iter.rest(), r);
}
impl<T> VFromIter<T> for Vec<T> {
    open spec fn from_spec(s: Seq<T>, r: Self) -> bool { r@ == s }
    #[verifier::external_body]
    fn v_from_iter(iter: It<T>) -> (r: Self) { unimplemented!() }
}
impl<K: VEq> VFromIter<K> for HashSet<K> {
    open spec fn from_spec(s: Seq<K>, r: Self) -> bool { r@ == s.to_set() }
    #[verifier::external_body]
    fn v_from_iter(iter: It<K>) -> (r: Self) { unimplemented!() }
}
impl<K: VEq, V> VFromIter<(K, V)> for HashMap<K, V> {
    open spec fn from_spec(s: Seq<(K, V)>, r: Self) -> bool { r@ == seq_to_map(s) }
    #[verifier::external_body]
    fn v_from_iter(iter: It<(K, V)>) -> (r: Self) { unimplemented!() }
}
impl<T, E, C: VFromIter<T>> VFromIter<Result<T, E>> for Result<C, E> {
    open spec fn from_spec(s: Seq<Result<T, E>>, r: Self) -> bool {
        match r {
            Ok(c) => all_ok(s) && C::from_spec(oks(s), c),
            Err(e) => first_err(s, e),
        }
    }
    #[verifier::external_body]
    fn v_from_iter(iter: It<Result<T, E>>) -> (r: Self) { unimplemented!() }
}

// ---------------------------------------------------------------- hash tables

/// `s` lists the elements of the finite set `m`, each once, in some order.
pub open spec fn enum_set<K>(s: Seq<K>, m: Set<K>) -> bool {
    &&& s.no_duplicates()
    &&& s.to_set() == m
}
pub open spec fn keys_of<K, V>(s: Seq<(K, V)>) -> Seq<K> { Seq::new(s.len(), |i: int| s[i].0) }
/// `s` lists the bindings of the finite map `m`, each once, in some order.
pub open spec fn enum_map<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub open spec fn enum_map_refs<'a, K, V>(s: Seq<(&'a K, &'a V)>, m: Map<K, V>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { _p: core::marker::PhantomData<(K, V)> }
impl<K, V> View for HashMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}
pub uninterp spec fn mk_map<K, V>(m: Map<K, V>) -> HashMap<K, V>;
#[verifier::external_body]
pub broadcast axiom fn ax_map_ext<K, V>(m: HashMap<K, V>)
    ensures mk_map(#[trigger] m@) == m;

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { _p: core::marker::PhantomData<K> }
impl<K> View for HashSet<K> {
    type V = Set<K>;
    uninterp spec fn view(&self) -> Set<K>;
}
pub uninterp spec fn mk_set<K>(m: Set<K>) -> HashSet<K>;
#[verifier::external_body]
pub broadcast axiom fn ax_set_ext<K>(m: HashSet<K>)
    ensures mk_set(#[trigger] m@) == m;
pub broadcast group table_axioms { ax_map_ext, ax_set_ext }

impl<K: VEq, V> VClone for HashMap<K, V> { #[verifier::external_body] fn vclone(&self) -> Self { unimplemented!() } }
impl<K: VEq> VClone for HashSet<K> { #[verifier::external_body] fn vclone(&self) -> Self { unimplemented!() } }
impl<K: VEq, V: VEq> VEq for HashMap<K, V> { #[verifier::external_body] fn veq(&self, o: &Self) -> bool { unimplemented!() } }
impl<K: VEq> VEq for HashSet<K> { #[verifier::external_body] fn veq(&self, o: &Self) -> bool { unimplemented!() } }
impl<K, V> VDefault for HashMap<K, V> {
    open spec fn is_default(self) -> bool { self@ == Map::<K, V>::empty() }
    fn vdefault() -> Self { HashMap::new() }
}
impl<K> VDefault for HashSet<K> {
    open spec fn is_default(self) -> bool { self@ == Set::<K>::empty() }
    fn vdefault() -> Self { HashSet::new() }
}
impl<K: VEq, V, const N: usize> VFrom<[(K, V); N]> for HashMap<K, V> {
    open spec fn vfrom_spec(x: [(K, V); N], r: Self) -> bool { r@ == seq_to_map(x@) }
    #[verifier::external_body]
    fn vfrom(x: [(K, V); N]) -> (r: Self) { unimplemented!() }
}

impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
}
impl<K: VEq, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn get<Q>(&self, k: &Q) -> (r: Option<&V>) where K: VBorrow<Q>
        ensures match r { Some(v) => self@.contains_key(K::key_of(k)) && *v == self@[K::key_of(k)], None => !self@.contains_key(K::key_of(k)) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q>(&mut self, k: &Q) -> (r: Option<&mut V>) where K: VBorrow<Q>
        ensures match r {
            Some(v) => old(self)@.contains_key(K::key_of(k)) && *v == old(self)@[K::key_of(k)] && final(self)@ == old(self)@.insert(K::key_of(k), *final(v)),
            None => !old(self)@.contains_key(K::key_of(k)) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q>(&self, k: &Q) -> (r: bool) where K: VBorrow<Q> ensures r == self@.contains_key(K::key_of(k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k, v),
            match r { Some(o) => old(self)@.contains_key(k) && o == old(self)@[k], None => !old(self)@.contains_key(k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q>(&mut self, k: &Q) -> (r: Option<V>) where K: VBorrow<Q>
        ensures
            final(self)@ == old(self)@.remove(K::key_of(k)),
            match r { Some(o) => old(self)@.contains_key(K::key_of(k)) && o == old(self)@[K::key_of(k)], None => !old(self)@.contains_key(K::key_of(k)) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: It<(&K, &V)>) ensures r.pos() == 0, r.rest() == r.all(), enum_map_refs(r.rest(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: It<&K>)
        ensures r.pos() == 0, r.rest() == r.all(), exists|t: Seq<K>| enum_set(t, self@.dom()) && refs_of(r.rest(), t)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: It<&V>)
        ensures r.pos() == 0, r.rest() == r.all(),
            exists|t: Seq<(&K, &V)>| #![trigger enum_map_refs(t, self@)] enum_map_refs(t, self@) && r.rest().len() == t.len()
                && forall|i: int| 0 <= i < t.len() ==> *(#[trigger] r.rest()[i]) == *t[i].1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_extend<I: VIntoIter<VItem = (K, V)>>(&mut self, o: I)
        ensures exists|s: Seq<(K, V)>| #[trigger] o.into_spec(s) && final(self)@ == old(self)@.union_prefer_right(seq_to_map(s))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_entry_or_default(&mut self, k: K) -> (r: &mut V) where V: VDefault
        ensures
            old(self)@.contains_key(k) ==> *r == old(self)@[k],
            !old(self)@.contains_key(k) ==> (*r).is_default(),
            final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_entry_or_insert_with<F: FnOnce() -> V>(&mut self, k: K, f: F) -> (r: &mut V)
        requires f.requires(())
        ensures
            old(self)@.contains_key(k) ==> *r == old(self)@[k],
            !old(self)@.contains_key(k) ==> f.ensures((), *r),
            final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures
            old(self)@.contains_key(k) ==> *r == old(self)@[k],
            !old(self)@.contains_key(k) ==> *r == v,
            final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn retain<F: Fn(&K, &V) -> bool>(&mut self, f: F)
        requires forall|k: K| #[trigger] old(self)@.contains_key(k) ==> f.requires((&k, &old(self)@[k]))
        ensures
            final(self)@.submap_of(old(self)@),
            forall|k: K| #[trigger] old(self)@.contains_key(k) ==> f.ensures((&k, &old(self)@[k]), final(self)@.contains_key(k)),
    { unimplemented!() }
}
impl<K> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K>::empty()) { unimplemented!() }
}
impl<K: VEq> HashSet<K> {
    #[verifier::external_body]
    pub fn contains<Q>(&self, k: &Q) -> (r: bool) where K: VBorrow<Q> ensures r == self@.contains(K::key_of(k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q>(&self, k: &Q) -> (r: Option<&K>) where K: VBorrow<Q>
        ensures match r { Some(v) => self@.contains(K::key_of(k)) && *v == K::key_of(k), None => !self@.contains(K::key_of(k)) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q>(&mut self, k: &Q) -> (r: bool) where K: VBorrow<Q>
        ensures final(self)@ == old(self)@.remove(K::key_of(k)), r == old(self)@.contains(K::key_of(k))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: It<&K>)
        ensures r.pos() == 0, r.rest() == r.all(), exists|t: Seq<K>| enum_set(t, self@) && refs_of(r.rest(), t)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_extend<I: VIntoIter<VItem = K>>(&mut self, o: I)
        ensures exists|s: Seq<K>| #[trigger] o.into_spec(s) && final(self)@ == old(self)@.union(s.to_set())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn retain<F: Fn(&K) -> bool>(&mut self, f: F)
        requires forall|k: K| #[trigger] old(self)@.contains(k) ==> f.requires((&k,))
        ensures
            final(self)@.subset_of(old(self)@),
            forall|k: K| #[trigger] old(self)@.contains(k) ==> f.ensures((&k,), final(self)@.contains(k)),
    { unimplemented!() }
}
