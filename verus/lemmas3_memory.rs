// ------------------------------------------------------------------ the in-memory store
impl<const VALUE_LENGTH: usize> InMemoryDb<VALUE_LENGTH> {
    pub open spec fn content(&self) -> Map<Token, EncryptedValue<VALUE_LENGTH>> { self.0.0.0@ }
}
pub open spec fn row_len(n: usize) -> nat { (TOKEN_LENGTH + leb((MAC_LENGTH + NONCE_LENGTH + n) as nat).len() + MAC_LENGTH + NONCE_LENGTH + n) as nat }
pub open spec fn ser_row<const N: usize>(x: (Token, EncryptedValue<N>)) -> Seq<u8> {
    x.0.0@ + leb((MAC_LENGTH + NONCE_LENGTH + N) as nat) + x.1.nonce.0@ + x.1.ciphertext@ + x.1.tag@
}
pub open spec fn ser_rows<const N: usize>(s: Seq<(Token, EncryptedValue<N>)>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { ser_rows(s.drop_last()) + ser_row(s.last()) }
}
pub open spec fn after_leb(s: Seq<u8>) -> Seq<u8> { match unleb(s) { Some(p) => p.1, None => unleb_err_rest(s) } }
pub open spec fn parse_row<const N: usize>(s: Seq<u8>) -> Option<((Token, EncryptedValue<N>), Seq<u8>)> {
    if s.len() < TOKEN_LENGTH { None } else {
        let t = after_leb(s.skip(TOKEN_LENGTH as int));
        if t.len() < NONCE_LENGTH + N + MAC_LENGTH { None } else {
            Some(((Token(mk_arr(s.subrange(0, TOKEN_LENGTH as int))), EncryptedValue {
                ciphertext: mk_arr(t.subrange(NONCE_LENGTH as int, NONCE_LENGTH + N)),
                tag: mk_arr(t.subrange(NONCE_LENGTH + N, NONCE_LENGTH + N + MAC_LENGTH)),
                nonce: Nonce(mk_arr(t.subrange(0, NONCE_LENGTH as int))),
            }), t.skip(NONCE_LENGTH + N + MAC_LENGTH)))
        }
    }
}
pub open spec fn parse_rows<const N: usize>(s: Seq<u8>, n: nat) -> Option<(Seq<(Token, EncryptedValue<N>)>, Seq<u8>)>
    decreases n
{
    if n == 0 { Some((Seq::empty(), s)) }
    else {
        match parse_rows::<N>(s, (n - 1) as nat) {
            None => None,
            Some(p) => match parse_row::<N>(p.1) { None => None, Some(x) => Some((p.0.push(x.0), x.1)) },
        }
    }
}
pub proof fn lemma_parse_rows_none<const N: usize>(s: Seq<u8>, i: nat, n: nat)
    requires i <= n
    ensures parse_rows::<N>(s, i) is None ==> parse_rows::<N>(s, n) is None
    decreases n
{
    if i < n { lemma_parse_rows_none::<N>(s, i, (n - 1) as nat); }
}
pub proof fn lemma_parse_ser_row<const N: usize>(x: (Token, EncryptedValue<N>), t: Seq<u8>)
    requires MAC_LENGTH + NONCE_LENGTH + N <= u64::MAX
    ensures parse_row::<N>(ser_row(x) + t) == Some((x, t))
{
    broadcast use all_axioms;
    let k = (MAC_LENGTH + NONCE_LENGTH + N) as nat;
    let s = ser_row(x) + t;
    let body = x.1.nonce.0@ + x.1.ciphertext@ + x.1.tag@ + t;
    assert(s.skip(TOKEN_LENGTH as int) =~= leb(k) + body);
    ax_unleb(k, body);
    assert(s.subrange(0, TOKEN_LENGTH as int) =~= x.0.0@);
    assert(mk_arr::<u8, TOKEN_LENGTH>(x.0.0@) == x.0.0);
    assert(body.subrange(0, NONCE_LENGTH as int) =~= x.1.nonce.0@);
    assert(body.subrange(NONCE_LENGTH as int, NONCE_LENGTH + N) =~= x.1.ciphertext@);
    assert(body.subrange(NONCE_LENGTH + N, NONCE_LENGTH + N + MAC_LENGTH) =~= x.1.tag@);
    assert(body.skip(NONCE_LENGTH + N + MAC_LENGTH) =~= t);
}
pub proof fn lemma_parse_ser_rows<const N: usize>(s: Seq<(Token, EncryptedValue<N>)>, t: Seq<u8>)
    requires MAC_LENGTH + NONCE_LENGTH + N <= u64::MAX
    ensures parse_rows::<N>(ser_rows(s) + t, s.len()) == Some((s, t))
    decreases s.len()
{
    if s.len() == 0 { assert(ser_rows(s) + t =~= t); assert(s =~= Seq::empty()); }
    else {
        let p = s.drop_last();
        let u = ser_row(s.last()) + t;
        lemma_parse_ser_rows(p, u);
        assert(ser_rows(s) + t =~= ser_rows(p) + u);
        lemma_parse_ser_row(s.last(), t);
        assert(p.push(s.last()) =~= s);
    }
}
/// C13: what `InMemoryDb::write` writes is read back by `InMemoryDb::read` as the same content,
/// and the number of bytes is the one `InMemoryDb::length` announces.
pub proof fn theorem_memory_round_trip<const N: usize>(m: Map<Token, EncryptedValue<N>>, s: Seq<(Token, EncryptedValue<N>)>, tail: Seq<u8>)
    requires enum_map(s, m), m.len() <= u64::MAX, MAC_LENGTH + NONCE_LENGTH + N <= u64::MAX
    ensures
        unleb(leb(s.len()) + ser_rows(s) + tail) == Some((s.len() as u64, ser_rows(s) + tail)),
        parse_rows::<N>(ser_rows(s) + tail, s.len()) == Some((s, tail)),
        seq_to_map(s) == m,
        (leb(s.len()) + ser_rows(s)).len() == leb(m.len()).len() + m.len() * row_len(N),
{
    ax_unleb(s.len(), ser_rows(s) + tail);
    assert(leb(s.len()) + ser_rows(s) + tail =~= leb(s.len()) + (ser_rows(s) + tail));
    lemma_parse_ser_rows(s, tail);
    lemma_stm_enum(s, m);
    lemma_ser_rows_len(s);
}
pub proof fn lemma_ser_rows_len<const N: usize>(s: Seq<(Token, EncryptedValue<N>)>)
    ensures ser_rows(s).len() == s.len() * row_len(N)
    decreases s.len()
{
    broadcast use all_axioms;
    if s.len() > 0 {
        lemma_ser_rows_len(s.drop_last());
        assert(ser_row(s.last()).len() == row_len(N));
        assert(s.len() * row_len(N) == (s.len() - 1) * row_len(N) + row_len(N)) by (nonlinear_arith) requires s.len() > 0;
    }
}
pub proof fn lemma_enum_deref<K, V>(a: Seq<(&K, &V)>, m: Map<K, V>, r: Seq<(K, V)>)
    requires enum_map_refs(a, m), r.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] r[i] == (*a[i].0, *a[i].1)
    ensures enum_map(r, m)
{
    assert forall|k: K| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k by {
        let i = choose|i: int| 0 <= i < a.len() && *(#[trigger] a[i]).0 == k;
        assert(r[i].0 == k);
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 by { assert(*a[i].0 != *a[j].0); }
    assert forall|i: int| 0 <= i < r.len() implies m.contains_key((#[trigger] r[i]).0) && m[r[i].0] == r[i].1 by { assert(m.contains_key(*a[i].0)); }
}
pub proof fn lemma_take_push<T>(t: Seq<T>, p: int)
    requires 0 <= p < t.len()
    ensures t.take(p + 1) == t.take(p).push(t[p]), t.take(p + 1).to_set() == t.take(p).to_set().insert(t[p])
{
    assert(t.take(p + 1) =~= t.take(p).push(t[p]));
    let (u, v) = (t.take(p + 1), t.take(p));
    assert forall|x: T| #[trigger] u.to_set().contains(x) <==> v.to_set().insert(t[p]).contains(x) by {
        if u.contains(x) { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; if i < p { assert(v[i] == x); } }
        if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(u[i] == x); }
        assert(u[p] == t[p]);
    }
    assert(t.take(p + 1).to_set() =~= t.take(p).to_set().insert(t[p]));
}
/// Elements of `keys` (in some order), as tested by `any(|k| !m.contains_key(k))`.
pub proof fn lemma_any_missing<V, W>(r: Seq<&Token>, keys: Map<Token, V>, m: Map<Token, W>, b: bool)
    requires
        exists|t: Seq<Token>| enum_set(t, keys.dom()) && refs_of(r, t),
        b ==> exists|i: int| 0 <= i < r.len() && !m.contains_key(*(#[trigger] r[i])),
        !b ==> forall|i: int| 0 <= i < r.len() ==> m.contains_key(*(#[trigger] r[i])),
    ensures b == exists|t: Token| #[trigger] keys.contains_key(t) && !m.contains_key(t)
{
    let s = choose|t: Seq<Token>| enum_set(t, keys.dom()) && refs_of(r, t);
    if b {
        let i = choose|i: int| 0 <= i < r.len() && !m.contains_key(*(#[trigger] r[i]));
        assert(s.to_set().contains(s[i]));
        assert(keys.contains_key(*r[i]));
    } else {
        assert forall|t: Token| #[trigger] keys.contains_key(t) implies m.contains_key(t) by {
            assert(s.to_set().contains(t));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == t;
            assert(*r[i] == t);
        }
    }
}
pub proof fn lemma_any_present<V, W>(r: Seq<&Token>, keys: Map<Token, V>, m: Map<Token, W>, b: bool)
    requires
        exists|t: Seq<Token>| enum_set(t, keys.dom()) && refs_of(r, t),
        b ==> exists|i: int| 0 <= i < r.len() && m.contains_key(*(#[trigger] r[i])),
        !b ==> forall|i: int| 0 <= i < r.len() ==> !m.contains_key(*(#[trigger] r[i])),
    ensures b == !keys.dom().disjoint(m.dom())
{
    let s = choose|t: Seq<Token>| enum_set(t, keys.dom()) && refs_of(r, t);
    if b {
        let i = choose|i: int| 0 <= i < r.len() && m.contains_key(*(#[trigger] r[i]));
        assert(s.to_set().contains(s[i]));
        assert(keys.dom().contains(*r[i]) && m.dom().contains(*r[i]));
    } else {
        assert forall|t: Token| #[trigger] keys.dom().contains(t) implies !m.dom().contains(t) by {
            if keys.dom().contains(t) {
                assert(s.to_set().contains(t));
                let i = choose|i: int| 0 <= i < s.len() && s[i] == t;
                assert(*r[i] == t);
            }
        }
    }
}
pub proof fn lemma_fetch<const N: usize>(l: Seq<Token>, keys: Set<Token>, m: Map<Token, EncryptedValue<N>>, r: Seq<(Token, EncryptedValue<N>)>)
    requires
        enum_set(l, keys),
        exists|o: Seq<Option<(Token, EncryptedValue<N>)>>| #![trigger somes(o)] o.len() == l.len() && r == somes(o)
            && forall|i: int| 0 <= i < o.len() ==> match #[trigger] o[i] { None => !m.contains_key(l[i]), Some(p) => p.0 == l[i] && m.contains_key(l[i]) && p.1 == m[l[i]] },
    ensures
        fetched(r, keys, store_of(m)),
        forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0,
{
    let o = choose|o: Seq<Option<(Token, EncryptedValue<N>)>>| #![trigger somes(o)] o.len() == l.len() && r == somes(o)
            && forall|i: int| 0 <= i < o.len() ==> match #[trigger] o[i] { None => !m.contains_key(l[i]), Some(p) => p.0 == l[i] && m.contains_key(l[i]) && p.1 == m[l[i]] };
    lemma_somes(o);
    assert forall|j: int| 0 <= j < r.len() implies keys.contains((#[trigger] r[j]).0) && store_of(m).contains_key(r[j].0) && store_of(m)[r[j].0] == r[j].1.ev() by {
        let i = choose|i: int| 0 <= i < o.len() && o[i] == Some(r[j]);
        assert(l.to_set().contains(l[i]));
    }
    assert forall|t: Token| #[trigger] keys.contains(t) && store_of(m).contains_key(t) implies exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == t by {
        assert(l.to_set().contains(t));
        let i = choose|i: int| 0 <= i < l.len() && l[i] == t;
        assert(o[i] is Some);
        let j = choose|j: int| 0 <= j < r.len() && Some(r[j]) == o[i];
        assert(r[j].0 == t);
    }
    lemma_somes_distinct(l, o);
}
pub proof fn lemma_somes_distinct<V>(l: Seq<Token>, o: Seq<Option<(Token, V)>>)
    requires o.len() == l.len(), l.no_duplicates(), forall|i: int| 0 <= i < o.len() ==> ((#[trigger] o[i]) matches Some(p) ==> p.0 == l[i])
    ensures forall|i: int, j: int| 0 <= i < j < somes(o).len() ==> (#[trigger] somes(o)[i]).0 != (#[trigger] somes(o)[j]).0
    decreases o.len()
{
    if o.len() > 0 {
        let p = o.drop_last();
        let q = l.drop_last();
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { assert(l[i] != l[j]); }
        assert forall|i: int| 0 <= i < p.len() implies ((#[trigger] p[i]) matches Some(x) ==> x.0 == q[i]) by { assert(o[i] == p[i]); }
        lemma_somes_distinct(q, p);
        lemma_somes(p);
        let r = somes(o);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 by {
            if j < somes(p).len() { assert(somes(p)[i].0 != somes(p)[j].0); }
            else {
                let k = choose|k: int| 0 <= k < p.len() && p[k] == Some(somes(p)[i]);
                assert(l[k] != l[l.len() - 1]);
                assert(o[o.len() - 1] == Some(r[j]));
            }
        }
    }
}
pub open spec fn accepts_at<const N: usize>(t: Token, old: Map<Token, EncryptedValue<N>>, pre: Map<Token, EncryptedValue<N>>) -> bool { opt_at(old, t) == opt_at(pre, t) }
pub open spec fn upsert_upto<const N: usize>(old: Map<Token, EncryptedValue<N>>, pre: Map<Token, EncryptedValue<N>>, s: Seq<(Token, EncryptedValue<N>)>, p: int) -> Map<Token, EncryptedValue<N>>
    decreases p
{
    if p <= 0 { pre } else {
        let x = s[p - 1];
        let m = upsert_upto(old, pre, s, p - 1);
        if accepts_at(x.0, old, pre) { m.insert(x.0, x.1) } else { m }
    }
}
pub open spec fn rejected_upto<const N: usize>(old: Map<Token, EncryptedValue<N>>, pre: Map<Token, EncryptedValue<N>>, s: Seq<(Token, EncryptedValue<N>)>, p: int) -> Map<Token, EncryptedValue<N>>
    decreases p
{
    if p <= 0 { Map::empty() } else {
        let x = s[p - 1];
        let m = rejected_upto(old, pre, s, p - 1);
        if accepts_at(x.0, old, pre) { m } else { m.insert(x.0, pre[x.0]) }
    }
}
pub proof fn lemma_upto<const N: usize>(old: Map<Token, EncryptedValue<N>>, pre: Map<Token, EncryptedValue<N>>, s: Seq<(Token, EncryptedValue<N>)>, p: int)
    requires 0 <= p <= s.len()
    ensures
        forall|t: Token| #[trigger] upsert_upto(old, pre, s, p).contains_key(t) <==> pre.contains_key(t) || exists|i: int| 0 <= i < p && (#[trigger] s[i]).0 == t && accepts_at(t, old, pre),
        forall|t: Token| (forall|i: int| 0 <= i < p ==> (#[trigger] s[i]).0 != t) ==> #[trigger] upsert_upto(old, pre, s, p)[t] == pre[t],
        forall|t: Token| !accepts_at(t, old, pre) ==> #[trigger] upsert_upto(old, pre, s, p)[t] == pre[t],
        distinct_keys(s) ==> forall|i: int| 0 <= i < p && accepts_at(s[i].0, old, pre) ==> upsert_upto(old, pre, s, p)[(#[trigger] s[i]).0] == s[i].1,
        forall|t: Token| #[trigger] rejected_upto(old, pre, s, p).contains_key(t) <==> exists|i: int| 0 <= i < p && (#[trigger] s[i]).0 == t && !accepts_at(t, old, pre),
        forall|t: Token| #[trigger] rejected_upto(old, pre, s, p).contains_key(t) ==> rejected_upto(old, pre, s, p)[t] == pre[t],
    decreases p
{
    if p > 0 {
        lemma_upto(old, pre, s, p - 1);
        let x = s[p - 1];
        if distinct_keys(s) {
            assert forall|i: int| 0 <= i < p && accepts_at(s[i].0, old, pre) implies upsert_upto(old, pre, s, p)[(#[trigger] s[i]).0] == s[i].1 by {
                if i < p - 1 { assert(s[i].0 != s[p - 1].0); }
            }
        }
        assert forall|t: Token| #[trigger] upsert_upto(old, pre, s, p).contains_key(t) <==> pre.contains_key(t) || exists|i: int| 0 <= i < p && (#[trigger] s[i]).0 == t && accepts_at(t, old, pre) by {
            if upsert_upto(old, pre, s, p).contains_key(t) && !pre.contains_key(t) {
                if t == x.0 && accepts_at(x.0, old, pre) { assert(s[p - 1].0 == t); }
                else {
                    assert(upsert_upto(old, pre, s, p - 1).contains_key(t));
                    let i = choose|i: int| 0 <= i < p - 1 && (#[trigger] s[i]).0 == t && accepts_at(t, old, pre);
                    assert(s[i].0 == t);
                }
            }
            if exists|i: int| 0 <= i < p && (#[trigger] s[i]).0 == t && accepts_at(t, old, pre) {
                let i = choose|i: int| 0 <= i < p && (#[trigger] s[i]).0 == t && accepts_at(t, old, pre);
                if i < p - 1 { assert(upsert_upto(old, pre, s, p - 1).contains_key(t)); }
                assert(upsert_upto(old, pre, s, p).contains_key(t));
            }
            if pre.contains_key(t) { assert(upsert_upto(old, pre, s, p - 1).contains_key(t)); }
        }
        assert forall|t: Token| !accepts_at(t, old, pre) implies #[trigger] upsert_upto(old, pre, s, p)[t] == pre[t] by {
            assert(upsert_upto(old, pre, s, p - 1)[t] == pre[t]);
        }
        assert forall|t: Token| #[trigger] rejected_upto(old, pre, s, p).contains_key(t) implies rejected_upto(old, pre, s, p)[t] == pre[t] by {
            if !(t == x.0 && !accepts_at(x.0, old, pre)) { assert(rejected_upto(old, pre, s, p - 1).contains_key(t)); }
        }
        assert forall|t: Token| (forall|i: int| 0 <= i < p ==> (#[trigger] s[i]).0 != t) implies #[trigger] upsert_upto(old, pre, s, p)[t] == pre[t] by {
            assert(s[p - 1].0 != t);
            assert(upsert_upto(old, pre, s, p - 1)[t] == pre[t]);
        }
        assert forall|t: Token| #[trigger] rejected_upto(old, pre, s, p).contains_key(t) <==> exists|i: int| 0 <= i < p && (#[trigger] s[i]).0 == t && !accepts_at(t, old, pre) by {
            if rejected_upto(old, pre, s, p).contains_key(t) {
                if t == x.0 && !accepts_at(x.0, old, pre) { assert(s[p - 1].0 == t); }
                else {
                    assert(rejected_upto(old, pre, s, p - 1).contains_key(t));
                    let i = choose|i: int| 0 <= i < p - 1 && (#[trigger] s[i]).0 == t && !accepts_at(t, old, pre);
                    assert(s[i].0 == t);
                }
            }
            if exists|i: int| 0 <= i < p && (#[trigger] s[i]).0 == t && !accepts_at(t, old, pre) {
                let i = choose|i: int| 0 <= i < p && (#[trigger] s[i]).0 == t && !accepts_at(t, old, pre);
                if i < p - 1 { assert(rejected_upto(old, pre, s, p - 1).contains_key(t)); }
            }
        }
    }
}
/// What the loop body sees at position `p`.
pub proof fn lemma_upsert_upto<const N: usize>(old: Map<Token, EncryptedValue<N>>, pre: Map<Token, EncryptedValue<N>>, new: Map<Token, EncryptedValue<N>>, s: Seq<(Token, EncryptedValue<N>)>, p: int)
    requires 0 <= p < s.len(), enum_map(s, new), forall|t: Token| old.contains_key(t) ==> #[trigger] pre.contains_key(t)
    ensures
        opt_at(upsert_upto(old, pre, s, p), s[p].0) == opt_at(pre, s[p].0),
        upsert_upto(old, pre, s, p + 1) == (if accepts_at(s[p].0, old, pre) { upsert_upto(old, pre, s, p).insert(s[p].0, s[p].1) } else { upsert_upto(old, pre, s, p) }),
        rejected_upto(old, pre, s, p + 1) == (if accepts_at(s[p].0, old, pre) { rejected_upto(old, pre, s, p) } else { rejected_upto(old, pre, s, p).insert(s[p].0, pre[s[p].0]) }),
        !accepts_at(s[p].0, old, pre) ==> pre.contains_key(s[p].0),
{
    lemma_upto(old, pre, s, p);
    let t = s[p].0;
    assert forall|i: int| 0 <= i < p implies (#[trigger] s[i]).0 != t by { assert(s[i].0 != s[p].0); }
    assert(upsert_upto(old, pre, s, p)[t] == pre[t]);
}
pub proof fn lemma_ev_inj<const N: usize>(a: EncryptedValue<N>, b: EncryptedValue<N>)
    ensures a.ev() == b.ev() ==> a == b
{
    broadcast use all_axioms;
    if a.ev() == b.ev() {
        assert(mk_arr::<u8, N>(a.ciphertext@) == a.ciphertext);
        assert(mk_arr::<u8, N>(b.ciphertext@) == b.ciphertext);
        assert(mk_arr::<u8, MAC_LENGTH>(a.tag@) == a.tag);
        assert(mk_arr::<u8, MAC_LENGTH>(b.tag@) == b.tag);
        assert(mk_arr::<u8, NONCE_LENGTH>(a.nonce.0@) == a.nonce.0);
        assert(mk_arr::<u8, NONCE_LENGTH>(b.nonce.0@) == b.nonce.0);
    }
}
pub proof fn lemma_accepts<const N: usize>(t: Token, old: Map<Token, EncryptedValue<N>>, pre: Map<Token, EncryptedValue<N>>)
    ensures upsert_accepts(t, store_of(old), store_of(pre)) == accepts_at(t, old, pre)
{
    if old.contains_key(t) && pre.contains_key(t) { lemma_ev_inj(old[t], pre[t]); }
}
pub proof fn lemma_upsert_done<const N: usize>(old: Map<Token, EncryptedValue<N>>, pre: Map<Token, EncryptedValue<N>>, new: Map<Token, EncryptedValue<N>>, s: Seq<(Token, EncryptedValue<N>)>, post: Map<Token, EncryptedValue<N>>, rej: Map<Token, EncryptedValue<N>>)
    requires
        enum_map(s, new), forall|t: Token| old.contains_key(t) ==> #[trigger] pre.contains_key(t),
        post == upsert_upto(old, pre, s, s.len() as int), rej == rejected_upto(old, pre, s, s.len() as int),
    ensures
        !upsert_fails(store_of(old), store_of(pre)),
        store_of(post) == upsert_post(store_of(old), store_of(new), store_of(pre)),
        store_of(rej) == upsert_rejected(store_of(old), store_of(new), store_of(pre)),
{
    lemma_upto(old, pre, s, s.len() as int);
    let (so, sn, sp) = (store_of(old), store_of(new), store_of(pre));
    assert forall|t: Token| upsert_accepts(t, so, sp) == #[trigger] accepts_at(t, old, pre) by { lemma_accepts(t, old, pre); }
    assert(distinct_keys(s));
    assert forall|t: Token| #[trigger] store_of(post).contains_key(t) <==> upsert_post(so, sn, sp).contains_key(t) by {
        lemma_accepts(t, old, pre);
        assert(store_of(post).contains_key(t) <==> post.contains_key(t));
        if new.contains_key(t) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == t; assert(s[i].0 == t); }
    }
    assert forall|t: Token| store_of(post).contains_key(t) implies #[trigger] store_of(post)[t] == upsert_post(so, sn, sp)[t] by {
        lemma_accepts(t, old, pre);
        assert(post.contains_key(t));
        if new.contains_key(t) && accepts_at(t, old, pre) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == t;
            assert(post[s[i].0] == s[i].1);
        } else if accepts_at(t, old, pre) {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 != t by { assert(new.contains_key(s[i].0)); }
        } else {
            assert(upsert_upto(old, pre, s, s.len() as int)[t] == pre[t]);
        }
    }
    assert(store_of(post) =~= upsert_post(so, sn, sp));
    assert forall|t: Token| #[trigger] store_of(rej).contains_key(t) <==> upsert_rejected(so, sn, sp).contains_key(t) by {
        lemma_accepts(t, old, pre);
        assert(store_of(rej).contains_key(t) <==> rej.contains_key(t));
        if new.contains_key(t) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == t; assert(s[i].0 == t); }
    }
    assert forall|t: Token| store_of(rej).contains_key(t) implies #[trigger] store_of(rej)[t] == upsert_rejected(so, sn, sp)[t] by {
        lemma_accepts(t, old, pre);
        assert(rej.contains_key(t));
    }
    assert(store_of(rej) =~= upsert_rejected(so, sn, sp));
}
pub proof fn lemma_insert_done<const N: usize>(items: Map<Token, EncryptedValue<N>>, pre: Map<Token, EncryptedValue<N>>, post: Map<Token, EncryptedValue<N>>)
    requires exists|s: Seq<(Token, EncryptedValue<N>)>| #[trigger] enum_map(s, items) && post == pre.union_prefer_right(seq_to_map(s))
    ensures store_of(post) == store_of(pre).union_prefer_right(store_of(items)), store_of(items).dom() == items.dom(), store_of(pre).dom() == pre.dom()
{
    let s = choose|s: Seq<(Token, EncryptedValue<N>)>| #[trigger] enum_map(s, items) && post == pre.union_prefer_right(seq_to_map(s));
    lemma_stm_enum(s, items);
    assert(store_of(post) =~= store_of(pre).union_prefer_right(store_of(items)));
    assert(store_of(items).dom() =~= items.dom());
    assert(store_of(pre).dom() =~= pre.dom());
}
