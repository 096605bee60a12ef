// ====================================================================================
// Lemmas on sequences, maps and enumerations.
// ====================================================================================
pub open spec fn distinct_keys<K, V>(s: Seq<(K, V)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
}
/// A binding of `seq_to_map(s)` comes from `s`, and every key of `s` is bound.
pub proof fn lemma_stm<K, V>(s: Seq<(K, V)>)
    ensures
        forall|k: K| #[trigger] seq_to_map(s).contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, seq_to_map(s)[k]),
        forall|i: int| 0 <= i < s.len() ==> seq_to_map(s).contains_key((#[trigger] s[i]).0),
        distinct_keys(s) ==> forall|i: int| 0 <= i < s.len() ==> seq_to_map(s)[(#[trigger] s[i]).0] == s[i].1,
        distinct_keys(s) ==> seq_to_map(s).len() == s.len(),
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_stm(p);
        assert forall|k: K| #[trigger] seq_to_map(s).contains_key(k) implies exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, seq_to_map(s)[k]) by {
            if k == s.last().0 { assert(s[s.len() - 1] == (k, seq_to_map(s)[k])); }
            else {
                assert(seq_to_map(p).contains_key(k));
                let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == (k, seq_to_map(p)[k]);
                assert(s[i] == (k, seq_to_map(s)[k]));
            }
        }
        assert forall|i: int| 0 <= i < s.len() implies seq_to_map(s).contains_key((#[trigger] s[i]).0) by {
            if i < s.len() - 1 { assert(p[i] == s[i]); }
        }
        if distinct_keys(s) {
            assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).0 != (#[trigger] p[j]).0 by { assert(s[i].0 != s[j].0); }
            assert forall|i: int| 0 <= i < s.len() implies seq_to_map(s)[(#[trigger] s[i]).0] == s[i].1 by {
                if i < s.len() - 1 { assert(p[i] == s[i]); assert(s[i].0 != s[s.len() - 1].0); }
            }
            if seq_to_map(p).contains_key(s.last().0) {
                let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == (s.last().0, seq_to_map(p)[s.last().0]);
                assert(s[i].0 != s[s.len() - 1].0);
            }
        }
    }
}
/// Enumerating a map and collecting the bindings gives the map back.
pub proof fn lemma_stm_enum<K, V>(s: Seq<(K, V)>, m: Map<K, V>)
    requires enum_map(s, m)
    ensures seq_to_map(s) == m
{
    lemma_stm(s);
    assert forall|k: K| seq_to_map(s).contains_key(k) <==> #[trigger] m.contains_key(k) by {
        if m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(seq_to_map(s).contains_key(s[i].0)); }
        if seq_to_map(s).contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, seq_to_map(s)[k]); assert(m.contains_key(s[i].0)); }
    }
    assert forall|k: K| seq_to_map(s).contains_key(k) implies #[trigger] seq_to_map(s)[k] == m[k] by {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, seq_to_map(s)[k]);
        assert(m[s[i].0] == s[i].1);
    }
    assert(seq_to_map(s) =~= m);
}
/// Collecting the image of the bindings by a function that keeps the keys.
pub proof fn lemma_stm_map<K, V, W>(s: Seq<(K, V)>, m: Map<K, V>, t: Seq<(K, W)>)
    requires
        enum_map(s, m), t.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).0 == s[i].0,
    ensures
        distinct_keys(t),
        enum_map(t, seq_to_map(t)),
        seq_to_map(t).dom() == m.dom(),
        forall|i: int| 0 <= i < t.len() ==> seq_to_map(t)[(#[trigger] t[i]).0] == t[i].1,
        forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, m[k]) && t[i] == (k, seq_to_map(t)[k]),
{
    lemma_stm(t);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(s[i].0 != s[j].0); }
    assert forall|k: K| seq_to_map(t).contains_key(k) <==> #[trigger] m.contains_key(k) by {
        if m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(seq_to_map(t).contains_key(t[i].0)); }
        if seq_to_map(t).contains_key(k) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == (k, seq_to_map(t)[k]); assert(m.contains_key(s[i].0)); }
    }
    assert(seq_to_map(t).dom() =~= m.dom());
    assert forall|k: K| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, m[k]) && t[i] == (k, seq_to_map(t)[k]) by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        assert(s[i] == (k, m[k]));
        assert(t[i].0 == k);
    }
    assert forall|k: K| #[trigger] seq_to_map(t).contains_key(k) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k by {
        let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == (k, seq_to_map(t)[k]);
    }
}
/// `x` is an element of `s` selected by `m`.
pub open spec fn picked<T>(s: Seq<T>, m: Seq<bool>, x: T) -> bool { exists|i: int| 0 <= i < s.len() && m[i] && #[trigger] s[i] == x }
/// The elements kept by a filter.
pub proof fn lemma_sel<T>(s: Seq<T>, m: Seq<bool>)
    requires m.len() == s.len()
    ensures
        sel(s, m).len() <= s.len(),
        forall|x: T| #[trigger] sel(s, m).contains(x) <==> picked(s, m, x),
        s.no_duplicates() ==> sel(s, m).no_duplicates(),
    decreases s.len()
{
    let r = sel(s, m);
    if s.len() > 0 {
        let p = s.drop_last();
        let q = m.drop_last();
        let u = sel(p, q);
        lemma_sel(p, q);
        assert forall|x: T| #[trigger] r.contains(x) <==> picked(s, m, x) by {
            if r.contains(x) {
                let j = choose|j: int| 0 <= j < r.len() && r[j] == x;
                if j < u.len() {
                    assert(u[j] == x);
                    assert(u.contains(x));
                    let i = choose|i: int| 0 <= i < p.len() && q[i] && #[trigger] p[i] == x;
                    assert(m[i] && s[i] == x);
                } else { assert(m[s.len() - 1] && s[s.len() - 1] == x); }
            }
            if picked(s, m, x) {
                let i = choose|i: int| 0 <= i < s.len() && m[i] && #[trigger] s[i] == x;
                if i < p.len() {
                    assert(q[i] && p[i] == x);
                    assert(u.contains(x));
                    let j = choose|j: int| 0 <= j < u.len() && u[j] == x;
                    assert(r[j] == x);
                } else { assert(r[r.len() - 1] == x); }
            }
        }
        if s.no_duplicates() {
            assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { assert(s[i] != s[j]); }
            assert(p.no_duplicates());
            if m.last() {
                assert forall|j: int| 0 <= j < u.len() implies u[j] != s.last() by {
                    assert(u.contains(u[j]));
                    let i = choose|i: int| 0 <= i < p.len() && q[i] && #[trigger] p[i] == u[j];
                    assert(s[i] != s[s.len() - 1]);
                }
            }
        }
    } else {
        assert forall|x: T| #[trigger] r.contains(x) <==> picked(s, m, x) by {}
    }
}
pub proof fn lemma_somes<T>(s: Seq<Option<T>>)
    ensures
        somes(s).len() <= s.len(),
        forall|j: int| 0 <= j < somes(s).len() ==> exists|i: int| 0 <= i < s.len() && s[i] == Some(#[trigger] somes(s)[j]),
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some ==> exists|j: int| 0 <= j < somes(s).len() && Some(somes(s)[j]) == s[i],
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_somes(p);
        let r = somes(s);
        assert forall|j: int| 0 <= j < r.len() implies exists|i: int| 0 <= i < s.len() && s[i] == Some(#[trigger] r[j]) by {
            if j < somes(p).len() {
                assert(somes(p)[j] == r[j]);
                let i = choose|i: int| 0 <= i < p.len() && p[i] == Some(somes(p)[j]);
                assert(s[i] == Some(r[j]));
            } else { assert(s[s.len() - 1] == Some(r[j])); }
        }
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some implies exists|j: int| 0 <= j < r.len() && Some(r[j]) == s[i] by {
            if i < s.len() - 1 {
                assert(p[i] == s[i]);
                let j = choose|j: int| 0 <= j < somes(p).len() && Some(somes(p)[j]) == p[i];
                assert(Some(r[j]) == s[i]);
            } else { assert(Some(r[r.len() - 1]) == s[i]); }
        }
    }
}
/// `x` occurs in one of the parts.
pub open spec fn in_parts<T>(p: Seq<Seq<T>>, x: T) -> bool { exists|a: int| 0 <= a < p.len() && (#[trigger] p[a]).contains(x) }
pub proof fn lemma_concat<T>(p: Seq<Seq<T>>)
    ensures forall|x: T| #[trigger] concat(p).contains(x) <==> in_parts(p, x)
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        lemma_concat(q);
        let l = p.last();
        let r = concat(p);
        assert forall|x: T| #[trigger] r.contains(x) <==> in_parts(p, x) by {
            if r.contains(x) {
                let j = choose|j: int| 0 <= j < r.len() && r[j] == x;
                if j < concat(q).len() {
                    assert(concat(q)[j] == x);
                    assert(concat(q).contains(x));
                    let a = choose|a: int| 0 <= a < q.len() && (#[trigger] q[a]).contains(x);
                    assert(p[a].contains(x));
                } else { assert(l[j - concat(q).len()] == x); assert(p[p.len() - 1].contains(x)); }
            }
            if in_parts(p, x) {
                let a = choose|a: int| 0 <= a < p.len() && (#[trigger] p[a]).contains(x);
                if a < q.len() {
                    assert(q[a].contains(x));
                    assert(concat(q).contains(x));
                    let j = choose|j: int| 0 <= j < concat(q).len() && concat(q)[j] == x;
                    assert(r[j] == x);
                } else {
                    let b = choose|b: int| 0 <= b < l.len() && l[b] == x;
                    assert(r[concat(q).len() + b] == x);
                }
            }
        }
    }
}
