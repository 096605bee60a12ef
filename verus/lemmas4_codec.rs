// ------------------------------------------------------------------ values as sequences of blocks
/// One block of a line.
pub struct Blk { pub op: Operation, pub ends: bool, pub data: Seq<u8> }
pub open spec fn blk(l: Seq<u8>, pos: int) -> Blk { Blk { op: block_op(l, pos), ends: block_ends(l, pos), data: block_data(l, pos) } }
pub open spec fn pad_blk() -> Blk { Blk { op: Operation::Deletion, ends: true, data: Seq::empty() } }
/// The first `n` blocks of a line.
pub open spec fn first_blocks(l: Seq<u8>, n: nat) -> Seq<Blk> { Seq::new(n, |p: int| blk(l, p)) }
/// All the blocks of a chain, in order.
pub open spec fn chain_blocks(c: Seq<Link>) -> Seq<Blk>
    decreases c.len()
{
    if c.len() == 0 { Seq::empty() } else { chain_blocks(c.drop_last()) + first_blocks(c.last().0@, LINE_WIDTH as nat) }
}
/// A line this library writes: every length byte is at most BLOCK_LENGTH, or 255.
pub open spec fn link_ok(l: Seq<u8>) -> bool { forall|p: int| #![trigger block_ok(l, p)] 0 <= p < LINE_WIDTH ==> block_ok(l, p) }
pub open spec fn links_ok(c: Seq<Link>) -> bool { forall|i: int| 0 <= i < c.len() ==> link_ok((#[trigger] c[i]).0@) }

/// The full blocks of `v` up to the `n`th, then the last one.
pub open spec fn enc_full(op: Operation, v: Seq<u8>, n: nat) -> Seq<Blk> {
    Seq::new(n, |i: int| Blk { op: op, ends: false, data: v.subrange(i * BLOCK_LENGTH, (i + 1) * BLOCK_LENGTH) })
}
pub open spec fn n_full(v: Seq<u8>) -> nat { v.len() / (BLOCK_LENGTH as nat) }
pub open spec fn enc_value(op: Operation, v: Seq<u8>) -> Seq<Blk> {
    enc_full(op, v, n_full(v)).push(Blk { op: op, ends: true, data: v.skip((n_full(v) * BLOCK_LENGTH) as int) })
}
pub open spec fn enc_mods(m: Seq<(Operation, Vec<u8>)>) -> Seq<Blk>
    decreases m.len()
{
    if m.len() == 0 { Seq::empty() } else { enc_mods(m.drop_last()) + enc_value(m.last().0, m.last().1@) }
}
/// Number of lines needed for `n` blocks.
pub open spec fn n_lines(n: nat) -> nat { (n + (LINE_WIDTH - 1) as nat) / (LINE_WIDTH as nat) }
/// `b` followed by padding blocks up to the end of the last line.
pub open spec fn padded(b: Seq<Blk>) -> Seq<Blk> {
    b + Seq::new((n_lines(b.len()) * LINE_WIDTH - b.len()) as nat, |i: int| pad_blk())
}

/// State of the reader after some blocks.
pub struct Rd { pub ok: bool, pub done: Seq<(Operation, Vec<u8>)>, pub stack: Seq<u8>, pub cur: Option<Operation> }
pub open spec fn rd0() -> Rd { Rd { ok: true, done: Seq::empty(), stack: Seq::empty(), cur: None } }
pub open spec fn rd_step(s: Rd, b: Blk) -> Rd {
    if !s.ok { s }
    else if s.cur is Some && s.cur != Some(b.op) { Rd { ok: false, ..s } }
    else if b.ends { Rd { ok: true, done: s.done.push((b.op, mk_vec(s.stack + b.data))), stack: Seq::empty(), cur: None } }
    else { Rd { ok: true, done: s.done, stack: s.stack + b.data, cur: Some(b.op) } }
}
pub open spec fn rd(s: Rd, b: Seq<Blk>) -> Rd
    decreases b.len()
{
    if b.len() == 0 { s } else { rd_step(rd(s, b.drop_last()), b.last()) }
}
/// The modifications read from a chain.
pub open spec fn parse(b: Seq<Blk>) -> Rd { rd(rd0(), b) }
/// The state left by a sequence of modifications, starting from `s`.
pub open spec fn replay_from(s: Set<Vec<u8>>, m: Seq<(Operation, Vec<u8>)>) -> Set<Vec<u8>>
    decreases m.len()
{
    if m.len() == 0 { s }
    else {
        let p = replay_from(s, m.drop_last());
        if m.last().0 == Operation::Addition { p.insert(m.last().1) } else { p.remove(m.last().1) }
    }
}
pub open spec fn replay(m: Seq<(Operation, Vec<u8>)>) -> Set<Vec<u8>> { replay_from(Set::empty(), m) }
/// The content of a chain.
pub open spec fn chain_set(c: Seq<Link>) -> Set<Vec<u8>> { replay(parse(chain_blocks(c)).done) }

pub open spec fn flat(s: Seq<&[u8]>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last()@ }
}

pub proof fn lemma_flat_push(s: Seq<&[u8]>, x: &[u8])
    ensures flat(s.push(x)) == flat(s) + x@
{
    assert(s.push(x).drop_last() =~= s);
}
pub proof fn lemma_chain_push(c: Seq<Link>, l: Link)
    ensures chain_blocks(c.push(l)) == chain_blocks(c) + first_blocks(l.0@, LINE_WIDTH as nat)
{
    assert(c.push(l).drop_last() =~= c);
}
pub proof fn lemma_chain_len(c: Seq<Link>)
    ensures chain_blocks(c).len() == LINE_WIDTH * c.len()
    decreases c.len()
{
    if c.len() > 0 { lemma_chain_len(c.drop_last()); }
}
pub proof fn lemma_mods_push(m: Seq<(Operation, Vec<u8>)>, x: (Operation, Vec<u8>))
    ensures enc_mods(m.push(x)) == enc_mods(m) + enc_value(x.0, x.1@)
{
    assert(m.push(x).drop_last() =~= m);
}
pub proof fn lemma_first_push(a: Seq<u8>, b: Seq<u8>, pos: nat, x: Blk)
    requires blk(b, pos as int) == x, forall|q: int| 0 <= q < pos ==> #[trigger] blk(b, q) == blk(a, q)
    ensures first_blocks(b, (pos + 1) as nat) == first_blocks(a, pos).push(x)
{
    assert(first_blocks(b, (pos + 1) as nat) =~= first_blocks(a, pos).push(x));
}
/// Writing a block leaves the other ones as they are.
pub proof fn lemma_other_blocks(a: Seq<u8>, b: Seq<u8>, pos: int)
    requires same_but_block(a, b, pos), a.len() == LINK_LENGTH, b.len() == LINK_LENGTH, 0 <= pos < LINE_WIDTH,
        link_ok(a), block_ok(b, pos)
    ensures
        forall|q: int| 0 <= q < LINE_WIDTH && q != pos ==> #[trigger] blk(b, q) == blk(a, q),
        block_op(b, pos) == block_op(a, pos),
        link_ok(b),
{
    assert(b[0] == a[0]);
    assert forall|q: int| 0 <= q < LINE_WIDTH && q != pos implies #[trigger] blk(b, q) == blk(a, q) by {
        assert(block_ok(a, q));
        assert(b[block_at(q)] == a[block_at(q)]);
        assert(block_data(b, q) =~= block_data(a, q));
    }
    assert forall|q: int| 0 <= q < LINE_WIDTH implies #[trigger] block_ok(b, q) by {
        if q != pos { assert(block_ok(a, q)); assert(b[block_at(q)] == a[block_at(q)]); }
    }
}
/// Setting the operation bit of a block changes nothing else.
pub proof fn lemma_op_blocks(a: Seq<u8>, b: Seq<u8>, pos: int)
    requires a.len() == LINK_LENGTH, b.len() == LINK_LENGTH, 0 <= pos < LINE_WIDTH, link_ok(a),
        forall|i: int| 0 < i < LINK_LENGTH ==> #[trigger] b[i] == a[i],
        forall|q: int| 0 <= q < LINE_WIDTH && q != pos ==> block_op(b, q) == #[trigger] block_op(a, q),
    ensures
        forall|q: int| 0 <= q < LINE_WIDTH && q != pos ==> #[trigger] blk(b, q) == blk(a, q),
        link_ok(b),
{
    assert forall|q: int| 0 <= q < LINE_WIDTH implies #[trigger] block_data(b, q) == block_data(a, q) && block_ok(b, q) && block_ends(b, q) == block_ends(a, q) by {
        assert(block_ok(a, q));
        assert(b[block_at(q)] == a[block_at(q)]);
        assert(block_data(b, q) =~= block_data(a, q));
    }
    assert forall|q: int| 0 <= q < LINE_WIDTH && q != pos implies #[trigger] blk(b, q) == blk(a, q) by {
        assert(block_op(b, q) == block_op(a, q));
        assert(block_data(b, q) == block_data(a, q));
    }
    assert forall|q: int| 0 <= q < LINE_WIDTH implies #[trigger] block_ok(b, q) by { assert(block_data(b, q) == block_data(a, q)); }
}
/// An empty line holds padding blocks only.
pub proof fn lemma_empty_link(l: Seq<u8>)
    requires l == zeros(LINK_LENGTH as nat)
    ensures forall|q: int| 0 <= q < LINE_WIDTH ==> #[trigger] blk(l, q) == pad_blk(), link_ok(l)
{
    assert forall|q: int| 0 <= q < LINE_WIDTH implies #[trigger] blk(l, q) == pad_blk() by {
        let p = q as usize;
        assert(l[0] == 0u8 && l[block_at(q)] == 0u8);
        assert(p < 5 ==> !((0u8 >> p) & 1u8 == 1u8)) by (bit_vector);
        assert(block_data(l, q) =~= Seq::<u8>::empty());
    }
    assert forall|q: int| 0 <= q < LINE_WIDTH implies #[trigger] block_ok(l, q) by { assert(l[block_at(q)] == 0u8); }
}

// ------------------------------------------------------------------ reading what was written
pub proof fn lemma_rd_concat(s: Rd, a: Seq<Blk>, b: Seq<Blk>)
    ensures rd(s, a + b) == rd(rd(s, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_rd_concat(s, a, b.drop_last());
    }
}
pub proof fn lemma_rd_push(s: Rd, a: Seq<Blk>, b: Blk)
    ensures rd(s, a.push(b)) == rd_step(rd(s, a), b)
{
    assert(a.push(b).drop_last() =~= a);
}
/// A reader between two values.
pub open spec fn idle(s: Rd) -> bool { s.ok && s.stack == Seq::<u8>::empty() && s.cur is None }
/// `s` with more modifications read.
pub open spec fn more(s: Rd, m: Seq<(Operation, Vec<u8>)>) -> Rd { Rd { done: s.done + m, ..s } }
pub proof fn lemma_rd_full(s: Rd, op: Operation, v: Seq<u8>, n: nat)
    requires idle(s), n * BLOCK_LENGTH <= v.len()
    ensures
        rd(s, enc_full(op, v, n)) == (Rd { ok: true, done: s.done, stack: v.subrange(0, n * BLOCK_LENGTH), cur: if n == 0 { None } else { Some(op) } }),
    decreases n
{
    if n == 0 { assert(v.subrange(0, 0) =~= Seq::<u8>::empty()); }
    else {
        let m = (n - 1) as nat;
        lemma_rd_full(s, op, v, m);
        let b = Blk { op: op, ends: false, data: v.subrange(m * BLOCK_LENGTH, (m + 1) * BLOCK_LENGTH) };
        assert(enc_full(op, v, n) =~= enc_full(op, v, m).push(b));
        lemma_rd_push(s, enc_full(op, v, m), b);
        assert(v.subrange(0, m * BLOCK_LENGTH) + b.data =~= v.subrange(0, n * BLOCK_LENGTH));
    }
}
pub proof fn lemma_rd_value(s: Rd, op: Operation, v: Vec<u8>)
    requires idle(s)
    ensures rd(s, enc_value(op, v@)) == more(s, seq![(op, v)])
{
    broadcast use all_axioms;
    let n = n_full(v@);
    assert(n * BLOCK_LENGTH <= v@.len());
    lemma_rd_full(s, op, v@, n);
    let b = Blk { op: op, ends: true, data: v@.skip((n * BLOCK_LENGTH) as int) };
    lemma_rd_push(s, enc_full(op, v@, n), b);
    assert(v@.subrange(0, n * BLOCK_LENGTH) + b.data =~= v@);
    assert(s.done.push((op, v)) =~= s.done + seq![(op, v)]);
}
pub proof fn lemma_rd_mods(s: Rd, m: Seq<(Operation, Vec<u8>)>)
    requires idle(s)
    ensures rd(s, enc_mods(m)) == more(s, m)
    decreases m.len()
{
    if m.len() == 0 { assert(s.done + m =~= s.done); }
    else {
        let p = m.drop_last();
        lemma_rd_mods(s, p);
        lemma_rd_concat(s, enc_mods(p), enc_value(m.last().0, m.last().1@));
        lemma_rd_value(more(s, p), m.last().0, m.last().1);
        assert(s.done + p + seq![m.last()] =~= s.done + m);
    }
}
pub open spec fn pad_mod() -> (Operation, Vec<u8>) { (Operation::Deletion, mk_vec(Seq::<u8>::empty())) }
pub open spec fn pad_mods(n: nat) -> Seq<(Operation, Vec<u8>)> { Seq::new(n, |i: int| pad_mod()) }
pub open spec fn n_pad(b: Seq<Blk>) -> nat { (n_lines(b.len()) * LINE_WIDTH - b.len()) as nat }
pub proof fn lemma_rd_pad(s: Rd, n: nat)
    requires idle(s)
    ensures rd(s, Seq::new(n, |i: int| pad_blk())) == more(s, pad_mods(n))
    decreases n
{
    let b = Seq::new(n, |i: int| pad_blk());
    if n == 0 { assert(s.done + pad_mods(0) =~= s.done); }
    else {
        lemma_rd_pad(s, (n - 1) as nat);
        assert(b.drop_last() =~= Seq::new((n - 1) as nat, |i: int| pad_blk()));
        assert(Seq::<u8>::empty() + Seq::<u8>::empty() =~= Seq::<u8>::empty());
        assert((s.done + pad_mods((n - 1) as nat)).push(pad_mod()) =~= s.done + pad_mods(n));
    }
}
/// Reading the lines written for `m` gives `m` back (then the padding, which deletes the empty value).
pub proof fn lemma_rd_padded(s: Rd, m: Seq<(Operation, Vec<u8>)>)
    requires idle(s)
    ensures rd(s, padded(enc_mods(m))) == more(s, m + pad_mods(n_pad(enc_mods(m))))
{
    let b = enc_mods(m);
    lemma_rd_mods(s, m);
    lemma_rd_concat(s, b, Seq::new(n_pad(b), |i: int| pad_blk()));
    lemma_rd_pad(more(s, m), n_pad(b));
    assert(s.done + m + pad_mods(n_pad(b)) =~= s.done + (m + pad_mods(n_pad(b))));
}
pub proof fn lemma_replay_concat(s: Set<Vec<u8>>, a: Seq<(Operation, Vec<u8>)>, b: Seq<(Operation, Vec<u8>)>)
    ensures replay_from(s, a + b) == replay_from(replay_from(s, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_replay_concat(s, a, b.drop_last());
    }
}
pub proof fn lemma_replay_pad(s: Set<Vec<u8>>, n: nat)
    requires !s.contains(mk_vec(Seq::empty()))
    ensures replay_from(s, pad_mods(n)) == s
    decreases n
{
    if n > 0 {
        lemma_replay_pad(s, (n - 1) as nat);
        assert(pad_mods(n).drop_last() =~= pad_mods((n - 1) as nat));
        assert(s.remove(mk_vec(Seq::empty())) =~= s);
    }
}
/// No modification of the empty byte string (indexed values start with their kind).
pub open spec fn no_empty(m: Seq<(Operation, Vec<u8>)>) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).1@.len() > 0 }
pub proof fn lemma_replay_no_empty(s: Set<Vec<u8>>, m: Seq<(Operation, Vec<u8>)>)
    requires no_empty(m), !s.contains(mk_vec(Seq::empty()))
    ensures !replay_from(s, m).contains(mk_vec(Seq::empty()))
    decreases m.len()
{
    broadcast use all_axioms;
    if m.len() > 0 {
        lemma_replay_no_empty(s, m.drop_last());
        assert(m[m.len() - 1].1@.len() > 0);
        assert(mk_vec(Seq::<u8>::empty())@ == Seq::<u8>::empty());
    }
}
pub proof fn lemma_rd_bad(s: Rd, b: Seq<Blk>)
    requires !s.ok
    ensures !rd(s, b).ok
    decreases b.len()
{
    if b.len() > 0 { lemma_rd_bad(s, b.drop_last()); }
}
pub proof fn lemma_chain_split(c: Seq<Link>, i: int)
    requires 0 <= i <= c.len()
    ensures chain_blocks(c) == chain_blocks(c.take(i)) + chain_blocks(c.skip(i))
    decreases c.len() - i
{
    if i == c.len() { assert(c.take(i) =~= c); assert(c.skip(i) =~= Seq::empty()); assert(chain_blocks(c.skip(i)) =~= Seq::empty()); }
    else {
        let d = c.drop_last();
        lemma_chain_split(d, i);
        assert(d.take(i) =~= c.take(i));
        assert(c.skip(i).drop_last() =~= d.skip(i));
        assert(c.skip(i).last() == c.last());
        assert(chain_blocks(c) =~= chain_blocks(c.take(i)) + chain_blocks(c.skip(i)));
    }
}
/// Reading fails as soon as reading a prefix fails.
pub proof fn lemma_parse_prefix(c: Seq<Link>, i: int, p: nat)
    requires 0 <= i < c.len(), p <= LINE_WIDTH, !rd(parse(chain_blocks(c.take(i))), first_blocks(c[i].0@, p)).ok
    ensures !parse(chain_blocks(c)).ok
{
    let l = c[i].0@;
    lemma_chain_split(c, i + 1);
    assert(c.take(i + 1) =~= c.take(i).push(c[i]));
    lemma_chain_push(c.take(i), c[i]);
    let a = chain_blocks(c.take(i));
    let b = first_blocks(l, p);
    let d = Seq::new((LINE_WIDTH - p) as nat, |q: int| blk(l, p + q));
    let e = chain_blocks(c.skip(i + 1));
    assert(first_blocks(l, LINE_WIDTH as nat) =~= b + d);
    assert(chain_blocks(c) =~= a + (b + (d + e)));
    lemma_rd_concat(rd0(), a, b + (d + e));
    lemma_rd_concat(parse(a), b, d + e);
    lemma_rd_bad(rd(parse(a), b), d + e);
}
