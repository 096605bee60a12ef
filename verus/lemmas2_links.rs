// ------------------------------------------------------------------ entries and links
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn zero_token() -> Token { Token(mk_arr(zeros(TOKEN_LENGTH as nat))) }
pub proof fn lemma_zeros()
    ensures zero_token().0@ == zeros(32), zeros(32).len() == 32
{ broadcast use all_axioms; }
pub proof fn lemma_zeros_arr()
    ensures forall|a: [u8; 32]| #[trigger] a@ == zeros(32) ==> a == zero_token().0
{ broadcast use all_axioms; }
/// Serialized entry: last chain token (zeros when there is none), seed, tag hash.
pub open spec fn ser_entry<C: DxEnc<LINK_LENGTH>>(e: Entry<C>) -> Seq<u8> {
    (match e.chain_token { Some(t) => t.0@, None => zeros(TOKEN_LENGTH as nat) }) + e.seed.v_bytes() + e.tag_hash@
}
pub open spec fn de_entry<C: DxEnc<LINK_LENGTH>>(b: Seq<u8>, e: Entry<C>) -> bool {
    &&& e.chain_token == de_entry_token(b)
    &&& e.seed.v_bytes() == de_entry_seed(b)
    &&& e.tag_hash@ == de_entry_hash(b)
}
pub open spec fn de_entry_token(b: Seq<u8>) -> Option<Token> {
    let t = b.subrange(0, TOKEN_LENGTH as int);
    if t == zeros(TOKEN_LENGTH as nat) { None } else { Some(Token(mk_arr(t))) }
}
pub open spec fn de_entry_seed(b: Seq<u8>) -> Seq<u8> { b.subrange(TOKEN_LENGTH as int, TOKEN_LENGTH + SEED_LENGTH) }
pub open spec fn de_entry_hash(b: Seq<u8>) -> Seq<u8> { b.subrange(TOKEN_LENGTH + SEED_LENGTH, ENTRY_LENGTH as int) }
/// What was serialized is read back (a chain token of 32 zero bytes stands for an empty chain).
pub proof fn lemma_entry_round_trip<C: DxEnc<LINK_LENGTH>>(e: Entry<C>)
    requires e.chain_token != Some(zero_token())
    ensures
        ser_entry(e).len() == ENTRY_LENGTH,
        de_entry_token(ser_entry(e)) == e.chain_token,
        de_entry_seed(ser_entry(e)) == e.seed.v_bytes(),
        de_entry_hash(ser_entry(e)) == e.tag_hash@,
{
    broadcast use all_axioms;
    C::ax_seed(e.seed);
    lemma_zeros();
    let b = ser_entry(e);
    assert(de_entry_seed(b) =~= e.seed.v_bytes());
    assert(de_entry_hash(b) =~= e.tag_hash@);
    match e.chain_token {
        Some(t) => {
            assert(b.subrange(0, 32) =~= t.0@);
            assert(mk_arr::<u8, 32>(t.0@) == t.0);
            if t.0@ == zeros(32) { assert(t.0 == zero_token().0); }
        }
        None => { assert(b.subrange(0, 32) =~= zeros(32)); }
    }
}

/// A link: one byte of operation bits, then LINE_WIDTH blocks of one length byte and BLOCK_LENGTH bytes.
pub open spec fn block_at(pos: int) -> int { 1 + pos * (BLOCK_LENGTH + 1) }
pub open spec fn block_ok(l: Seq<u8>, pos: int) -> bool { l[block_at(pos)] <= BLOCK_LENGTH || l[block_at(pos)] == 255 }
pub open spec fn block_ends(l: Seq<u8>, pos: int) -> bool { l[block_at(pos)] != 255 }
pub open spec fn block_data(l: Seq<u8>, pos: int) -> Seq<u8> {
    let n = if l[block_at(pos)] == 255 { BLOCK_LENGTH as int } else { l[block_at(pos)] as int };
    l.subrange(block_at(pos) + 1, block_at(pos) + 1 + n)
}
pub open spec fn op_bit(b: u8, pos: usize) -> bool { (b >> pos) & 1u8 == 1u8 }
pub open spec fn block_op(l: Seq<u8>, pos: int) -> Operation {
    if op_bit(l[0], pos as usize) { Operation::Addition } else { Operation::Deletion }
}
pub open spec fn same_but_block(a: Seq<u8>, b: Seq<u8>, pos: int) -> bool {
    forall|i: int| 0 <= i < LINK_LENGTH && !(block_at(pos) <= i < block_at(pos + 1)) ==> #[trigger] a[i] == b[i]
}
