// ====================================================================================
// Trusted shims: cryptographic primitives (cosmian_crypto_core, tiny_keccak) and the
// serialization helpers of cosmian_crypto_core.
// ====================================================================================
/// A draw: the number of the lock on the generator it was made under, its rank under this lock.
pub type DrawId = (nat, nat);
/// The bytes of a draw of `n` bytes.
pub uninterp spec fn drawn(at: DrawId, n: nat) -> Seq<u8>;
pub open spec fn bump(at: DrawId) -> DrawId { (at.0, at.1 + 1) }
pub trait CryptoRngCore {
    /// The next draw.
    spec fn at(&self) -> DrawId;
    fn fill_bytes(&mut self, dest: &mut [u8])
        ensures final(dest)@.len() == old(dest)@.len(), final(dest)@ == drawn(old(self).at(), old(dest)@.len()), final(self).at() == bump(old(self).at());
    fn next_u64(&mut self) -> (r: u64)
        ensures final(self).at() == bump(old(self).at());
}
#[verifier::external_body]
pub struct CsRng { _p: () }
impl CsRng { #[verifier::external_body] pub fn from_entropy() -> (r: Self) { unimplemented!() } }
impl CryptoRngCore for CsRng {
    uninterp spec fn at(&self) -> DrawId;
    #[verifier::external_body]
    fn fill_bytes(&mut self, dest: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn next_u64(&mut self) -> (r: u64) { unimplemented!() }
}

pub struct SymmetricKey<const LENGTH: usize>(pub [u8; LENGTH]);
impl<const LENGTH: usize> SymmetricKey<LENGTH> {
    #[verifier::external_body]
    pub fn new<R: CryptoRngCore>(rng: &mut R) -> (r: Self) ensures r.0@ == drawn(old(rng).at(), LENGTH as nat), final(rng).at() == bump(old(rng).at()) { unimplemented!() }
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.0@ { &self.0 }
}
impl<const LENGTH: usize> Deref for SymmetricKey<LENGTH> {
    type Target = [u8];
    fn deref(&self) -> (r: &[u8]) ensures r@ == self.0@ { &self.0 }
}
impl<const LENGTH: usize> DerefMut for SymmetricKey<LENGTH> {
    fn deref_mut(&mut self) -> (r: &mut [u8])
        ensures r@ == old(self).0@, final(r)@.len() == r@.len() ==> final(self).0@ == final(r)@
    { &mut self.0 }
}
impl<const LENGTH: usize> VDefault for SymmetricKey<LENGTH> {
    open spec fn is_default(self) -> bool { self.0@ == Seq::new(LENGTH as nat, |i: int| 0u8) }
    fn vdefault() -> Self { let k = SymmetricKey([0; LENGTH]); assert(k.0@ =~= Seq::new(LENGTH as nat, |i: int| 0u8)); k }
}
impl<const LENGTH: usize> VEq for SymmetricKey<LENGTH> { #[verifier::external_body] fn veq(&self, o: &Self) -> bool { unimplemented!() } }
impl<const LENGTH: usize> VClone for SymmetricKey<LENGTH> { #[verifier::external_body] fn vclone(&self) -> Self { unimplemented!() } }

/// SHAKE256-based derivation: the inputs are absorbed one after the other.
pub uninterp spec fn kdf_spec(input: Seq<u8>, n: nat) -> Seq<u8>;
#[verifier::external_body]
pub fn kdf256_3(out: &mut [u8], a: &[u8], b: &[u8], c: &[u8])
    ensures final(out)@ == kdf_spec(a@ + b@ + c@, old(out)@.len()), final(out)@.len() == old(out)@.len()
{ unimplemented!() }
#[verifier::external_body]
pub fn kdf256_2(out: &mut [u8], a: &[u8], b: &[u8])
    ensures final(out)@ == kdf_spec(a@ + b@, old(out)@.len()), final(out)@.len() == old(out)@.len()
{ unimplemented!() }
#[verifier::external_body]
pub fn kdf256_1(out: &mut [u8], a: &[u8])
    ensures final(out)@ == kdf_spec(a@, old(out)@.len()), final(out)@.len() == old(out)@.len()
{ unimplemented!() }

pub trait Hasher: Sized {
    spec fn absorbed(&self) -> Seq<u8>;
    spec fn cfg(&self) -> Seq<Seq<u8>>;
    spec fn digest(cfg: Seq<Seq<u8>>, msg: Seq<u8>, n: nat) -> Seq<u8>;
    fn update(&mut self, b: &[u8])
        ensures final(self).absorbed() == old(self).absorbed() + b@, final(self).cfg() == old(self).cfg();
    fn finalize(self, out: &mut [u8])
        ensures final(out)@ == Self::digest(self.cfg(), self.absorbed(), old(out)@.len()), final(out)@.len() == old(out)@.len();
}
pub uninterp spec fn sha3_spec(msg: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn sha3_n_spec(msg: Seq<u8>, n: nat) -> Seq<u8>;
#[verifier::external_body]
pub struct Sha3 { _p: () }
impl Sha3 {
    #[verifier::external_body]
    pub fn v256() -> (r: Self) ensures r.absorbed() == Seq::<u8>::empty() { unimplemented!() }
}
impl Hasher for Sha3 {
    uninterp spec fn absorbed(&self) -> Seq<u8>;
    uninterp spec fn cfg(&self) -> Seq<Seq<u8>>;
    open spec fn digest(cfg: Seq<Seq<u8>>, msg: Seq<u8>, n: nat) -> Seq<u8> { if n == 32 { sha3_spec(msg) } else { sha3_n_spec(msg, n) } }
    #[verifier::external_body]
    fn update(&mut self, b: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn finalize(self, out: &mut [u8]) { unimplemented!() }
}
#[verifier::external_body]
pub broadcast axiom fn ax_sha3_len(m: Seq<u8>)
    ensures (#[trigger] sha3_spec(m)).len() == 32;

pub uninterp spec fn kmac_spec(key: Seq<u8>, custom: Seq<u8>, msg: Seq<u8>, n: nat) -> Seq<u8>;
#[verifier::external_body]
pub struct Kmac { _p: () }
impl Kmac {
    #[verifier::external_body]
    pub fn v256(key: &[u8], custom: &[u8]) -> (r: Self)
        ensures r.absorbed() == Seq::<u8>::empty(), r.cfg() == seq![key@, custom@]
    { unimplemented!() }
}
impl Hasher for Kmac {
    uninterp spec fn absorbed(&self) -> Seq<u8>;
    uninterp spec fn cfg(&self) -> Seq<Seq<u8>>;
    open spec fn digest(cfg: Seq<Seq<u8>>, msg: Seq<u8>, n: nat) -> Seq<u8> { kmac_fixed_spec(cfg, msg, n) }
    #[verifier::external_body]
    fn update(&mut self, b: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn finalize(self, out: &mut [u8]) { unimplemented!() }
}
pub uninterp spec fn kmac_fixed_spec(cfg: Seq<Seq<u8>>, msg: Seq<u8>, n: nat) -> Seq<u8>;
#[verifier::external_body]
pub struct KmacXof { _p: () }
impl KmacXof { pub uninterp spec fn key(&self) -> Seq<u8>; pub uninterp spec fn custom(&self) -> Seq<u8>; pub uninterp spec fn msg(&self) -> Seq<u8>; }
pub trait IntoXof: Sized { type X; spec fn xof_spec(self, r: Self::X) -> bool; fn into_xof(self) -> (r: Self::X) ensures self.xof_spec(r); }
impl IntoXof for Kmac {
    type X = KmacXof;
    open spec fn xof_spec(self, r: KmacXof) -> bool { self.cfg().len() == 2 ==> r.key() == self.cfg()[0] && r.custom() == self.cfg()[1] && r.msg() == self.absorbed() }
    #[verifier::external_body]
    fn into_xof(self) -> (r: KmacXof) { unimplemented!() }
}
pub trait Xof { spec fn out(&self, n: nat) -> Seq<u8>; fn squeeze(&mut self, out: &mut [u8]) ensures final(out)@ == old(self).out(old(out)@.len()), final(out)@.len() == old(out)@.len(); }
impl Xof for KmacXof {
    open spec fn out(&self, n: nat) -> Seq<u8> { kmac_spec(self.key(), self.custom(), self.msg(), n) }
    #[verifier::external_body]
    fn squeeze(&mut self, out: &mut [u8]) { unimplemented!() }
}

pub struct Nonce<const LENGTH: usize>(pub [u8; LENGTH]);
impl<const LENGTH: usize> Nonce<LENGTH> {
    #[verifier::external_body]
    pub fn try_from_slice(s: &[u8]) -> (r: Result<Self, CryptoCoreError>)
        ensures match r { Ok(n) => s@.len() == LENGTH && n.0@ == s@, Err(_) => s@.len() != LENGTH }
    { unimplemented!() }
}
impl<const LENGTH: usize> VFrom<[u8; LENGTH]> for Nonce<LENGTH> {
    open spec fn vfrom_spec(x: [u8; LENGTH], r: Self) -> bool { r.0 == x }
    fn vfrom(x: [u8; LENGTH]) -> (r: Self) { Nonce(x) }
}
impl<const LENGTH: usize> VClone for Nonce<LENGTH> { #[verifier::external_body] fn vclone(&self) -> Self { unimplemented!() } }
impl<const LENGTH: usize> VEq for Nonce<LENGTH> { #[verifier::external_body] fn veq(&self, o: &Self) -> bool { unimplemented!() } }

/// AES-256-GCM: ciphertext and tag for (key, nonce, plaintext), empty associated data.
pub uninterp spec fn gcm_ct(key: Seq<u8>, nonce: Seq<u8>, pt: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn gcm_tag(key: Seq<u8>, nonce: Seq<u8>, ct: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn gcm_pt(key: Seq<u8>, nonce: Seq<u8>, ct: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub broadcast axiom fn ax_gcm_len(key: Seq<u8>, nonce: Seq<u8>, pt: Seq<u8>)
    ensures (#[trigger] gcm_ct(key, nonce, pt)).len() == pt.len();
#[verifier::external_body]
pub broadcast axiom fn ax_gcm_inv(key: Seq<u8>, nonce: Seq<u8>, pt: Seq<u8>)
    ensures gcm_pt(key, nonce, #[trigger] gcm_ct(key, nonce, pt)) == pt;
#[verifier::external_body]
pub broadcast axiom fn ax_gcm_tag_len(key: Seq<u8>, nonce: Seq<u8>, ct: Seq<u8>)
    ensures (#[trigger] gcm_tag(key, nonce, ct)).len() == 16;
pub broadcast group crypto_axioms { ax_sha3_len, ax_gcm_len, ax_gcm_inv, ax_gcm_tag_len, ax_leb_len }

#[verifier::external_body]
pub struct Aes256Gcm { _p: () }
pub struct GcmTag(pub [u8; 16]);
impl GcmTag { pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.0@ { &self.0 } }
impl Aes256Gcm {
    pub const KEY_LENGTH: usize = 32;
    pub const NONCE_LENGTH: usize = 12;
    pub const MAC_LENGTH: usize = 16;
    pub uninterp spec fn key(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(key: &SymmetricKey<32>) -> (r: Self) ensures r.key() == key.0@ { unimplemented!() }
    #[verifier::external_body]
    pub fn encrypt_in_place_detached(&self, nonce: &Nonce<12>, bytes: &mut [u8], ad: Option<&[u8]>) -> (r: Result<GcmTag, CryptoCoreError>)
        requires ad is None
        ensures
            final(bytes)@.len() == old(bytes)@.len(),
            r matches Ok(t) ==> final(bytes)@ == gcm_ct(self.key(), nonce.0@, old(bytes)@) && t.0@ == gcm_tag(self.key(), nonce.0@, final(bytes)@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn decrypt_in_place_detached(&self, nonce: &Nonce<12>, bytes: &mut [u8], tag: &[u8], ad: Option<&[u8]>) -> (r: Result<(), CryptoCoreError>)
        requires ad is None
        ensures
            final(bytes)@.len() == old(bytes)@.len(),
            r is Ok <==> tag@ == gcm_tag(self.key(), nonce.0@, old(bytes)@),
            r is Ok ==> final(bytes)@ == gcm_pt(self.key(), nonce.0@, old(bytes)@),
    { unimplemented!() }
}

// ---------------------------------------------------------------- serialization helpers

/// LEB128 coding of an integer.
pub uninterp spec fn leb(n: nat) -> Seq<u8>;
#[verifier::external_body]
pub fn to_leb128_len(n: usize) -> (r: usize) ensures r == leb(n as nat).len(), 1 <= r <= 10 { unimplemented!() }
#[verifier::external_body]
pub struct Serializer { _p: () }
impl Serializer {
    pub uninterp spec fn out(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_leb128_u64(&mut self, n: u64) -> (r: Result<usize, CryptoCoreError>)
        ensures r matches Ok(k) ==> final(self).out() == old(self).out() + leb(n as nat) && k == leb(n as nat).len() && k <= 10 && final(self).out().len() <= usize::MAX
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_array(&mut self, a: &[u8]) -> (r: Result<usize, CryptoCoreError>)
        ensures r matches Ok(k) ==> final(self).out() == old(self).out() + a@ && k == a@.len() && final(self).out().len() <= usize::MAX
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Deserializer { _p: () }
/// What reading one LEB128 integer from `s` does: `None` on error.
pub uninterp spec fn unleb(s: Seq<u8>) -> Option<(u64, Seq<u8>)>;
/// What is left after a failed LEB128 read.
pub uninterp spec fn unleb_err_rest(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub broadcast axiom fn ax_unleb(n: nat, t: Seq<u8>)
    requires n <= u64::MAX
    ensures unleb(#[trigger] (leb(n) + t)) == Some((n as u64, t));
#[verifier::external_body]
pub broadcast axiom fn ax_leb_len(n: nat)
    requires n <= u64::MAX
    ensures 1 <= (#[trigger] leb(n)).len() <= 10;
#[verifier::external_body]
pub broadcast axiom fn ax_unleb_rest(s: Seq<u8>)
    ensures (#[trigger] unleb(s)) matches Some(p) ==> p.1.len() < s.len();
#[verifier::external_body]
pub broadcast axiom fn ax_unleb_err_rest(s: Seq<u8>)
    ensures (#[trigger] unleb_err_rest(s)).len() <= s.len();
/// Stands for a request of memory for `n` elements, where the contract bounds them.
pub fn v_alloc(n: usize, b: Ghost<int>) requires n <= b@ {}
impl Deserializer {
    pub uninterp spec fn input(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn value(&self) -> (r: &[u8]) ensures r@ == self.input() { unimplemented!() }
    #[verifier::external_body]
    pub fn read_leb128_u64(&mut self) -> (r: Result<u64, CryptoCoreError>)
        ensures match r {
            Ok(n) => unleb(old(self).input()) == Some((n, final(self).input())),
            Err(_) => unleb(old(self).input()) is None && final(self).input() == unleb_err_rest(old(self).input()),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_array<const LENGTH: usize>(&mut self) -> (r: Result<[u8; LENGTH], CryptoCoreError>)
        ensures match r {
            Ok(a) => old(self).input().len() >= LENGTH && a@ == old(self).input().subrange(0, LENGTH as int)
                && final(self).input() == old(self).input().skip(LENGTH as int),
            Err(_) => old(self).input().len() < LENGTH,
        }
    { unimplemented!() }
}

// ---------------------------------------------------------------- floating point
/// `x` is a number, or plus infinity, and `2 * x >= h` (an integer): the facts of IEEE 754 that matter
/// here. Multiples of 1/2 up to 2^52 are representable and rounding to nearest is monotone, hence a
/// result that is exactly at least such a number is so once rounded too. `log2(x) >= 1` for `x >= 2`
/// and `>= 0` for `x >= 1` is an assumption on the mathematical library.
pub uninterp spec fn ge(x: f64, h: int) -> bool;
pub open spec fn f_ok(h: int) -> bool { 0 <= h <= 0x20_0000_0000_0000 }
pub trait VNum: Sized {
    spec fn add_ens(self, b: Self, r: Self) -> bool;
    spec fn mul_ens(self, b: Self, r: Self) -> bool;
    fn v_add(self, b: Self) -> (r: Self) ensures self.add_ens(b, r);
    fn v_mul(self, b: Self) -> (r: Self) ensures self.mul_ens(b, r);
    fn v_sub(self, b: Self) -> (r: Self);
    fn v_div(self, b: Self) -> (r: Self);
}
impl VNum for f64 {
    open spec fn add_ens(self, b: Self, r: Self) -> bool {
        forall|p: int, q: int| #[trigger] ge(self, p) && #[trigger] ge(b, q) && f_ok(p + q) ==> ge(r, p + q)
    }
    open spec fn mul_ens(self, b: Self, r: Self) -> bool {
        forall|p: int, q: int| #[trigger] ge(self, p) && #[trigger] ge(b, q) && p > 0 && q > 0 && f_ok(p * q / 2) ==> ge(r, p * q / 2)
    }
    #[verifier::external_body]
    fn v_add(self, b: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn v_mul(self, b: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn v_sub(self, b: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn v_div(self, b: Self) -> (r: Self) { unimplemented!() }
}
pub trait VF64 { fn v_mul_add(self, a: f64, b: f64) -> (r: f64); fn v_log2(self) -> (r: f64); }
impl VF64 for f64 {
    #[verifier::external_body]
    fn v_mul_add(self, a: f64, b: f64) -> (r: f64)
        ensures forall|p: int, q: int, t: int| #[trigger] ge(self, p) && #[trigger] ge(a, q) && #[trigger] ge(b, t) && p > 0 && q > 0 && f_ok((p * q + 2 * t) / 2)
            ==> ge(r, (p * q + 2 * t) / 2)
    { unimplemented!() }
    #[verifier::external_body]
    fn v_log2(self) -> (r: f64)
        ensures forall|p: int| #[trigger] ge(self, p) && p >= 4 ==> ge(r, 2), forall|p: int| #[trigger] ge(self, p) && p >= 2 ==> ge(r, 0)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_to_f64(x: usize) -> (r: f64)
    ensures x <= 0x10_0000_0000_0000 ==> ge(r, 2 * x)
{ unimplemented!() }
#[verifier::external_body]
pub fn v_from_f64(x: f64) -> (r: usize)
    ensures forall|p: int| #[trigger] ge(x, p) && f_ok(p) ==> r >= p / 2
{ unimplemented!() }
