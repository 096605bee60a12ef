global size_of usize == 8;
// ====================================================================================
// Trusted shims: the standard-library interface the extracted code is written against.
// ====================================================================================

/// Spec-level equality usable in closure contracts.
pub open spec fn same<T>(a: T, b: T) -> bool { a == b }

/// `Vec` is extensional: two vectors with the same contents are the same value.
pub uninterp spec fn mk_vec<T>(s: Seq<T>) -> Vec<T>;
#[verifier::external_body]
pub broadcast axiom fn ax_mk_vec<T>(s: Seq<T>)
    ensures (#[trigger] mk_vec(s))@ == s;
#[verifier::external_body]
pub broadcast axiom fn ax_vec_ext<T>(v: Vec<T>)
    ensures mk_vec(#[trigger] v@) == v;
/// Arrays are extensional.
pub uninterp spec fn mk_arr<T, const N: usize>(s: Seq<T>) -> [T; N];
#[verifier::external_body]
pub broadcast axiom fn ax_mk_arr<T, const N: usize>(s: Seq<T>)
    requires s.len() == N
    ensures (#[trigger] mk_arr::<T, N>(s))@ == s;
#[verifier::external_body]
pub broadcast axiom fn ax_arr_ext<T, const N: usize>(v: [T; N])
    ensures mk_arr::<T, N>(#[trigger] v@) == v, v@.len() == N;

/// Nothing before a sequence.
pub broadcast proof fn lemma_empty_add<T>(a: Seq<T>, b: Seq<T>)
    requires a.len() == 0
    ensures #[trigger] (a + b) == b
{ assert(a + b =~= b); }
pub broadcast group ext_axioms { lemma_empty_add, ax_mk_vec, ax_vec_ext, ax_mk_arr, ax_arr_ext }

/// `Ord::min` and `Ord::max` on integers (verified, not trusted).
pub trait VOrd: Sized { spec fn v_le(self, o: Self) -> bool; fn v_lt_exec(self, o: Self) -> (r: (Self, Self)) ensures r == (if self.v_le(o) { (self, o) } else { (o, self) }); }
impl VOrd for usize { open spec fn v_le(self, o: Self) -> bool { self <= o } fn v_lt_exec(self, o: Self) -> (r: (Self, Self)) { if self <= o { (self, o) } else { (o, self) } } }
impl VOrd for u64 { open spec fn v_le(self, o: Self) -> bool { self <= o } fn v_lt_exec(self, o: Self) -> (r: (Self, Self)) { if self <= o { (self, o) } else { (o, self) } } }
impl VOrd for u32 { open spec fn v_le(self, o: Self) -> bool { self <= o } fn v_lt_exec(self, o: Self) -> (r: (Self, Self)) { if self <= o { (self, o) } else { (o, self) } } }
impl VOrd for u8 { open spec fn v_le(self, o: Self) -> bool { self <= o } fn v_lt_exec(self, o: Self) -> (r: (Self, Self)) { if self <= o { (self, o) } else { (o, self) } } }
pub fn v_min<T: VOrd>(a: T, b: T) -> (r: T) ensures r == (if a.v_le(b) { a } else { b }) { a.v_lt_exec(b).0 }
pub fn v_max<T: VOrd>(a: T, b: T) -> (r: T) ensures r == (if a.v_le(b) { b } else { a }) { a.v_lt_exec(b).1 }

// ---------------------------------------------------------------- strings, formatting

/// `format!(..)`: some string.
#[verifier::external_body]
pub fn vfmt() -> (r: String) { unimplemented!() }
pub trait VToString { fn v_to_string(&self) -> (r: String); }
impl VToString for str { #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub struct CryptoCoreError { _p: () }
#[verifier::external_body]
pub struct TryFromIntError { _p: () }
#[verifier::external_body]
pub struct TryFromSliceError { _p: () }
impl VToString for CryptoCoreError { #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for TryFromIntError { #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for TryFromSliceError { #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }

/// The uninhabited error type of `CoreError`.
#[verifier::external_body]
pub struct Never { _p: () }
/// `Never` is an empty enum in /repo: it has no value.
#[verifier::external_body]
pub broadcast axiom fn ax_never(n: Never)
    ensures #[trigger] is_never(n), false;
pub open spec fn is_never(n: Never) -> bool { true }

#[verifier::external_body]
pub fn empty_bytes() -> (r: [u8; 0]) ensures r@ == Seq::<u8>::empty() { [] }

// ---------------------------------------------------------------- conversion traits

pub trait VFrom<T>: Sized {
    spec fn vfrom_spec(x: T, r: Self) -> bool;
    fn vfrom(x: T) -> (r: Self) ensures Self::vfrom_spec(x, r);
}
impl<T> VFrom<T> for T {
    open spec fn vfrom_spec(x: T, r: T) -> bool { r == x }
    fn vfrom(x: T) -> (r: T) { x }
}
pub trait VTryFrom<T>: Sized {
    type Error;
    spec fn vtry_from_spec(x: T, r: Result<Self, Self::Error>) -> bool;
    fn vtry_from(x: T) -> (r: Result<Self, Self::Error>) ensures Self::vtry_from_spec(x, r);
}
impl<const N: usize> VTryFrom<&[u8]> for [u8; N] {
    type Error = TryFromSliceError;
    open spec fn vtry_from_spec(x: &[u8], r: Result<Self, TryFromSliceError>) -> bool {
        match r { Ok(a) => x@.len() == N && a@ == x@, Err(_) => x@.len() != N }
    }
    #[verifier::external_body]
    fn vtry_from(x: &[u8]) -> (r: Result<Self, TryFromSliceError>) { unimplemented!() }
}
impl VTryFrom<usize> for u8 {
    type Error = TryFromIntError;
    open spec fn vtry_from_spec(x: usize, r: Result<Self, TryFromIntError>) -> bool {
        match r { Ok(a) => x <= 255 && a as int == x as int, Err(_) => x > 255 }
    }
    #[verifier::external_body]
    fn vtry_from(x: usize) -> (r: Result<Self, TryFromIntError>) { unimplemented!() }
}
impl VFrom<u8> for usize {
    open spec fn vfrom_spec(x: u8, r: usize) -> bool { r as int == x as int }
    fn vfrom(x: u8) -> (r: usize) { x as usize }
}
pub trait VDefault: Sized {
    spec fn is_default(self) -> bool;
    fn vdefault() -> (r: Self) ensures r.is_default();
}
pub trait VClone: Sized {
    fn vclone(&self) -> (r: Self) ensures r == *self;
}
/// Key lookup through `Borrow`.
pub trait VBorrow<Q>: Sized { spec fn key_of(q: &Q) -> Self; }
impl<T> VBorrow<T> for T { open spec fn key_of(q: &T) -> T { *q } }
impl<'a, T> VBorrow<T> for &'a T { open spec fn key_of(q: &T) -> &'a T { q } }
pub trait VEq: Sized {
    fn veq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o);
}
pub fn veq<T: VEq>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { a.veq(b) }
impl<T: VEq> VEq for &T { #[verifier::external_body] fn veq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: VEq> VEq for Option<T> { #[verifier::external_body] fn veq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: VEq> VEq for Vec<T> { #[verifier::external_body] fn veq(&self, o: &Self) -> bool { unimplemented!() } }
impl<const N: usize> VEq for [u8; N] { #[verifier::external_body] fn veq(&self, o: &Self) -> bool { unimplemented!() } }
impl VEq for u8 { #[verifier::external_body] fn veq(&self, o: &Self) -> bool { unimplemented!() } }
impl VEq for usize { #[verifier::external_body] fn veq(&self, o: &Self) -> bool { unimplemented!() } }
impl<A: VEq, B: VEq> VEq for (A, B) { #[verifier::external_body] fn veq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: VClone> VClone for Vec<T> { #[verifier::external_body] fn vclone(&self) -> Self { unimplemented!() } }
impl<T: VClone> VClone for Option<T> { #[verifier::external_body] fn vclone(&self) -> Self { unimplemented!() } }
impl<const N: usize> VClone for [u8; N] { #[verifier::external_body] fn vclone(&self) -> Self { unimplemented!() } }
impl<T> VClone for &T { fn vclone(&self) -> Self { *self } }
impl<A: VClone, B: VClone> VClone for (A, B) { #[verifier::external_body] fn vclone(&self) -> Self { unimplemented!() } }
impl VClone for u8 { fn vclone(&self) -> Self { *self } }
impl VClone for usize { fn vclone(&self) -> Self { *self } }
impl<T> VDefault for Vec<T> {
    open spec fn is_default(self) -> bool { self@ == Seq::<T>::empty() }
    fn vdefault() -> Self { Vec::new() }
}

pub trait VAsRef {
    spec fn v_bytes(&self) -> Seq<u8>;
    fn v_as_ref(&self) -> (r: &[u8]) ensures r@ == self.v_bytes();
}
impl VAsRef for [u8] {
    open spec fn v_bytes(&self) -> Seq<u8> { self@ }
    fn v_as_ref(&self) -> (r: &[u8]) { self }
}
pub trait VAsMut: VAsRef {
    fn v_as_mut(&mut self) -> (r: &mut [u8])
        ensures
            r@ == old(self).v_bytes(),
            final(r)@.len() == old(self).v_bytes().len() ==> final(self).v_bytes() == final(r)@;
}

// ---------------------------------------------------------------- Option / Result

pub trait VOptExt<T>: Sized {
    spec fn opt(self) -> Option<T>;
    fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.opt() matches Some(x) ==> f.requires((x,))
        ensures match self.opt() { None => r is None, Some(x) => r matches Some(y) && f.ensures((x,), y) };
    fn v_map_into<U: VFrom<T>>(self) -> (r: Option<U>)
        ensures match self.opt() { None => r is None, Some(x) => r matches Some(y) && U::vfrom_spec(x, y) };
    fn v_expect(self) -> (r: T) requires self.opt() is Some ensures Some(r) == self.opt();
    fn v_unwrap(self) -> (r: T) requires self.opt() is Some ensures Some(r) == self.opt();
}
impl<T> VOptExt<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { match self { None => None, Some(x) => Some(f(x)) } }
    fn v_map_into<U: VFrom<T>>(self) -> (r: Option<U>) { match self { None => None, Some(x) => Some(U::vfrom(x)) } }
    fn v_expect(self) -> (r: T) { match self { Some(x) => x, None => unreached() } }
    fn v_unwrap(self) -> (r: T) { match self { Some(x) => x, None => unreached() } }
}
pub trait VOptRef<T> {
    spec fn opt_(&self) -> Option<T>;
    fn v_as_ref(&self) -> (r: Option<&T>)
        ensures match self.opt_() { None => r is None, Some(x) => r matches Some(y) && *y == x };
}
impl<T> VOptRef<T> for Option<T> {
    open spec fn opt_(&self) -> Option<T> { *self }
    fn v_as_ref(&self) -> (r: Option<&T>) { match self { None => None, Some(x) => Some(x) } }
}
pub trait VOptDefault<T>: Sized {
    spec fn opt_d(self) -> Option<T>;
    fn v_unwrap_or_default(self) -> (r: T) where T: VDefault
        ensures match self.opt_d() { None => r.is_default(), Some(x) => r == x };
}
impl<T> VOptDefault<T> for Option<T> {
    open spec fn opt_d(self) -> Option<T> { self }
    fn v_unwrap_or_default(self) -> (r: T) where T: VDefault { match self { None => VDefault::vdefault(), Some(x) => x } }
}
pub trait VOptCopied<T> {
    spec fn opt_c(self) -> Option<T>;
    fn v_copied(self) -> (r: Option<T>) where T: Copy ensures r == self.opt_c();
    fn v_cloned(self) -> (r: Option<T>) where T: VClone ensures r == self.opt_c();
}
impl<'a, T> VOptCopied<T> for Option<&'a T> {
    open spec fn opt_c(self) -> Option<T> { match self { None => None, Some(x) => Some(*x) } }
    fn v_copied(self) -> (r: Option<T>) where T: Copy { match self { None => None, Some(x) => Some(*x) } }
    fn v_cloned(self) -> (r: Option<T>) where T: VClone { match self { None => None, Some(x) => Some(x.vclone()) } }
}
pub trait VResExt<T, E>: Sized {
    spec fn res(self) -> Result<T, E>;
    fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>)
        requires self.res() matches Ok(x) ==> f.requires((x,))
        ensures match self.res() { Err(e) => r matches Err(e2) && e2 == e, Ok(x) => r matches Ok(y) && f.ensures((x,), y) };
    fn v_map_into<U: VFrom<T>>(self) -> (r: Result<U, E>)
        ensures match self.res() { Err(e) => r matches Err(e2) && e2 == e, Ok(x) => r matches Ok(y) && U::vfrom_spec(x, y) };
}
impl<T, E> VResExt<T, E> for Result<T, E> {
    open spec fn res(self) -> Result<T, E> { self }
    fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>) { match self { Err(e) => Err(e), Ok(x) => Ok(f(x)) } }
    fn v_map_into<U: VFrom<T>>(self) -> (r: Result<U, E>) { match self { Err(e) => Err(e), Ok(x) => Ok(U::vfrom(x)) } }
}

// ---------------------------------------------------------------- vectors and slices

pub trait VSliceExt<T> {
    spec fn sview(&self) -> Seq<T>;
    fn v_iter(&self) -> (r: It<&T>)
        ensures refs_of(r.rest(), self.sview());
    fn v_last(&self) -> (r: Option<&T>)
        ensures match r { None => self.sview().len() == 0, Some(x) => self.sview().len() > 0 && *x == self.sview().last() };
    fn v_to_vec(&self) -> (r: Vec<T>) where T: Copy
        ensures r@ == self.sview();
    fn v_is_empty(&self) -> (r: bool)
        ensures r == (self.sview().len() == 0);
}
impl<T> VSliceExt<T> for [T] {
    open spec fn sview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter(&self) -> (r: It<&T>) { unimplemented!() }
    fn v_last(&self) -> (r: Option<&T>) { if self.len() == 0 { None } else { Some(&self[self.len() - 1]) } }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<T>) where T: Copy { unimplemented!() }
    fn v_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
impl<T> VSliceExt<T> for Vec<T> {
    open spec fn sview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter(&self) -> (r: It<&T>) { unimplemented!() }
    fn v_last(&self) -> (r: Option<&T>) { if self.len() == 0 { None } else { Some(&self[self.len() - 1]) } }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<T>) where T: Copy { unimplemented!() }
    fn v_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
pub trait VVecExt<T> {
    spec fn vseq(&self) -> Seq<T>;
    fn v_extend(&mut self, o: &[T]) where T: Copy
        ensures final(self).vseq() == old(self).vseq() + o@;
}
impl<T> VVecExt<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_extend(&mut self, o: &[T]) where T: Copy { unimplemented!() }
}

/// `r` is the sequence of references to the elements of `s`.
pub open spec fn refs_of<T>(r: Seq<&T>, s: Seq<T>) -> bool {
    &&& r.len() == s.len()
    &&& forall|i: int| #![trigger r[i]] #![trigger s[i]] 0 <= i < s.len() ==> *r[i] == s[i]
}

// ---------------------------------------------------------------- shared cells

/// `Arc<Mutex<T>>` (the contents at the time of the call).
pub struct Shared<T>(pub T);
impl<T> Shared<T> {
    pub fn new(x: T) -> (r: Self) ensures r.0 == x { Shared(x) }
    pub fn v_lock(&self) -> (r: &T) ensures *r == self.0 { &self.0 }
    pub fn v_lock_mut(&mut self) -> (r: &mut T)
        ensures *r == old(self).0, final(self).0 == *final(r)
    { &mut self.0 }
    /// A lock on a generator shared with other tasks: nothing is known of its state.
    #[verifier::external_body]
    pub fn v_lock_any(&self) -> (r: &mut T) { unimplemented!() }
}
impl<T> VClone for Shared<T> { #[verifier::external_body] fn vclone(&self) -> Self { unimplemented!() } }
impl<T: VDefault> VDefault for Shared<T> {
    open spec fn is_default(self) -> bool { self.0.is_default() }
    fn vdefault() -> Self { Shared(VDefault::vdefault()) }
}
