// ====================================================================================
// Specification functions and lemmas.
// ====================================================================================
impl<const VALUE_LENGTH: usize> HasEncV for EncryptedValue<VALUE_LENGTH> {
    open spec fn ev(self) -> EncV { EncV { ct: self.ciphertext@, tag: self.tag@, nonce: self.nonce.0@ } }
}
/// Serialized form of an encrypted value: nonce, ciphertext, tag.
pub open spec fn ser_value(e: EncV) -> Seq<u8> { e.nonce + e.ct + e.tag }
/// AES-GCM sealing and opening.
pub open spec fn seal(key: Seq<u8>, nonce: Seq<u8>, value: Seq<u8>) -> EncV {
    EncV { ct: gcm_ct(key, nonce, value), tag: gcm_tag(key, nonce, gcm_ct(key, nonce, value)), nonce: nonce }
}
pub open spec fn open_value(key: Seq<u8>, e: EncV) -> Option<Seq<u8>> {
    if e.tag == gcm_tag(key, e.nonce, e.ct) { Some(gcm_pt(key, e.nonce, e.ct)) } else { None }
}
pub open spec fn label_bytes(l: Option<&Label>) -> Option<Seq<u8>> { match l { Some(l) => Some(l.0@), None => None } }
pub open spec fn kmac_key_info() -> Seq<u8> { seq![75u8, 77u8, 65u8, 67u8, 32u8, 107u8, 101u8, 121u8] }
pub open spec fn dem_key_info() -> Seq<u8> { seq![68u8, 69u8, 77u8, 32u8, 107u8, 101u8, 121u8] }
pub open spec fn edx_keys(seed: Seq<u8>, info: Seq<u8>) -> EdxKey {
    EdxKey {
        token: SymmetricKey(mk_arr(kdf_spec(seed + info + kmac_key_info(), SYM_KEY_LENGTH as nat))),
        value: SymmetricKey(mk_arr(kdf_spec(seed + info + dem_key_info(), SYM_KEY_LENGTH as nat))),
    }
}
