"""What each property depends on: modules woven, obligations that are its own (hard), units that do not matter."""
import re

DEEP_SECS = 60

_SHA = ["sha256"]
_MAC = _SHA + ["hmac"]
_KDF = _MAC + ["pbkdf2"]
_SCR = _KDF + ["salsa20", "scrypt"]
_AES = ["aes"]
_CBC = ["aes", "pkcs7", "aes_cbc"]

USIZE = "usize has 8 bytes (the verified file says so; the build target has)"
ALLOC = "allocation succeeds (Vec growth beyond isize::MAX bytes or an exhausted heap aborts the process; not modelled)"
DEPS = "the contracts Verus ships for the standard library (vstd: Vec, slices, Option, Result, integer wrapping and checked operations)"
TRUSTED = [
    "Verus 0.2026.09.13 (VIR, AIR, the interpreter behind compute_only), vstd's contracts for std and the Z3 it ships with",
    "rustc nightly's type checker, which supplies the types of the expressions to the weaver",
    "weaver/: lowering of iterator chains, slices patterns, auto-references and macros to index loops; cross-checked by running the compiled crate "
    "and the compiled lowered text against an independent reference on every run, and by the mutation runs listed in DESIGN.md",
    "the standard library functions vstd has no contract for behave as their documentation says; each is replaced in the woven text by a "
    "method of specs/00_base.rs with that behaviour, whose body is proved against its contract",
    "the spec functions in specs/*.rs are the standards (their values on the published test vectors are proved, see DESIGN.md)",
]

PROPS = {
    "C01": dict(modules=_SHA, theorems=["sha256::SHA256::new", "sha256::SHA256::update", "sha256::SHA256::digest", "sp::sp_sha_correct", "sha256::sp_client_sha", "sp::sp_known_sha256"],
                assumptions=[USIZE, "the message is shorter than 2^61 bytes (the bit length fits 64 bits)"]),
    "C02": dict(modules=_MAC, theorems=["sha256::SHA256::update", "sha256::SHA256::digest", "hmac::HMac::update", "hmac::HMac::digest",
                                        "sp::sp_absorb_concat", "sp::sp_chunks_do_not_matter", "sp::sp_mac_concat",
                                        "sha256::sp_client_sha", "hmac::sp_client_mac"],
                assumptions=[USIZE, "the message is shorter than 2^61 bytes"]),
    "C03": dict(modules=_MAC, theorems=["hmac::HMac::new", "hmac::HMac::update", "hmac::HMac::digest", "sp::sp_mac_correct", "hmac::sp_client_mac", "sp::sp_known_hmac"],
                assumptions=[USIZE, "key and message are shorter than 2^61 - 64 bytes"]),
    "C04": dict(modules=_KDF, theorems=["pbkdf2::pbkdf2_sha256", "sp::sp_known_pbkdf2"],
                assumptions=[USIZE, "password and salt shorter than 2^61 - 68 bytes, output at most 32 * (2^32 - 1) bytes"]),
    "C05": dict(modules=["salsa20"], theorems=["salsa20::salsa20", "sp::sp_known_salsa20"],
                assumptions=[USIZE, "input and output are equally long, a whole number of 64-byte blocks"]),
    "C06": dict(modules=_SCR, theorems=["scrypt::Scrypt::derive", "sp::sp_known_scrypt"],
                assumptions=[USIZE, ALLOC, "128 * r * p <= 32 * (2^32 - 1) and output at most 32 * (2^32 - 1) bytes (RFC 7914 limits)",
                             "N < 2^(128 r / 8) (RFC 7914 limit; automatic for 64-bit N and r >= 1 except through Integerify's 64 low bits, which the proof covers)"]),
    "C07": dict(modules=_SCR, theorems=["scrypt::Scrypt::derive", "scrypt::Scrypt::new"],
                assumptions=[USIZE, ALLOC, "128 * r * p <= 32 * (2^32 - 1) where r, p >= 1"]),
    "C08": dict(modules=_AES, theorems=["aes::AES::init", "aes::AES::encrypt", "aes::sa_client_encrypt", "sp::sa_known_answers", "sp::sa_known_aes"], assumptions=[USIZE]),
    "C09": dict(modules=_AES, theorems=["aes::AES::encrypt", "aes::AES::decrypt", "sp::sa_dec_enc", "sp::sa_enc_dec", "aes::sa_client_round_trip"], assumptions=[USIZE]),
    "C10": dict(modules=_CBC, theorems=["aes::AES::init", "aes::AES::encrypt", "aes::AES::decrypt", "aes_cbc::Cipher::init", "aes_cbc::Decipher::init",
                                        "aes_cbc::Cipher::write", "aes_cbc::Cipher::flush", "aes_cbc::Decipher::write",
                                        "aes::sk_history_aes", "aes_cbc::sk_history_cipher", "aes_cbc::sk_history_decipher"], assumptions=[USIZE, ALLOC]),
    "C11": dict(modules=_CBC, theorems=["aes_cbc::Cipher::write", "aes_cbc::Cipher::flush", "aes_cbc::sc_client_encrypt", "aes_cbc::sc_history_encrypt", "sp::sc_known_cbc"],
                assumptions=[USIZE, ALLOC, "a single write is shorter than 2^61 bytes"]),
    "C12": dict(modules=_CBC, theorems=["aes_cbc::Decipher::write", "aes_cbc::Decipher::flush", "aes_cbc::sc_client_decrypt", "aes_cbc::sc_client_round_trip",
                                        "aes_cbc::sc_history_decrypt", "aes_cbc::sc_pair_step", "sp::sc_known_cbc"],
                assumptions=[USIZE, ALLOC, "a single write is shorter than 2^61 bytes"]),
    "C13": dict(modules=_CBC, theorems=["aes_cbc::Decipher::flush", "pkcs7::Unpad::flush", "aes_cbc::sc_client_decrypt", "aes_cbc::sc_history_decrypt"],
                assumptions=[USIZE, ALLOC, "a single write is shorter than 2^61 bytes"]),
    "C14": dict(modules=None, theorems=["every function under contract: no overflow, bounds, precondition or termination obligation fails"],
                assumptions=[USIZE, ALLOC, "the documented limits (the preconditions of the public functions)",
                             "stack depth is not modelled (the only recursion is HMac::new, of depth one)"]),
}

# own functions of a property: a failed obligation there contradicts the property itself
OWN = {
    "C01": r"^sha256::",
    "C02": r"^(sha256::SHA256::update|hmac::HMac::update)$",
    "C03": r"^hmac::",
    "C04": r"^pbkdf2::",
    "C05": r"^salsa20::|^common::",
    "C06": r"^scrypt::",
    "C07": r"^scrypt::Scrypt::(derive|new)$",
    "C08": r"^aes::(double|mul|sub_word|rot_word|expand_key|to_block|from_block|AESEncrypt::.*|AES::init|AES::encrypt)$|^lemma sa_(sbox|rcon)_table$",
    "C09": r"^aes::(AESDecrypt::.*|AES::decrypt|AESEncrypt::.*|AES::encrypt|to_block|from_block)$|^lemma sa_i?sbox_table$",
    "C10": r"^aes::AES::(new|default|init|encrypt|decrypt)$|^aes_cbc::(Cipher|Decipher)::(new|init|write|flush)$",
    "C11": r"^aes_cbc::Cipher::|^pkcs7::Pad::",
    "C12": r"^aes_cbc::Decipher::write$|^pkcs7::Unpad::write$|^aes_cbc::Decipher::flush$|^pkcs7::Pad::write$",
    "C13": r"^aes_cbc::Decipher::flush$|^pkcs7::Unpad::flush$|^pkcs7::Pad::is_empty$",
    "C14": r"^(?!lemma )",
}
# units a property's theorems do not rest on
OUTSIDE = {
    "C02": r"^hmac::HMac::new$",
    "C08": r"^aes::(AESDecrypt::.*|AES::decrypt)$|^lemma sa_(isbox_table|itables_at|dec_enc|enc_dec|imix|mix_imix|x_imixw)",
}

SAFETY = {"safety", "precondition", "termination"}


def is_hard(prop, unit, fail):
    """is this failed obligation one the property itself states (rather than one it depends on)"""
    kind, msg, text, region = fail
    if not re.search(OWN[prop], unit):
        return False
    if prop == "C14":
        if kind not in SAFETY:
            return False
        # obligations of the hints themselves do not speak about the code
        return not region.startswith("hint") and region != "contract"
    if prop == "C07":
        return kind == "post" and "sp_scrypt_params" in text
    if prop == "C06" and "sp_scrypt_params" in text:
        return False
    if prop == "C10":
        return kind == "post" and ("sk_" in text or "::init" in unit or "::new" in unit or "::default" in unit)
    if prop == "C11":
        return "sk_" not in text
    if prop == "C12":
        return not (kind == "post" and ("sk_" in text or "sv_" in text))
    if prop == "C13":
        return kind != "post" or "sv_" in text
    return True


def relevant(prop, unit):
    """could this unit's failure leave the property unproved"""
    if prop != "C14" and unit.name.endswith("::description"):
        return False
    if prop in OUTSIDE and re.search(OUTSIDE[prop], unit.name):
        return False
    if prop == "C07" and unit.fails and not (unit.rlimit or unit.unsupported or unit.lost):
        # only the clause on parameters matters
        if unit.name.startswith("lemma ") or not re.search(OWN["C07"], unit.name):
            return not all(f[0] in ("post", "invariant", "assert") for f in unit.fails)
        return any("sp_scrypt_params" in f[2] or f[0] in SAFETY for f in unit.fails)
    return True
