#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })

prop("C01", "AES is FIPS-197 and decryption inverts encryption",
 "For every 128-, 192- or 256-bit key, whether supplied as raw bytes or as big-endian 64-bit words, and every 16-byte block, AES encryption returns exactly the FIPS-197 ciphertext. Decryption with the same key returns exactly the FIPS-197 plaintext, so it undoes encryption for every block. The same cipher object keeps giving these answers over any number of calls.",
 ["inputs"], "all keys of the three sizes, all 16-byte blocks, any sequence of calls on one cipher object",
 "Tests use two keys per size and a single repeated plaintext; S-box entries, round constants and key-schedule branches that those runs do not reach are untested.",
 ["src/aes/cipher.rs", "src/aes/expander.rs", "src/aes/field.rs", "src/aes/sbox.rs", "src/aes/mod.rs"],
 [("round functions and their inverses", "src/aes/cipher.rs"), ("key expansion", "src/aes/expander.rs"), ("S-box built from the field iterator", "src/aes/sbox.rs"), ("key words to bytes", "src/aes/mod.rs")],
 ["BlockCipher<16>::encrypt/decrypt of aes::Aes", "aes::Key128/192/256 -> Aes"])

prop("C02", "RC2 is RFC 2268 for every key length and effective key size",
 "For every key of 1 to 128 bytes, every effective key length of 1 to 1024 bits and every 8-byte block, RC2 encryption returns exactly the RFC 2268 ciphertext. Decryption with the same parameters returns the original block.",
 ["inputs", "configurations"], "all (key length, effective bits) pairs, all keys and blocks",
 "Tests cover nine RFC vectors and two ECB messages: a handful of the 131072 (key length, effective bits) combinations.",
 ["src/rc/rc2.rs"],
 [("key expansion with effective-bits masking", "src/rc/rc2.rs expand_key"), ("mix/mash rounds and inverses", "src/rc/rc2.rs")],
 ["BlockCipher<8>::encrypt/decrypt of rc2::from_key"])

prop("C03", "RC5-32/r/b is exact for every key length and round count",
 "For every key of 0 to 255 bytes, every round count from 0 to 255 and every 8-byte block, RC5 encryption returns exactly the RC5-32/r/b ciphertext defined by Rivest's specification. Decryption with the same key and round count returns the original block.",
 ["inputs", "configurations"], "all (key length, rounds) pairs, all keys and blocks",
 "Tests use only 16-byte keys and 12 rounds; every other key length (including the empty key and lengths not divisible by four) and round count is untested.",
 ["src/rc/rc5.rs"],
 [("key mixing", "src/rc/rc5.rs expand_key"), ("data-dependent rotations and inverses", "src/rc/rc5.rs")],
 ["BlockCipher<8>::encrypt/decrypt of rc5::new"])

prop("C04", "RC4 produces the RC4 keystream at every position for every key",
 "For every key of 1 to 256 bytes, the RC4 object yields exactly the RC4 keystream, byte after byte without end, however far into the stream it is read and by whatever iterator method. Encrypting a message returns its XOR with that keystream and has the message's length, and decrypting with a fresh object of the same key returns the message.",
 ["inputs", "histories"], "all keys, all stream positions, all messages, all ways of advancing the iterator",
 "Tests read at most 14 bytes of the stream for three short keys, so neither the 256-byte wrap of the state index nor long keys are reached.",
 ["src/rc/rc4.rs", "src/lib.rs"],
 [("key scheduling and state permutation", "src/rc/rc4.rs"), ("XOR with key stream", "src/lib.rs StreamCipher")],
 ["rc4::new, Iterator::next, rc4::encrypt, rc4::decrypt"])

prop("C05", "A stream cipher uses each keystream byte once and in order",
 "For any keystream and any way of cutting a message into pieces across successive encrypt calls, including empty pieces and pieces of which only a prefix is consumed before the rest is dropped, the n-th byte produced over the cipher's lifetime is its input byte XOR the n-th keystream byte; none is skipped or reused. If the keystream ends, the cipher fails loudly and never emits a byte that was not combined with a fresh keystream byte.",
 ["histories", "inputs"], "all sequences of encrypt calls with any piece sizes and partial consumption, any keystream including finite ones",
 "One test splits one message into two pieces and consumes both fully.",
 ["src/lib.rs", "src/rc/rc4.rs"],
 [("lazy map pulling one key byte per data byte", "src/lib.rs StreamCipher::encrypt")],
 ["StreamCipher::new / encrypt"],
 [{"name": "keys", "meaning": "position in the keystream", "where": "src/lib.rs StreamCipher"}])

prop("C06", "Block-message encryption round-trips and rejects bad ciphertexts",
 "For every block cipher, every mode (stateful or not), every block size up to 255 and every message, encryption passes the message's blocks followed by one PKCS#7-padded final block through the mode in order, each exactly once, and outputs exactly what the mode returns; decrypting with a mode started in the same state gives back exactly the message. A ciphertext that is empty, is not a whole number of blocks, or whose decrypted last block does not carry valid PKCS#7 padding makes decryption panic.",
 ["inputs", "configurations", "histories"], "all messages (any length and content, including content that looks like padding), all block sizes 1..255, all ciphers and modes, all ciphertexts",
 "Tests decrypt six fixed 16-byte messages and encrypt three 4-byte-block messages; no malformed ciphertext, multi-block stateful decryption or other block size is tried.",
 ["src/lib.rs", "src/pad.rs"],
 [("chunking, padding the remainder, one-block look-behind in decryption", "src/lib.rs BlockEncryption"), ("mode interface", "src/lib.rs BlockCipherMode / EcbMode")],
 ["BlockEncryption::encrypt / decrypt", "EcbMode"])

prop("C07", "Padding is unambiguous: unpad inverts pad and rejects anything else",
 "For both padding schemes, every block size N (up to 255 for PKCS#7) and every partial block shorter than N, the padded block starts with the partial block and unpadding it yields exactly the partial block's length (and, for bit padding, its bytes followed by zeros). Unpadding accepts only blocks that padding can produce: a PKCS#7 block whose last byte n is 0, exceeds N, or is not repeated n times, or a bit-padded block whose last non-zero byte is not 0x80, panics. Padding an input of N or more bytes panics.",
 ["inputs", "configurations"], "all block sizes, all partial blocks, all N-byte blocks given to unpad",
 "Tests use N = 4 and a dozen blocks.",
 ["src/pad.rs"],
 [("pad/unpad", "src/pad.rs BitPadding, PkcsPadding")],
 ["pad::BitPadding, pad::PkcsPadding"])

prop("C08", "SHA-1 and SHA-2 digests are FIPS 180-4 for every message",
 "For every message of every length, including lengths at and around block and padding boundaries, many blocks, and sizes whose bit count exceeds 16 or 32 bits, the SHA-1, SHA-224, SHA-256, SHA-384 and SHA-512 functions return exactly the FIPS 180-4 digest.",
 ["inputs"], "all messages of all lengths",
 "Apart from one 10000-byte SHA-1 message, tests hash only the empty string and one 43-byte sentence; SHA-384/512 are never run on a non-empty message and no padding boundary is crossed.",
 ["src/sha/sha1.rs", "src/sha/sha2.rs", "src/sha/pad.rs", "src/sha/hash.rs"],
 [("length padding with optional extra block", "src/sha/pad.rs, src/sha/sha2.rs sha2_padding_big"), ("compression functions", "src/sha/sha1.rs, src/sha/sha2.rs")],
 ["sha::sha1, sha224, sha256, sha384, sha512"])

prop("C09", "MD2, MD4 and MD5 digests match their RFCs for every message",
 "For every message of every length, supplied through any iterator over its bytes, the MD2, MD4 and MD5 functions return exactly the digest defined by RFC 1319, RFC 1320 and RFC 1321 respectively.",
 ["inputs"], "all messages of all lengths, all iterator types",
 "Tests hash three or four short messages each, always from a slice; no length near 55..64 mod 64 or multiple of 16 is covered.",
 ["src/md/md2.rs", "src/md/md4.rs", "src/md/md5.rs"],
 [("buffering, padding and length counting", "src/md/*.rs Hasher"), ("compression functions", "src/md/*.rs")],
 ["md2, md4, md5"])

prop("C10", "Digest values convert losslessly between words, bytes and hex",
 "For every digest type and every value, converting words to a digest and back returns the same words, the digest's bytes are the big-endian words, and two digests are equal exactly when their bytes are. Reading a digest from hexadecimal text returns exactly the spelled bytes in either letter case, and returns an error, never a panic or a wrong value, for any text that is not exactly the right number of hex digits.",
 ["inputs"], "all digest types, all word arrays, all texts",
 "Tests only build digests from correct hex; no conversion back to words is ever called.",
 ["src/sha/hash.rs"],
 [("word/byte packing", "src/sha/hash.rs helpers"), ("length check after hex decoding", "src/sha/hash.rs FromHex")],
 ["From conversions of sha::Hash160..Hash512, FromHex"])

prop("C11", "Big integers compute exact natural-number arithmetic",
 "Starting from any byte strings or integers and after any sequence of additions, subtractions, remainders, shifts by any amount and bit updates within its existing bytes that leave its top byte non-zero, a big integer equals the mathematical result, whatever the operand sizes (up to the 2^32-1 bits its bit lengths can express). Values that are mathematically equal compare equal, order correctly and give identical minimal big-endian bytes, bit lengths and bit tests, however they were produced. An operation without a natural-number result (subtracting a larger number, remainder by zero, converting a value of more than 128 bits to 128 bits) is refused by a panic or error, never answered with a number.",
 ["inputs", "histories"], "all operands of all sizes, all operation sequences",
 "Tests cover conversions of two constants and eight subtractions; addition, remainder, shifts, comparison and chained operations have no test of their own.",
 ["src/big/uint.rs"],
 [("carry/borrow propagation", "src/big/uint.rs AddAssign, SubAssign"), ("canonical form without trailing zero bytes", "src/big/uint.rs trim_trailing_zeroes"), ("shift-subtract remainder", "src/big/uint.rs RemAssign")],
 ["big::BigUint public API"],
 [{"name": "bytes", "meaning": "little-endian magnitude, must have no high zero byte", "where": "src/big/uint.rs BigUint"}])

prop("C12", "RSA keys are valid and raw RSA is exact and invertible",
 "For every pair of distinct primes whose product fits in 128 bits and every public exponent coprime to (p-1) and (q-1), key creation returns keys with modulus p*q such that encrypting any number below the modulus with either key and decrypting with the other returns it; a public exponent without an inverse, or primes whose product does not fit, is refused by a panic. For every number m and every key, raw encryption and decryption return exactly m raised to the key's exponent modulo its modulus.",
 ["inputs", "configurations"], "all prime pairs, all exponents, all messages below (and above) the modulus",
 "Tests use three key pairs and one message each.",
 ["src/rsa/mod.rs", "src/big/uint.rs"],
 [("extended Euclid and lcm", "src/rsa/mod.rs inverse, lcm, create_keys"), ("square-and-multiply", "src/rsa/mod.rs mul_mod, pow_mod")],
 ["rsa::create_keys, RsaEncryption::encrypt / decrypt"])

prop("C13", "RSA messages round-trip for every key, message and padding scheme",
 "For every RSA key pair, every padding scheme and every message the scheme accepts for that key, decrypting the encrypted message with the other key returns exactly the message, including when the ciphertext or the padded message starts with zero bytes; the padding scheme is always given the modulus length in bytes. Ciphertexts are exactly as long as the modulus and interoperate with RSAES-OAEP (SHA-256, empty label) of RFC 8017 in both directions. A message too long for the key, or a ciphertext that does not decode, panics and never returns data.",
 ["inputs", "configurations"], "all key pairs (any modulus bit length), all padding schemes, all messages, all ciphertexts",
 "Two tests encrypt one message with one key each; about one ciphertext in 256 starts with a zero byte and is never hit.",
 ["src/rsa/mod.rs", "src/rsa/pad.rs", "src/rsa/oaep.rs"],
 [("conversion between octet strings and integers", "src/rsa/mod.rs encrypt_message, decrypt_message"), ("padding scheme interface", "src/rsa/mod.rs PaddingScheme")],
 ["RsaEncryption::encrypt_message / decrypt_message"])

prop("C14", "OAEP padding is RFC 8017: decode accepts exactly valid encodings",
 "For every label, every output length and every message that fits, the RSA padding's encoding has exactly the requested length, starts with a zero byte and is a valid RFC 8017 EME-OAEP (SHA-256, MGF1) encoding of that label and message; a message that does not fit panics. Decoding returns the message for every valid encoding with any seed, and returns an error, without panicking, for every other byte string: wrong length or too short, non-zero first byte, different label, broken zero padding, missing separator or any other corruption.",
 ["inputs"], "all labels, messages, output lengths, seeds and byte strings given to decode",
 "One round-trip test with one label, message and length; no rejection path of decoding is ever exercised.",
 ["src/rsa/oaep.rs", "src/rsa/mgf.rs", "src/rsa/pad.rs"],
 [("data block layout and masking", "src/rsa/oaep.rs"), ("mask generation", "src/rsa/mgf.rs")],
 ["rsa::RsaPadding as PaddingScheme: encode / decode"])

prop("C15", "PEM text rendering round-trips every label and payload",
 "For every label (any text without line breaks) and every byte payload, rendering a PEM document gives a BEGIN line, the payload's standard Base64 in lines of exactly 64 characters except a shorter last one, and an END line, all carrying the label. Parsing that text, also when indented, using CRLF line ends, re-wrapped at other widths or surrounded by unrelated lines, returns exactly the same label and payload.",
 ["inputs"], "all labels, all payloads, all re-wrappings and surroundings",
 "Tests render two payloads and parse a few fixed texts; line-wrap boundaries and round trips are not explored.",
 ["src/pem/mod.rs"],
 [("line wrapping", "src/pem/mod.rs Display"), ("line-wise parsing", "src/pem/mod.rs extract_pem_pieces")],
 ["PEM: Display, FromStr"])

prop("C16", "PEM parsing accepts exactly one well-formed labelled block",
 "Parsing succeeds exactly when the text has one BEGIN line, later one END line with the same label, and the trimmed lines between them concatenate to valid padded standard Base64 (unused trailing bits zero); it then returns that label and exactly those decoded bytes, ignoring lines before BEGIN and after END. Every other text (missing, duplicate, misordered, unterminated or mismatched markers, or invalid Base64) is an error, and no text makes parsing panic.",
 ["inputs", "histories"], "all texts, seen as all sequences of lines",
 "Fifteen fixed texts; combinations of several irregularities, empty labels and markers outside the block are not covered.",
 ["src/pem/mod.rs"],
 [("line state machine", "src/pem/mod.rs extract_pem_pieces"), ("Base64 decoding", "src/pem/mod.rs parse_pem_data")],
 ["PEM::from_str"])

prop("C17", "ASN.1 parsing is exact on DER and total on arbitrary bytes",
 "For every DER encoding built from INTEGER, OCTET STRING, BIT STRING, NULL, OBJECT IDENTIFIER and SEQUENCE, with short- or long-form lengths and nested at least 32 deep, parsing returns exactly the encoded tree. Input that is truncated, has bytes left over, uses another tag, lacks a bit string's unused-bits byte, or states a length beyond its enclosing element (however many length bytes it uses) is an error. No byte string of any content or nesting depth makes parsing panic, overflow the stack or not return.",
 ["inputs"], "all ASN.1 trees and all byte strings",
 "Three well-formed inputs are parsed; no malformed input is ever given to the parser.",
 ["src/pem/asn1.rs"],
 [("tag/length/value parsing with bounds checks", "src/pem/asn1.rs parse_from_bytes"), ("trailing-bytes check", "src/pem/asn1.rs TryFrom")],
 ["Asn1::try_from(&[u8])"])

prop("C18", "RSA key import takes the right integers or fails with an error",
 "For every RSA key encoded as PKCS#8 PRIVATE KEY or SubjectPublicKeyInfo PUBLIC KEY PEM, import returns the key with exactly the encoded modulus and private (or public) exponent, whatever their sizes. A PEM with another label, another algorithm, a non-zero outer version, a missing, extra, reordered or wrongly typed element, unused bits in the bit string, or malformed or trailing DER at any level is an error; no PEM makes import panic.",
 ["inputs"], "all keys of all sizes, all PEM payloads",
 "One 2048-bit key in each format is imported; no rejection is tested at all.",
 ["src/rsa/asn1.rs", "src/rsa/mod.rs", "src/pem/asn1.rs"],
 [("structure matching", "src/rsa/asn1.rs from_asn1 functions"), ("label check and field selection", "src/rsa/mod.rs TryFrom<PEM>")],
 ["PrivateKey::try_from(PEM), PublicKey::try_from(PEM)"])

prop("C19", "Results never depend on unrelated calls, call order or interleaving",
 "Every operation of the library returns a result that depends only on its own arguments and, for a stream object, on that object's own history. Earlier calls, failed (panicking) calls, calls on other objects, and calls that run while another operation is suspended inside a caller-supplied callback (cipher, mode, padding scheme, iterator or output function), on the same thread or another one, never change it.",
 ["histories", "schedules"], "all sequences of calls and all interleavings of concurrent calls at callback points",
 "Each test runs each operation once from a fresh start and on its own; nothing exercises sequences, panics followed by reuse, or overlapping operations.",
 ["src/lib.rs", "src/rc/rc4.rs", "src/md/md2.rs", "src/md/md4.rs", "src/md/md5.rs", "src/rsa/mod.rs", "src/aes/cipher.rs", "src/sha/sha2.rs"],
 [("no shared mutable state: all state lives in the values passed in", "whole crate")],
 ["every public operation"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
