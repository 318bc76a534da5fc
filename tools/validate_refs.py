#!/usr/bin/env python3
"""Compares the reference models (mc ref ...) with Python's and OpenSSL's implementations.
Used while developing; no check depends on it."""
import hashlib, subprocess, random, base64, sys
M = sys.argv[1] if len(sys.argv) > 1 else "/verif/mc/target/release/mc"
rnd = random.Random(5)
def ref(*a): return subprocess.run([M, "ref", *map(str, a)], capture_output=True, text=True, check=True).stdout.strip()
def ossl(args, data): return subprocess.run(["openssl", *args, "-provider", "legacy", "-provider", "default"], input=data, capture_output=True).stdout
n = 0
def same(a, b, what):
    global n
    n += 1
    assert a == b, (what, a, b)
for ln in list(range(0, 300, 7)) + [55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 1000]:
    m = rnd.randbytes(ln)
    for h in ["sha1", "sha224", "sha256", "sha384", "sha512", "md5"]:
        same(ref(h, m.hex()), hashlib.new(h, m).hexdigest(), (h, ln))
    same(ref("md4", m.hex()), ossl(["dgst", "-md4", "-binary"], m).hex(), ("md4", ln))
    same(ref("b64", m.hex()), base64.b64encode(m).hex(), "b64")
for ks in [16, 24, 32]:
    for _ in range(20):
        k, b = rnd.randbytes(ks), rnd.randbytes(16)
        c = ossl(["enc", f"-aes-{ks*8}-ecb", "-K", k.hex(), "-nopad"], b).hex()
        same(ref("aes", k.hex(), b.hex()), c, "aes")
        same(ref("unaes", k.hex(), c), b.hex(), "unaes")
for _ in range(30):
    k, b = rnd.randbytes(16), rnd.randbytes(8)
    same(ref("rc2", k.hex(), 128, b.hex()), ossl(["enc", "-rc2-ecb", "-K", k.hex(), "-nopad"], b).hex(), "rc2")
    same(ref("rc2", k[:5].hex(), 40, b.hex()), ossl(["enc", "-rc2-40-cbc", "-K", k[:5].hex(), "-iv", "00"*8, "-nopad"], b).hex(), "rc2-40")
    same(ref("rc2", k[:8].hex(), 64, b.hex()), ossl(["enc", "-rc2-64-cbc", "-K", k[:8].hex(), "-iv", "00"*8, "-nopad"], b).hex(), "rc2-64")
    same(ref("rc4", k.hex(), 300), ossl(["enc", "-rc4", "-K", k.hex()], bytes(300)).hex(), "rc4")
for _ in range(40):
    a, e, m = (int.from_bytes(rnd.randbytes(rnd.randrange(1, 90)), "big") + 2 for _ in range(3))
    hx = lambda v: v.to_bytes((v.bit_length() + 7) // 8, "big").hex()
    same(ref("powmod", hx(a), hx(e), hx(m)), hx(pow(a, e, m)), "powmod")
    same(ref("rem", hx(a), hx(m)), hx(a % m), "rem")
print(n, "comparisons agree")
