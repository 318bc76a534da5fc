#!/usr/bin/env python3
"""Writes mc/src/props/keys_data.rs: RSA keys with exact modulus bit lengths (deterministic).

Two families. 'two': ordinary keys with two primes. 'many': the modulus is a product of many
small primes p with p-1 dividing a small number L, so that the private exponent is short and a
private operation is cheap; the factors are grouped into two coprime halves, so that the
PKCS#1 fields (primes, exponents, coefficient) stay consistent with each other.
Needs sympy (python3-vt)."""
import random, math
from sympy import isprime, nextprime
rng = random.Random(20240607)

def lcm(a, b): return a * b // math.gcd(a, b)

def many(bits, e, factors=((2, 5), (3, 3), (5, 1), (7, 1), (11, 1), (13, 1))):
    divs = [1]
    for p, k in factors:
        divs = [d * p**i for d in divs for i in range(k + 1)]
    ps = sorted(d + 1 for d in divs if isprime(d + 1) and d + 1 > 60)
    for _ in range(200000):
        rng.shuffle(ps)
        n, f = 1, []
        for p in ps:
            if (n * p).bit_length() > bits: continue
            n *= p; f.append(p)
            if n.bit_length() == bits: break
        if n.bit_length() != bits: continue
        A = math.prod(f[::2]); B = math.prod(f[1::2])
        la = 1
        for p in f[::2]: la = lcm(la, p - 1)
        lb = 1
        for p in f[1::2]: lb = lcm(lb, p - 1)
        l = lcm(la, lb)
        if math.gcd(e, l) != 1: continue
        d = pow(e, -1, l)
        return n, e, d, A, B, d % la, d % lb, pow(B, -1, A)
    raise SystemExit(f"no {bits}-bit key")

def two(bits, e):
    while True:
        p = nextprime(rng.getrandbits(bits // 2) | 1 << (bits // 2 - 1))
        q = nextprime(rng.getrandbits(bits - bits // 2) | 1 << (bits - bits // 2 - 1))
        n = p * q
        if p == q or n.bit_length() != bits or math.gcd(e, lcm(p - 1, q - 1)) != 1: continue
        d = pow(e, -1, lcm(p - 1, q - 1))
        return n, e, d, p, q, d % (p - 1), d % (q - 1), pow(q, -1, p)

out = ["// Generated by tools/gen_keys.py.", "", "pub struct Raw {", "    pub bits: u32,", "    pub family: &'static str,",
       "    /// n, e, d, p, q, dp, dq, qinv", "    pub ints: [&'static str; 8],", "}", "", "pub const KEYS: &[Raw] = &["]
for b in (521, 522, 527, 528, 529, 530, 535, 536, 537, 544, 600, 640, 769):
    k = many(b, 17 if b % 2 else 65537)
    out.append(f'    Raw {{ bits: {b}, family: "many", ints: [' + ", ".join(f'"{x:x}"' for x in k) + "] },")
for b, e in ((521, 3), (528, 65537), (1024, 17)):
    k = two(b, e)
    out.append(f'    Raw {{ bits: {b}, family: "two", ints: [' + ", ".join(f'"{x:x}"' for x in k) + "] },")
for b in (1023, 1024, 1025, 2047, 2048, 2049, 2056, 3072, 4096):
    k = many(b, 65537 if b % 2 else 29, ((2, 6), (3, 3), (5, 2), (7, 1), (11, 1), (13, 1), (17, 1), (19, 1)))
    out.append(f'    Raw {{ bits: {b}, family: "large", ints: [' + ", ".join(f'"{x:x}"' for x in k) + "] },")
out.append("];")
open("/verif/mc/src/props/keys_data.rs", "w").write("\n".join(out) + "\n")

# primes next to powers of two, for moduli of every bit length
from sympy import prevprime
lines = ["// Generated by tools/gen_keys.py: (k, largest prime below 2^k, smallest prime above 2^k).", "pub const NEAR_POWERS: &[(u32, u128, u128)] = &["]
for k in range(2, 127):
    lines.append(f"    ({k}, {prevprime(2**k)}, {nextprime(2**k)}),")
lines.append("];")
open("/verif/mc/src/props/primes_data.rs", "w").write("\n".join(lines) + "\n")
