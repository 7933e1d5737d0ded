#!/usr/bin/env python3
"""Derives the constant tables of the reference models from first principles
(pi digits, prime roots, the Tiger S-box generator is run at start-up in C++)."""
import math
def pi_digits(n):
    # Machin, integer arithmetic
    s = 10 ** (n + 20)
    def arctan(x):
        t = s // x; r = t; k = 3; sg = -1
        while t:
            t //= x * x
            r += sg * (t // k); sg = -sg; k += 2
        return r
    return str(4 * (4 * arctan(5) - arctan(239)))[:n]
def md2():
    d = iter(pi_digits(2000))
    def rand(n):
        while True:
            x = int(next(d)); y = 10
            if n > 10: x = x * 10 + int(next(d)); y = 100
            if n > 100: x = x * 10 + int(next(d)); y = 1000
            if x < n * (y // n): return x % n
    S = list(range(256))
    for i in range(2, 257):
        j = rand(i); S[j], S[i - 1] = S[i - 1], S[j]
    return S
def primes(n):
    r = []; k = 2
    while len(r) < n:
        if all(k % p for p in r): r.append(k)
        k += 1
    return r
def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 2)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo
def frac_root(p, k, bits): return iroot(p << (k * bits), k) & ((1 << bits) - 1)
def pi_words(nbits, count):
    # fractional part of pi
    n = nbits * count
    digs = int(n * 0.302) + 40
    d = pi_digits(digs + 1)
    frac = int(d[1:])
    x = (frac << n) // (10 ** digs)
    return [(x >> (n - nbits * (i + 1))) & ((1 << nbits) - 1) for i in range(count)]
def emit(t, name, v, w):
    f = "0x%0" + str(w) + "x" + ("ull" if w == 16 else "u" if w == 8 else "")
    print("static const %s %s[%d] = {%s};" % (t, name, len(v), ",".join(f % x for x in v)))
print("// generated by gen_tables.py")
emit("uint8_t", "T_MD2", md2(), 2)
P = primes(80)
emit("uint32_t", "T_K256", [frac_root(p, 3, 32) for p in P[:64]], 8)
emit("uint64_t", "T_K512", [frac_root(p, 3, 64) for p in P], 16)
emit("uint32_t", "T_IV256", [frac_root(p, 2, 32) for p in P[:8]], 8)
emit("uint64_t", "T_IV512", [frac_root(p, 2, 64) for p in P[:8]], 16)
emit("uint64_t", "T_IV384", [frac_root(p, 2, 64) for p in P[8:16]], 16)
emit("uint32_t", "T_IV224", [frac_root(p, 2, 64) & 0xffffffff for p in P[8:16]], 8)
emit("uint32_t", "T_MD5K", [int(abs(math.sin(i + 1)) * 2**32) & 0xffffffff for i in range(64)], 8)
emit("uint32_t", "T_PI32", pi_words(32, 16), 8)
emit("uint64_t", "T_PI64", pi_words(64, 16), 16)
