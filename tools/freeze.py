#!/usr/bin/env python3
"""Development tool: makes sim/bigstates.inc with the reference models only (no
library code is involved) and cross-checks the digests at the frozen positions
with Python's hashlib where it has the algorithm.

    tools/freeze.py BIGSIM-BINARY     (sim/check.py --build, then .build/bigsim/sim-*)
"""
import concurrent.futures as cf, hashlib, os, subprocess, sys, zlib
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "sim", "bigstates.inc")
exe = sys.argv[1]
ALGOS = """md2 sha3-512 sha3-384 sha3-224 sha3-256 cshake-256 shake-256 tuple-hash-256 cshake-128 shake-128 tuple-hash-128 whirlpool sha2-224 sha2-256
blake1-224 blake1-256 blake1-384 blake1-512 blake2 blake2s crc-32 fnv32_0 fnv32_1 fnv32_1a fnv64_0 fnv64_1 fnv64_1a has160 md4 md5
ripemd-128 ripemd-160 ripemd-256 ripemd-320 siphash sha1 sha2-384 sha2-512 sha2-512-224 sha2-512-256 sm3
tiger1-128 tiger1-160 tiger1-192 tiger2-128 tiger2-160 tiger2-192""".split()
LIB = {"md5": "md5", "sha1": "sha1", "sha2-224": "sha224", "sha2-256": "sha256", "sha2-384": "sha384", "sha2-512": "sha512", "sha2-512-224": "sha512_224", "sha2-512-256": "sha512_256",
       "sha3-224": "sha3_224", "sha3-256": "sha3_256", "sha3-384": "sha3_384", "sha3-512": "sha3_512", "blake2": "blake2b", "blake2s": "blake2s", "sm3": "sm3", "ripemd-160": "ripemd160",
       "shake-128": "shake_128", "shake-256": "shake_256", "crc-32": "crc"}


def freeze(a):
    p = subprocess.run([exe, "--freeze", a], capture_output=True, text=True, check=True)
    return a, p.stdout, p.stderr


def cross(a, digests):
    """digests: [(position, hex)]"""
    end = digests[-1][0]
    if LIB[a] == "crc":
        class H:
            c = 0
            def update(self, b): self.c = zlib.crc32(b, self.c)
            def hexdigest(self): return "%08x" % self.c
        h = H()
    else:
        try:
            h = hashlib.new(LIB[a])
        except ValueError:
            return "%s: hashlib lacks it" % a
    p = subprocess.Popen([exe, "--dump", str(end)], stdout=subprocess.PIPE)
    pos = 0
    for want, hx in digests:
        while pos < want:
            b = p.stdout.read(min(4 << 20, want - pos))
            h.update(b)
            pos += len(b)
        got = h.hexdigest(48) if "shake" in LIB[a] else h.hexdigest()
        if got != hx:
            return "%s: MISMATCH at %d: hashlib %s reference %s" % (a, pos, got, hx)
    p.wait()
    return "%s: agrees with hashlib at %s" % (a, [d[0] for d in digests])


with cf.ThreadPoolExecutor(8) as ex:
    res = list(ex.map(freeze, ALGOS))
    with open(OUT, "w") as f:
        f.write("\t// frozen checkpoints of the reference models (tools/freeze.py): {algorithm, tuple element length, position, state}\n")
        for a, o, e in sorted(res):
            f.write(o)
    jobs = {}
    for a, o, e in res:
        if a in LIB:
            jobs[a] = [(int(l.split()[1]), l.split()[2]) for l in e.splitlines()]
    for m in ex.map(lambda a: cross(a, jobs[a]), jobs):
        print(m, flush=True)
