// Deterministic simulation of very long streams.  A few megabytes of content
// are mapped over and over into a window larger than 4 GiB, so that a piece of
// any size can be handed to the real hasher.  The stream's content is fixed;
// checkpoints of the reference model at block boundaries below 2^29, 2^31 and
// 2^32 are frozen in bigstates.inc (made by tools/freeze.py), and the reference
// continues from there with whatever the seed chose.
#include "ops.h"
#include "rng.h"
#include "../ref/ref.h"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

using ref::Bytes;
typedef unsigned __int128 u128;
static const uint64_t PERIOD = 1021 * 4096, NEAR = 65536;
static const uint64_t WINDOW = ((1ull << 32) + (16ull << 20)) / PERIOD * PERIOD + 2 * PERIOD;
static const uint64_t MAXPIECE = WINDOW - PERIOD;
static const uint64_t FROZEN_AT[] = {(1ull << 29) - NEAR, (1ull << 31) - NEAR, (1ull << 32) - NEAR};
static const uint64_t TUPLE_ELEMENTS[] = {(1ull << 29) + 5, (1ull << 31) + 3, (1ull << 32) + 77};
static uint8_t *g_window;

// A mirage is a piece of up to 128 GiB of which only the first pages exist.  A
// hasher that really goes through the piece meets the missing page; one that
// returns has lost a part of the length on the way.
static const uint64_t MIRAGE = 1ull << 37, MIRAGE_SOLID = 192 << 10;
static uint8_t *g_mirage;
static uint64_t g_mirageSize;
static const uint8_t *volatile g_pieceLo, *volatile g_pieceHi;
static sigjmp_buf g_met;
static void onSegv(int sig, siginfo_t *si, void *)
{
	const uint8_t *a = (const uint8_t *)si->si_addr;
	if (g_pieceLo && a >= g_pieceLo && a < g_pieceHi) { g_pieceLo = nullptr; siglongjmp(g_met, 1); }
	signal(sig, SIG_DFL);     // again, for real
}

struct Frozen { const char *algo; uint64_t element, pos; const char *state; };
static const Frozen FROZEN[] = {
#include "bigstates.inc"
	{nullptr, 0, 0, nullptr}};

static void makeWindow()
{
	const int fd = memfd_create("stream", 0);
	if (fd < 0 || ftruncate(fd, off_t(PERIOD)) != 0) { perror("memfd"); exit(3); }
	uint8_t *p = (uint8_t *)mmap(nullptr, PERIOD, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	fillContent(p, PERIOD, 0x1234567);
	munmap(p, PERIOD);
	g_window = (uint8_t *)mmap(nullptr, WINDOW, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (g_window == MAP_FAILED) { perror("mmap"); exit(3); }
	for (uint64_t o = 0; o < WINDOW; o += PERIOD)
		if (mmap(g_window + o, PERIOD, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(3); }
	for (uint64_t size = MIRAGE; size >= (1ull << 33); size /= 2)
	{
		void *m = mmap(nullptr, size + 8192 + MIRAGE_SOLID, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) continue;
		g_mirage = (uint8_t *)m + 4096;
		if (mmap(g_mirage, MIRAGE_SOLID, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(3); }
		g_mirageSize = size;
		break;
	}
	close(fd);
}
static const uint8_t *at(uint64_t pos) { return g_window + pos % PERIOD; }

static int g_len = 48;     // requested digest length of the hashers that take one
static ref::Spec specOf(int algo)
{
	ref::Spec s;
	s.algo = algo;
	if (ref::hasLen(algo)) s.digestLen = g_len;
	if (algo == ref::CSHAKE128 || algo == ref::CSHAKE256) s.name = {'b', 'i', 'g'};
	if (ref::hasCustom(algo)) s.custom = {'s', 't', 'r', 'e', 'a', 'm'};
	if (algo == ref::SIPHASH) for (int i = 0; i < 16; ++i) s.key.push_back(uint8_t(i * 17 + 3));
	return s;
}
static Bytes minimalBe(u128 v) { Bytes o; for (int i = 15; i >= 0; --i) if (!o.empty() || uint8_t(v >> (8 * i)) || i == 0) o.push_back(uint8_t(v >> (8 * i))); return o; }
static Bytes leftEnc(u128 v) { Bytes m = minimalBe(v); m.insert(m.begin(), uint8_t(m.size())); return m; }
static Bytes rightEnc(u128 v) { Bytes m = minimalBe(v); m.push_back(uint8_t(m.size())); return m; }

// The reference at a position of the stream.
struct Ref
{
	int algo = 0;
	uint64_t pos = 0;
	std::unique_ptr<ref::Model> m;
	explicit Ref(int a) : algo(a), m(fresh(a)) {}
	Ref(const Ref &o) : algo(o.algo), pos(o.pos), m(o.m->clone()) {}
	static std::unique_ptr<ref::Model> fresh(int a)
	{
		ref::Spec s = specOf(a);
		if (ref::isTuple(a)) { s.algo = a == ref::TUPLE128 ? ref::CSHAKE128 : ref::CSHAKE256; const char *n = "TupleHash"; s.name.assign(n, n + 9); }
		return ref::make(s);
	}
	static uint64_t aligned(int a, uint64_t p) { const uint64_t b = uint64_t(ref::blockSize(a)); return p / b * b; }
	void raw(uint64_t from, uint64_t n)
	{
		while (n) { const uint64_t k = std::min<uint64_t>(n, 4 << 20); m->update(at(from), size_t(k)); from += k; n -= k; }
	}
	const Frozen *frozen(uint64_t element, uint64_t limit)
	{
		const Frozen *best = nullptr;
		for (const Frozen *f = FROZEN; f->algo; ++f)
			if (f->element == element && f->pos <= limit && !strcmp(f->algo, ref::algoName(algo)) && (!best || f->pos > best->pos)) best = f;
		return best;
	}
	// the next n bytes of the stream (for a tuple: one element)
	void advance(uint64_t n)
	{
		uint64_t from = pos;
		pos += n;
		if (ref::isTuple(algo))
		{
			const Bytes l = leftEnc(u128(n) * 8);
			if (from == 0 && n > (64u << 20))
				if (const Frozen *f = frozen(n, n)) { m->load(ref::unhex(f->state)); raw(f->pos, n - f->pos); return; }
			m->update(l.data(), l.size());
			raw(from, n);
			return;
		}
		if (n > (64u << 20) || (from < 64u << 20 && pos > (64u << 20)))
			if (const Frozen *f = frozen(0, pos))
				if (f->pos > from) { m = fresh(algo); m->load(ref::unhex(f->state)); from = f->pos; }
		raw(from, pos - from);
	}
	Bytes digest() const
	{
		if (!ref::isTuple(algo)) return m->digest();
		std::unique_ptr<ref::Model> c = m->clone();
		const Bytes r = rightEnc(u128(specOf(algo).digestLen) * 8);
		c->update(r.data(), r.size());
		return c->digest();
	}
};

// ------------------------------------------------------------------ plan
enum Kind { K_FEED, K_CHOP, K_BRANCH, K_MOVE, K_MIRAGE, K_COUNT };
static const char *KN[K_COUNT] = {"feed", "chop", "branch", "move", "mirage"};
struct Op { int k = 0; uint64_t n = 0, w = 0, m = 0; };
struct Plan
{
	uint64_t algo = 0, len = 48;
	std::vector<Op> ops;
	std::string text() const
	{
		std::ostringstream o;
		o << "bigsim 1\nalgo " << algo << "\nlen " << len << "\n# " << ref::algoName(int(algo)) << "\n";
		for (const Op &p : ops) o << KN[p.k] << " n=" << p.n << " w=" << p.w << " m=" << p.m << "\n";
		return o.str();
	}
	static Plan parse(std::istream &in)
	{
		Plan p;
		std::string line;
		while (std::getline(in, line))
		{
			std::istringstream l(line);
			std::string w;
			if (!(l >> w) || w[0] == '#' || w == "bigsim" || w == "profile") continue;
			if (w == "algo") { l >> p.algo; p.algo %= ref::ALGO_COUNT; continue; }
			if (w == "len") { l >> p.len; p.len = std::max<uint64_t>(1, std::min<uint64_t>(p.len, 0x7fffffff)); continue; }
			std::map<std::string, uint64_t> m;
			std::string kv;
			while (l >> kv) { const size_t e = kv.find('='); if (e != std::string::npos) m[kv.substr(0, e)] = strtoull(kv.c_str() + e + 1, nullptr, 10); }
			Op o; o.n = m["n"]; o.w = m["w"]; o.m = m["m"];
			bool ok = false;
			for (int i = 0; i < K_COUNT; ++i) if (w == KN[i]) { o.k = i; ok = true; }
			if (!ok) { fprintf(stderr, "bad plan line: %s\n", line.c_str()); exit(3); }
			p.ops.push_back(o);
		}
		return p;
	}
};

// ------------------------------------------------------------------ jobs
enum Job { J_CROSS32, J_PIECE32, J_CROSS29, J_PIECE31, J_LADDER };
struct JobDef { int algo, job; };
// what one round consists of, longest first
static std::vector<JobDef> roundJobs(uint64_t round)
{
	std::vector<JobDef> r;
	if (round == 0) r.push_back({ref::MD2, J_CROSS29});
	else r.push_back({ref::MD2, round % 3 == 1 ? J_PIECE32 : round % 3 == 2 ? J_PIECE31 : J_CROSS32});
	static const int order[] = {ref::SHA3_512, ref::WHIRLPOOL, ref::SM3, ref::SHA3_384, ref::SHA3_224, ref::SHA2_224, ref::SHA2_256, ref::CSHAKE256, ref::SHAKE256, ref::SHA3_256, ref::TUPLE256,
		ref::BLAKE1_256, ref::TUPLE128, ref::SHAKE128, ref::CSHAKE128, ref::BLAKE1_224, ref::SHA2_512_224, ref::SHA2_512, ref::SHA2_384, ref::SHA2_512_256, ref::RMD160, ref::RMD320, ref::BLAKE1_512,
		ref::BLAKE1_384, ref::BLAKE2S, ref::SHA1, ref::RMD256, ref::RMD128, ref::BLAKE2B, ref::MD5, ref::TIGER1_128, ref::TIGER2_128, ref::TIGER1_160, ref::TIGER2_160, ref::TIGER1_192, ref::TIGER2_192,
		ref::FNV32_0, ref::FNV32_1, ref::FNV32_1A, ref::FNV64_0, ref::FNV64_1, ref::FNV64_1A, ref::HAS160, ref::MD4, ref::SIPHASH, ref::CRC32};
	for (int a : order)
	{
		r.push_back({a, J_PIECE32});
		r.push_back({a, ref::isTuple(a) ? (round % 2 ? J_PIECE31 : J_CROSS29) : round % 2 ? J_LADDER : J_CROSS32});
	}
	return r;
}
static const size_t JOBS = 93;

// digests so long that their length in bits outgrows 32 bits
static Plan genLong(uint64_t seed, uint64_t idx)
{
	const uint64_t local = idx % 1000000000;
	Rng r(runSeed(seed, "C10big", idx));
	Plan p;
	p.algo = uint64_t(r.chance(50) ? ref::TUPLE128 : ref::TUPLE256);
	const int shift = local < 8 ? (const int[]) {29, 28, 28, 28, 21, 21, 13, 5}[local] : local % 16 == 0 ? 30 : int(r.range(20, 29));
	if (local < 2) p.algo = uint64_t(local ? ref::TUPLE256 : ref::TUPLE128);
	p.len = (1ull << shift) + (local == 2 || (local > 3 && r.chance(40)) ? -r.range(1, 10) : r.below(r.chance(50) ? 2 : 3000));
	for (uint64_t i = r.below(4); i; --i) { Op o; o.k = K_CHOP; o.n = r.below(1000); o.w = r.next(); p.ops.push_back(o); }
	if (shift < 27) for (uint64_t i = r.below(4); i; --i) { Op o; o.k = K_BRANCH; o.n = r.below(1000); o.w = r.next(); o.m = r.below(4); p.ops.push_back(o); }
	if (r.chance(30)) { Op o; o.k = K_MOVE; p.ops.push_back(o); }
	return p;
}
static Plan genMirages(uint64_t seed, uint64_t idx)
{
	Rng r(runSeed(seed, "C02mirage", idx));
	Plan p;
	p.algo = idx % ref::ALGO_COUNT;
	const uint64_t count = r.range(10, 40);
	for (uint64_t i = 0; i < count; ++i)
	{
		Op o;
		o.k = K_MIRAGE;
		static const int entries[] = {E_VOID, E_SPAN, E_BRACE, E_TSPAN8, E_TSPAN16, E_TSPAN32, E_TSPAN64, E_CSPAN32, E_CONTAINER};
		o.m = uint64_t(entries[r.below(9)]);
		const uint64_t unit = o.m == E_TSPAN16 ? 2 : o.m == E_TSPAN32 || o.m == E_CSPAN32 ? 4 : o.m == E_TSPAN64 ? 8 : 1;
		// a little above a length that vanishes when counted in 32 (or 31) bits, in bytes, bits or elements
		const uint64_t d = r.chance(20) ? 0 : r.below(r.chance(50) ? 300 : MIRAGE_SOLID / 16);
		const int shift = int(r.range(r.chance(50) ? 31 : 29, 36));
		o.n = (r.chance(50) ? (1ull << shift) : (1ull << 31) * r.range(1, 60)) * (r.chance(50) ? unit : 1) + d * unit;
		if (r.chance(5)) o.n = (1ull << r.range(31, 36)) - unit * r.range(1, 4);
		if (o.n > MIRAGE) o.n = (1ull << 32) + d * unit;
		o.w = r.chance(50) ? 0 : r.below(300);
		p.ops.push_back(o);
	}
	return p;
}
static Plan gen(const std::string &prof, uint64_t seed, uint64_t idx)
{
	if (prof == "C02mirage") return genMirages(seed, idx);
	if (prof == "C10big") return genLong(seed, idx);
	const uint64_t local = idx % 1000000000;
	const std::vector<JobDef> jobs = roundJobs(local / JOBS);
	const JobDef j = jobs[local % JOBS];
	Rng r(runSeed(seed, "C02", idx));
	Plan p;
	p.algo = uint64_t(j.algo);
	uint64_t pos = 0;
	const uint64_t B = uint64_t(ref::blockSize(j.algo));
	const bool slow = j.algo == ref::MD2;
	auto feed = [&](uint64_t n) { Op o; o.k = K_FEED; o.n = n; o.m = r.below(3); p.ops.push_back(o); pos += n; };
	auto chop = [&](uint64_t n) { Op o; o.k = K_CHOP; o.n = n; o.w = r.next(); p.ops.push_back(o); pos += n; };
	auto branch = [&](uint64_t n) { Op o; o.k = K_BRANCH; o.n = n; o.w = r.next(); o.m = r.below(4); p.ops.push_back(o); };
	auto around = [&](uint64_t border, int n)   // branches that end on either side of the border
	{
		const uint64_t d = border - pos;
		for (int i = 0; i < n; ++i)
			switch (r.below(5))
			{
				case 0: branch(d + r.below(2 * B + 2)); break;
				case 1: branch(d > B ? d - r.below(B + 1) : d); break;
				case 2: branch(d + r.below(5000)); break;
				case 3: branch(r.below(d + 1)); break;
				default: branch(d); break;
			}
	};
	if (ref::isTuple(j.algo))
	{
		feed(TUPLE_ELEMENTS[j.job == J_CROSS29 ? 0 : j.job == J_PIECE31 ? 1 : 2]);
		for (int i = 0; i < 12; ++i) { branch(r.chance(20) ? 0 : r.below(2000)); if (r.chance(40)) chop(r.below(300)); if (r.chance(10)) { Op o; o.k = K_MOVE; p.ops.push_back(o); } }
		return p;
	}
	const int many = slow ? 6 : 40;
	if (r.chance(70)) chop(r.chance(50) ? r.below(3 * B + 1) : r.below(200000));
	auto approach = [&](uint64_t border, uint64_t d) { feed(border - d - pos); };
	auto distance = [&]() -> uint64_t { return r.chance(30) ? r.range(1, 3 * B) : r.range(1, slow ? 3000 : 60000); };
	switch (j.job)
	{
		case J_CROSS29:
			approach(1ull << 29, distance());
			around(1ull << 29, many);
			chop((1ull << 29) - pos + r.below(4 * B));
			for (int i = 0; i < 4; ++i) branch(r.below(1000));
			break;
		case J_CROSS32:
		case J_LADDER:
			if (j.job == J_LADDER || r.chance(25))
			{
				approach(1ull << 29, distance()); around(1ull << 29, many / 4); chop((1ull << 29) - pos + r.below(4 * B)); branch(r.below(1000));
			}
			if (j.job == J_LADDER)
			{
				approach(1ull << 31, distance()); around(1ull << 31, many / 4); chop((1ull << 31) - pos + r.below(4 * B)); branch(r.below(1000));
				while (pos < (1ull << 32) - (200ull << 20)) feed(r.range(1, 190ull << 20));
			}
			approach(1ull << 32, distance());
			if (r.chance(30)) { Op o; o.k = K_MOVE; p.ops.push_back(o); }
			around(1ull << 32, many);
			chop((1ull << 32) - pos + r.below(4 * B));
			for (int i = 0; i < 6; ++i) branch(r.below(1000));
			break;
		case J_PIECE31:
			feed((1ull << 31) + 2 * B + (r.chance(50) ? r.below(3 * B + 1) : r.below(4 << 20)));
			for (int i = 0; i < 6; ++i) branch(r.below(1000));
			break;
		default:
			// with at least one whole block, wherever the piece starts, beyond 2^32
			feed((1ull << 32) + 2 * B + (r.chance(50) ? r.below(3 * B + 1) : r.below(slow ? 1 << 18 : 4 << 20)));
			for (int i = 0; i < 10; ++i) branch(r.chance(20) ? 0 : r.below(3000));
			if (r.chance(30)) { Op o; o.k = K_MOVE; p.ops.push_back(o); }
			chop(r.below(2000));
			break;
	}
	return p;
}

// ------------------------------------------------------------------ run
struct Shared
{
	volatile int status; volatile uint64_t op;
	char cls[64], detail[1024];
	uint64_t log, ops[K_COUNT], branches, compared, bytes, pieces, giant31, giant32, cross29, cross31, cross32, mirages, algos[64], copies, assigned, moves, longDigests;
	uint8_t map[(1u << 20) / 8];
};
static Shared *S;
static uint64_t g_log;
static void logv(uint64_t v) { g_log = mix64(g_log ^ v); }
[[noreturn]] static void violation(const char *cls, const std::string &d)
{
	snprintf(S->cls, sizeof(S->cls), "%s", cls);
	snprintf(S->detail, sizeof(S->detail), "%s", d.c_str());
	logv(hashStr(cls));
	S->log = g_log;
	S->status = 2;
	_exit(0);
}
struct Obj
{
	const Ops *ops; std::vector<uint8_t> mem; void *p; bool live = false;
	explicit Obj(const Ops *o) : ops(o), mem(o->size + 256, 0x5c) { p = (void *)(((uintptr_t)mem.data() + 127) / 64 * 64); }
	~Obj() { if (live) ops->destroy(p); }
	Obj(const Obj &) = delete;
};
static void construct(Obj &o, int algo, uint8_t *key)
{
	const ref::Spec s = specOf(algo);
	Params q;
	q.digestLen = s.digestLen; q.name.assign(s.name.begin(), s.name.end()); q.custom.assign(s.custom.begin(), s.custom.end());
	if (!s.key.empty()) { memcpy(key, s.key.data(), 16); q.key = key; }
	o.ops->construct(o.p, q); o.live = true;
}
static void mark(int algo, int border, uint64_t a, uint64_t b)
{
	const uint64_t k = mix64(uint64_t(algo) << 48 ^ uint64_t(border) << 40 ^ a << 20 ^ b) % (1u << 20);
	S->map[k / 8] |= uint8_t(1 << (k % 8));
}
static void feedOne(Obj &o, int algo, uint64_t pos, uint64_t n, int e)
{
	o.ops->feed(o.p, e, at(pos), size_t(n));
	S->pieces++; S->bytes += n;
	if (n > 1ull << 31) S->giant31++;
	if (n > 1ull << 32) S->giant32++;
	static const int bits[] = {29, 31, 32};
	for (int i = 0; i < 3; ++i)
		if (pos < 1ull << bits[i] && pos + n >= 1ull << bits[i])
		{
			(i == 0 ? S->cross29 : i == 1 ? S->cross31 : S->cross32)++;
			const uint64_t B = uint64_t(ref::blockSize(algo));
			mark(algo, bits[i], std::min<uint64_t>((1ull << bits[i]) - pos, 3 * B), std::min<uint64_t>(pos + n - (1ull << bits[i]), 3 * B));
		}
	logv(n);
}
// the same bytes in pieces the seed chooses
static uint64_t chopFeed(Obj &o, int algo, uint64_t pos, uint64_t n, uint64_t w, Ref *tuple)
{
	Rng r(w);
	const uint64_t maxPiece = uint64_t(1) << r.range(3, r.chance(20) ? 22 : 12);
	for (;;)
	{
		const uint64_t k = std::min<uint64_t>(n, ref::isTuple(algo) ? r.below(200) : r.range(r.chance(5) ? 0 : 1, maxPiece));
		feedOne(o, algo, pos, k, int(r.below(3)));
		if (tuple) tuple->advance(k);
		pos += k; n -= k;
		if (!n) return pos;
	}
}
static void compare(Obj &o, const Bytes &want, const char *what, uint64_t pos)
{
	o.ops->finalize(o.p);
	if (want.size() > 100000)
	{
		const Bytes v = o.ops->toVector(o.p);
		S->compared++;
		uint64_t h = v.size();
		for (size_t i = 0; i < v.size(); i += 8) { uint64_t x = 0; memcpy(&x, v.data() + i, std::min<size_t>(8, v.size() - i)); h = mix64(h ^ x); }
		logv(h);
		if (v == want) return;
		const size_t at = size_t(std::mismatch(v.begin(), v.begin() + long(std::min(v.size(), want.size())), want.begin()).first - v.begin());
		violation("digest-mismatch", std::string(o.ops->name) + " with a digest of " + std::to_string(want.size()) + " bytes, after " + std::to_string(pos) + " bytes (" + what + "), gives " + std::to_string(v.size()) + " bytes, the first wrong one at " + std::to_string(at));
	}
	const std::string s = o.ops->toString(o.p);
	const Bytes v = o.ops->toVector(o.p);
	S->compared++;
	logv(hashStr(s.c_str()));
	if (s != ref::hex(want) || v != want)
		violation("digest-mismatch", std::string(o.ops->name) + " after " + std::to_string(pos) + " bytes (" + what + ") gives " + s + ", expected " + ref::hex(want));
}
static void runPlan(const Plan &p)
{
	const int algo = int(p.algo);
	g_len = int(p.len);
	const Ops *ops = opsFor(algo);
	uint8_t key[16];
	std::unique_ptr<Obj> main(new Obj(ops));
	construct(*main, algo, key);
	Ref refm(algo);
	const bool tuple = ref::isTuple(algo);
	uint64_t pos = 0;
	S->algos[algo]++;
	for (size_t i = 0; i < p.ops.size(); ++i)
	{
		const Op &o = p.ops[i];
		S->op = i;
		S->ops[o.k]++;
		switch (o.k)
		{
			case K_FEED:
			{
				const uint64_t n = std::min(o.n, MAXPIECE);
				feedOne(*main, algo, pos, n, int(o.m % 3));
				refm.advance(n);
				pos += n;
				break;
			}
			case K_CHOP:
			{
				const uint64_t n = std::min<uint64_t>(o.n, 1ull << 31);
				chopFeed(*main, algo, pos, n, o.w, tuple ? &refm : nullptr);
				if (!tuple) refm.advance(n);
				pos += n;
				break;
			}
			case K_BRANCH:
			{
				const uint64_t n = std::min<uint64_t>(o.n, 64 << 20);
				Obj b(ops);
				if ((o.m & 1) && ops->copyAssign)
				{
					construct(b, algo, key);
					feedOne(b, algo, 0, o.w % 300, 0);
					ops->copyAssign(b.p, main->p);
					S->assigned++;
				}
				else { ops->copyCtor(b.p, main->p); b.live = true; S->copies++; }
				S->branches++;
				Ref rb(refm);
				chopFeed(b, algo, pos, n, o.w, tuple ? &rb : nullptr);
				if (!tuple) rb.advance(n);
				compare(b, rb.digest(), "continued copy", pos + n);
				if (o.m & 2)
				{
					// and once more from the original's copy of the finished one
					Obj c(ops);
					ops->copyCtor(c.p, b.p); c.live = true;
					if (!ops->equal(c.p, b.p) || ops->toVector(c.p) != rb.digest()) violation("digest-mismatch", std::string(ops->name) + " copied after finalizing changed");
				}
				break;
			}
			case K_MIRAGE:
			{
				if (o.n > g_mirageSize || o.n < (1ull << 28) || !g_mirage) break;
				std::unique_ptr<Obj> b(new Obj(ops));
				construct(*b, algo, key);
				const uint64_t before = o.w % 4096;
				if (before && !tuple) ops->feed(b->p, E_VOID, at(0), size_t(before));
				volatile bool cut = false;
				if (sigsetjmp(g_met, 1) == 0)
				{
					g_pieceLo = g_mirage; g_pieceHi = g_mirage + o.n;
					try { ops->feed(b->p, int(o.m % E_COUNT), g_mirage, size_t(o.n)); cut = true; } catch (const std::bad_alloc &) {}
				}
				b->live = false;     // whatever state it is in
				b.release();
				g_pieceLo = nullptr;
				S->mirages++;
				mark(algo, 40 + int(o.m), uint64_t(63 - __builtin_clzll(o.n | 1)), o.n % 64);
				if (cut) violation("piece-cut-short", std::string(ops->name) + " returned from feeding one piece of " + std::to_string(o.n) + " bytes (overload " + std::to_string(o.m) + ") after looking at no more than the first " + std::to_string(MIRAGE_SOLID));
				logv(o.n);
				break;
			}
			case K_MOVE:
			{
				std::unique_ptr<Obj> n(new Obj(ops));
				ops->moveCtor(n->p, main->p); n->live = true;
				main = std::move(n);
				S->moves++;
				break;
			}
		}
	}
	S->op = p.ops.size();
	if (p.len > 100000) S->longDigests++;
	compare(*main, refm.digest(), "main stream", pos);
	if (p.len > 4000000) { S->log = g_log; S->status = 1; return; }
	ops->reset(main->p);
	feedOne(*main, algo, 1000, 77, 0);
	{ Ref r(algo); r.pos = 1000; r.advance(77); compare(*main, r.digest(), "reset after a long stream", 77); }
	S->log = g_log;
	S->status = 1;
}

// ------------------------------------------------------------------ driver
static std::string jsonEsc(const std::string &s)
{
	std::string r;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r;
}
static bool isolate(const Plan &p, std::string &cls, std::string &detail, uint64_t &log)
{
	S->status = 0; S->cls[0] = S->detail[0] = 0; S->log = 0; S->op = 0;
	fflush(stdout);
	const pid_t c = fork();
	if (c < 0) { perror("fork"); exit(3); }
	if (c == 0)
	{
		rlimit cpu {2400, 2400}, core {0, 0};
		setrlimit(RLIMIT_CPU, &cpu); setrlimit(RLIMIT_CORE, &core);
		static char alt[65536];
		stack_t ss {}; ss.ss_sp = alt; ss.ss_size = sizeof(alt); sigaltstack(&ss, nullptr);
		struct sigaction sa {}; sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr);
		rlimit data {8ull << 30, 8ull << 30};
		for (const Op &o : p.ops) if (o.k == K_MIRAGE) { setrlimit(RLIMIT_DATA, &data); break; }     // nobody copies a mirage
		try { runPlan(p); }
		catch (const std::exception &e) { violation("unexpected-exception", e.what()); }
		_exit(0);
	}
	int st = 0;
	while (waitpid(c, &st, 0) < 0) {}
	log = S->log;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "harness error\n"); exit(3); }
	if (WIFSIGNALED(st))
	{
		const int sig = WTERMSIG(st);
		cls = sig == SIGKILL || sig == SIGXCPU ? "hang" : "crash-" + std::to_string(sig);
		detail = std::string(ref::algoName(int(p.algo))) + ": the process died of signal " + std::to_string(sig);
		log = mix64(hashStr(cls.c_str()));
		return false;
	}
	if (S->status == 1) return true;
	cls = S->status == 2 ? S->cls : "no-result";
	detail = S->detail;
	return false;
}
// the plan without the branches that did not matter and without what came after the failure
static std::string hint(const Plan &p)
{
	Plan q;
	q.algo = p.algo; q.len = p.len;
	for (size_t i = 0; i < p.ops.size() && i <= S->op; ++i)
		if (p.ops[i].k != K_BRANCH || i == S->op) q.ops.push_back(p.ops[i]);
	return q.text();
}
static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
int main(int argc, char **argv)
{
	std::map<std::string, std::string> a;
	for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
	const uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10);
	const uint64_t from = strtoull(a["--from"].c_str(), nullptr, 10), to = strtoull(a["--to"].c_str(), nullptr, 10);
	const uint64_t step = a.count("--step") ? strtoull(a["--step"].c_str(), nullptr, 10) : 1;
	if (a.count("--gen")) { fputs(gen(a["--profile"], seed, from).text().c_str(), stdout); return 0; }
	makeWindow();
	if (a.count("--freeze"))
	{
		// development: checkpoints of the reference for one algorithm, and its digest there
		const int algo = ref::algoByName(a["--freeze"]);
		if (algo < 0) return 3;
		if (!ref::isTuple(algo))
		{
			auto m = Ref::fresh(algo);
			uint64_t pos = 0;
			for (uint64_t f : FROZEN_AT)
			{
				const uint64_t end = Ref::aligned(algo, f);
				while (pos < end) { const uint64_t k = std::min<uint64_t>(end - pos, 4 << 20); m->update(at(pos), size_t(k)); pos += k; }
				printf("\t{\"%s\", 0, %lluull, \"%s\"},\n", ref::algoName(algo), (unsigned long long)pos, ref::hex(m->save()).c_str());
				fprintf(stderr, "%s %llu %s\n", ref::algoName(algo), (unsigned long long)pos, ref::hex(m->digest()).c_str());
			}
		}
		else
			for (uint64_t n : TUPLE_ELEMENTS)
			{
				auto m = Ref::fresh(algo);
				const Bytes l = leftEnc(u128(n) * 8);
				m->update(l.data(), l.size());
				const uint64_t end = n - 200;
				for (uint64_t pos = 0; pos < end;) { const uint64_t k = std::min<uint64_t>(end - pos, 4 << 20); m->update(at(pos), size_t(k)); pos += k; }
				printf("\t{\"%s\", %lluull, %lluull, \"%s\"},\n", ref::algoName(algo), (unsigned long long)n, (unsigned long long)end, ref::hex(m->save()).c_str());
			}
		return 0;
	}
	if (a.count("--dump"))   // the stream's content, for cross-checks with other implementations
	{
		for (uint64_t pos = 0, end = strtoull(a["--dump"].c_str(), nullptr, 10); pos < end;) { const uint64_t k = std::min<uint64_t>(end - pos, 4 << 20); if (fwrite(at(pos), 1, k, stdout) != k) return 3; pos += k; }
		return 0;
	}
	S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (int i = 0; i < ref::ALGO_COUNT; ++i)
		if (!opsFor(i)) { fprintf(stderr, "no adapter for %s\n", ref::algoName(i)); return 3; }
	std::string cls, detail;
	uint64_t log = 0;
	if (a.count("--replay"))
	{
		std::ifstream f(a["--replay"]);
		if (!f) { fprintf(stderr, "cannot open plan\n"); return 3; }
		const Plan p = Plan::parse(f);
		const bool ok = isolate(p, cls, detail, log);
		printf("{\"ok\": %s, \"class\": \"%s\", \"detail\": \"%s\", \"log\": \"%016llx\", \"op\": %llu, \"hint\": \"%s\"}\n", ok ? "true" : "false", jsonEsc(cls).c_str(), jsonEsc(detail).c_str(), (unsigned long long)log,
		       (unsigned long long)S->op, ok ? "" : jsonEsc(hint(p)).c_str());
		return ok ? 0 : 1;
	}
	const double limit = a.count("--seconds") ? atof(a["--seconds"].c_str()) : 1e9;
	const double t0 = nowS();
	uint64_t runs = 0, logAll = 0;
	std::vector<uint64_t> sigs;
	for (uint64_t i = from; i < to; i += step)
	{
		if (nowS() - t0 > limit) break;
		const Plan p = gen(a["--profile"], seed, i);
		const bool ok = isolate(p, cls, detail, log);
		++runs;
		sigs.push_back(mix64(hashStr(p.text().c_str())));
		logAll ^= mix64(log ^ mix64(i));
		if (!ok)
		{
			printf("FAIL {\"idx\": %llu, \"class\": \"%s\", \"detail\": \"%s\", \"log\": \"%016llx\"}\n", (unsigned long long)i, jsonEsc(cls).c_str(), jsonEsc(detail).c_str(), (unsigned long long)log);
			break;
		}
	}
	std::ostringstream o;
	o << "STATS {\"runs\": " << runs << ", \"nontrivial\": " << runs << ", \"distinct\": " << sigs.size() << ", \"seconds\": " << nowS() - t0 << ", \"log_all\": \"" << std::hex << logAll << std::dec << "\"";
	auto dict = [&](const char *n, const uint64_t *v, int c, const char *const *names) { o << ", \"" << n << "\": {"; for (int i = 0; i < c; ++i) o << (i ? ", " : "") << "\"" << names[i] << "\": " << v[i]; o << "}"; };
	dict("ops", S->ops, K_COUNT, KN);
	std::vector<const char *> an; for (int i = 0; i < ref::ALGO_COUNT; ++i) an.push_back(ref::algoName(i));
	dict("algos", S->algos, ref::ALGO_COUNT, an.data());
	o << ", \"faults\": {\"pieces_over_2GiB\": " << S->giant31 << ", \"pieces_over_4GiB\": " << S->giant32 << ", \"crossings_of_2^29_bytes\": " << S->cross29 << ", \"crossings_of_2^31_bytes\": " << S->cross31
	  << ", \"crossings_of_2^32_bytes\": " << S->cross32 << ", \"copies_taken_mid_stream\": " << S->copies << ", \"assignments_mid_stream\": " << S->assigned << ", \"moves_mid_stream\": " << S->moves << ", \"digests_over_100_kB\": " << S->longDigests << ", \"pieces_of_up_to_128_GiB_with_missing_pages\": " << S->mirages << "}"
	  << ", \"gigabytes_hashed\": " << double(S->bytes) / 1e9 << ", \"pieces\": " << S->pieces << ", \"compared\": " << S->compared << "}";
	puts(o.str().c_str());
	fflush(stdout);
	if (a.count("--sigs")) { FILE *f = fopen(a["--sigs"].c_str(), "wb"); if (f) { fwrite(sigs.data(), 8, sigs.size(), f); fclose(f); } }
	if (a.count("--map")) { FILE *f = fopen(a["--map"].c_str(), "wb"); if (f) { fwrite(S->map, 1, sizeof(S->map), f); fclose(f); } }
	return 0;
}
