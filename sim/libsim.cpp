// Deterministic simulation of the hash library: one seed -> one plan of
// operations over a pool of hashers, delivered from memory the simulator owns,
// with crashes, allocation failures and hostile memory, checked step by step
// against executable reference models.
#include "heap.h"
#include "ops.h"
#include "rng.h"
#include "../ref/ref.h"
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using ref::Bytes;

// ------------------------------------------------------------------ plan
enum Kind { K_NEW, K_FEED, K_FIN, K_READ, K_PROBE, K_RESET, K_COPY, K_MOVE, K_CASG, K_MASG, K_SWAP, K_DEL, K_EQ, K_CKPT, K_CRASH, K_RESTORE, K_COUNT };
static const char *KN[K_COUNT] = {"new", "feed", "fin", "read", "probe", "reset", "copy", "move", "casg", "masg", "swap", "del", "eq", "ckpt", "crash", "restore"};
struct Op
{
	int k = 0, a = 0, b = 0;
	uint64_t x = 0, y = 0, z = 0, w = 0;
	uint32_t fa = 0, fm = 0;   // fail the fa-th allocation of this operation (fm: and all later ones)
};
static const int SLOTS = 8, DURABLE = 4;
struct Plan
{
	std::string profile;
	uint64_t fill = 0;   // what uninitialised memory holds
	bool revoke = false; // caller memory becomes inaccessible when a call returns
	std::vector<Op> ops;
	std::string text() const
	{
		std::ostringstream o;
		o << "libsim 1\nprofile " << profile << "\nfill " << fill << "\nrevoke " << revoke << "\n";
		for (const Op &p : ops)
			o << KN[p.k] << " a=" << p.a << " b=" << p.b << " x=" << p.x << " y=" << p.y << " z=" << p.z << " w=" << p.w << " fa=" << p.fa << " fm=" << p.fm << "\n";
		return o.str();
	}
	static Plan parse(std::istream &in)
	{
		Plan p;
		std::string line;
		while (std::getline(in, line))
		{
			std::istringstream l(line);
			std::string w;
			if (!(l >> w) || w[0] == '#') continue;
			if (w == "libsim" ) continue;
			if (w == "profile") { l >> p.profile; continue; }
			if (w == "fill") { l >> p.fill; continue; }
			if (w == "revoke") { l >> p.revoke; continue; }
			Op o; bool ok = false;
			for (int i = 0; i < K_COUNT; ++i) if (w == KN[i]) { o.k = i; ok = true; }
			if (!ok) { fprintf(stderr, "bad plan line: %s\n", line.c_str()); exit(3); }
			std::string kv;
			while (l >> kv)
			{
				const size_t e = kv.find('=');
				const std::string key = kv.substr(0, e);
				const uint64_t v = strtoull(kv.c_str() + e + 1, nullptr, 10);
				if (key == "a") o.a = int(v % SLOTS); else if (key == "b") o.b = int(v % SLOTS);
				else if (key == "x") o.x = v; else if (key == "y") o.y = v; else if (key == "z") o.z = v; else if (key == "w") o.w = v;
				else if (key == "fa") o.fa = uint32_t(v); else if (key == "fm") o.fm = uint32_t(v);
			}
			p.ops.push_back(o);
		}
		return p;
	}
};

// ------------------------------------------------------------------ shared statistics / result
struct Result { volatile int status; char cls[64]; char detail[1024]; uint64_t log; int opIndex; };
enum Fault { F_ALLOC_ONE, F_ALLOC_ALL, F_CRASH, F_RESTORE, F_REVOKE, F_GUARD_END, F_GUARD_START, F_MISALIGNED, F_DIRTY_OBJECT, F_OBJECT_GUARD, F_DIRTY_STACK, F_SWITCH, F_EMPTY_PIECE, F_NULL_PIECE, F_SCRIBBLED_PIECE, F_COUNT };
static const char *FN[F_COUNT] = {"alloc_fail_once", "alloc_fail_persistent", "crash", "restore_from_checkpoint", "caller_memory_revoked", "piece_flush_before_guard_page", "piece_flush_after_guard_page", "misaligned_piece", "object_in_dirty_memory", "object_flush_against_guard_page", "stack_scribbled", "switch_between_streams", "empty_piece", "null_empty_piece", "piece_overwritten_after_call"};
static const uint64_t MAPBITS = 1u << 24;
struct Shared
{
	Result r;
	uint64_t ops[K_COUNT], skipped, faults[F_COUNT], reads[16], entries[E_COUNT], bytes, compared, allocs, exceptions, retries, resetsAfterFailure, leakRechecks;
	uint64_t algos[64];
	uint8_t map[MAPBITS / 8];
};
static Shared *S;

// ------------------------------------------------------------------ memory the simulator owns
static const size_t CHUNK = size_t(24) << 20;
static uint8_t *g_rw, *g_ro;   // two views of the same pages; g_ro is what the library sees
static uint8_t *g_paramRw, *g_paramRo;
static const size_t PARAM = 4096;
static const size_t OBJ = 65536, OBJSTRIDE = OBJ + 8192;   // with an inaccessible page on either side
static uint8_t *g_objs;        // SLOTS + DURABLE + 2 temporaries
static const int NOBJ = SLOTS + DURABLE + 2;

static void *guarded(size_t n, int prot, int fd)
{
	uint8_t *p = (uint8_t *)mmap(nullptr, n + 2 * 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	void *q = mmap(p + 65536, n, prot, MAP_SHARED | MAP_FIXED, fd, 0);
	if (q == MAP_FAILED) { perror("mmap"); exit(3); }
	return q;
}
static void setupMemory()
{
	auto mk = [](size_t n) { int fd = memfd_create("chunk", 0); if (fd < 0 || ftruncate(fd, off_t(n)) != 0) { perror("memfd"); exit(3); } return fd; };
	int fd = mk(CHUNK);
	g_rw = (uint8_t *)guarded(CHUNK, PROT_READ | PROT_WRITE, fd);
	g_ro = (uint8_t *)guarded(CHUNK, PROT_READ, fd);
	fd = mk(PARAM);
	g_paramRw = (uint8_t *)guarded(PARAM, PROT_READ | PROT_WRITE, fd);
	g_paramRo = (uint8_t *)guarded(PARAM, PROT_READ, fd);
	uint8_t *m = (uint8_t *)mmap(nullptr, OBJSTRIDE * NOBJ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) { perror("mmap"); exit(3); }
	g_objs = m + 4096;
	for (int i = 0; i < NOBJ; ++i) if (mprotect(g_objs + OBJSTRIDE * size_t(i), OBJ, PROT_READ | PROT_WRITE) != 0) { perror("mprotect"); exit(3); }
}

// ------------------------------------------------------------------ world
enum State { EMPTY, LIVE, DONE, MOVED, BROKEN, BROKEN_ASSIGN };
struct Value   // what a hasher's state means
{
	ref::Spec spec;
	std::unique_ptr<ref::Model> model;
	std::vector<Bytes> pieces;
	uint64_t total = 0, lineage = 0;
	bool haveHash = false; size_t stdHash = 0;
	mutable Bytes dig; mutable bool digOk = false;
	Value() = default;
	Value(const Value &o) : spec(o.spec), model(o.model ? o.model->clone() : nullptr), pieces(o.pieces), total(o.total), lineage(o.lineage), haveHash(o.haveHash), stdHash(o.stdHash) {}
	Value &operator=(const Value &o) { if (this != &o) { Value t(o); swap(t); } return *this; }
	void swap(Value &o)
	{
		std::swap(spec, o.spec); model.swap(o.model); pieces.swap(o.pieces); std::swap(total, o.total); std::swap(lineage, o.lineage);
		std::swap(haveHash, o.haveHash); std::swap(stdHash, o.stdHash); digOk = o.digOk = false;
	}
	const Bytes &digest() const { if (!digOk) { dig = model->digest(); digOk = true; } return dig; }
	void fresh() { model = ref::make(spec); pieces.clear(); total = 0; haveHash = false; digOk = false; }
	void feed(const uint8_t *p, size_t n) { model->update(p, n); pieces.emplace_back(p, p + n); total += n; digOk = false; }
	Bytes flat() const { Bytes f; for (auto &b : pieces) f.insert(f.end(), b.begin(), b.end()); return f; }
	bool sameMessage(const Value &o) const
	{
		if (ref::isTuple(spec.algo)) return pieces == o.pieces;
		return total == o.total && flat() == o.flat();
	}
};
struct Slot { State st = EMPTY; const Ops *ops = nullptr; uint8_t *area = nullptr; void *obj = nullptr; Value v; };

static uint64_t g_fillSeed;
static uint64_t g_log;
static void logv(uint64_t v) { g_log = mix64(g_log ^ v); }
static void logb(const void *p, size_t n) { uint64_t h = 0xcbf29ce484222325ull; for (size_t i = 0; i < n; ++i) { h ^= ((const uint8_t *)p)[i]; h *= 0x100000001b3ull; } logv(h); }

[[noreturn]] static void violation(const char *cls, const std::string &detail)
{
	heap::inLib = false;
	snprintf(S->r.cls, sizeof(S->r.cls), "%s", cls);
	snprintf(S->r.detail, sizeof(S->r.detail), "%s", detail.c_str());
	logb(cls, strlen(cls));
	S->r.log = g_log;
	S->r.status = 2;
	_exit(0);
}
__attribute__((noinline)) static void scribbleStack()
{
	volatile uint8_t junk[6144];
	for (size_t i = 0; i < sizeof(junk); i += 8) *(volatile uint64_t *)(junk + i) = g_fillSeed;
	S->faults[F_DIRTY_STACK]++;
}
static uint64_t objPattern(int i, size_t k) { return mix64(g_fillSeed + uint64_t(i) * 1315423911u + k); }
static void dirty(int i, size_t from, size_t upto)
{
	uint64_t *w = (uint64_t *)(g_objs + OBJSTRIDE * size_t(i));
	for (size_t k = from / 8; k < (upto + 7) / 8; ++k) w[k] = objPattern(i, k);
	S->faults[F_DIRTY_OBJECT]++;
}
struct Outcome { bool threw = false; };

class World
{
	public:
		Slot slot[SLOTS];
		Slot durable[DURABLE];
		Slot temp[2];
		std::vector<Value> lost;   // streams that were live when the crash happened
		uint64_t lineages = 0;
		const Plan &plan;
		const Op *cur = nullptr;
		int prevSlot = -1;

		explicit World(const Plan &p) : plan(p)
		{
			for (int i = 0; i < SLOTS; ++i) slot[i].area = g_objs + OBJSTRIDE * size_t(i);
			for (int i = 0; i < DURABLE; ++i) durable[i].area = g_objs + OBJSTRIDE * size_t(SLOTS + i);
			for (int i = 0; i < 2; ++i) temp[i].area = g_objs + OBJSTRIDE * size_t(SLOTS + DURABLE + i);
		}
		int areaIndex(const Slot &s) const { return int(size_t(s.area - g_objs) / OBJSTRIDE); }

		template <typename F>
		Outcome call(const char *what, const Slot &s, bool faultable, F f)
		{
			Outcome o;
			scribbleStack();
			heap::begin(faultable ? cur->fa : 0, int(cur->fm));
			try { f(); }
			catch (const std::bad_alloc &) { o.threw = true; }
			catch (const std::exception &e) { heap::end(); violation("unexpected-exception", std::string(what) + " of " + name(s) + " threw " + e.what()); }
			catch (...) { heap::end(); violation("unexpected-exception", std::string(what) + " of " + name(s) + " threw"); }
			const long injected = heap::injected;
			heap::end();
			S->allocs += uint64_t(heap::allocs);
			logv(uint64_t(heap::allocs) * 4 + o.threw);
			if (injected) S->faults[cur->fm ? F_ALLOC_ALL : F_ALLOC_ONE] += uint64_t(injected);
			if (o.threw) S->exceptions++;
			if (o.threw && !injected) violation("unexpected-exception", std::string(what) + " of " + name(s) + " threw bad_alloc although no allocation failed");
			return o;
		}
		std::string name(const Slot &s) const
		{
			std::string r = s.ops ? s.ops->name : "?";
			if (ref::hasLen(s.v.spec.algo)) r += "(len " + std::to_string(s.v.spec.digestLen) + ", name " + std::to_string(s.v.spec.name.size()) + ", custom " + std::to_string(s.v.spec.custom.size()) + ")";
			return r + " in slot " + std::to_string(areaIndex(s)) + " after " + std::to_string(s.v.total) + " bytes in " + std::to_string(s.v.pieces.size()) + " pieces";
		}
		// place for an object inside its area, canaries all around
		void *place(Slot &s, const Ops *ops, uint64_t r)
		{
			if (ops->size + 1024 > OBJ) { fprintf(stderr, "object too large\n"); _exit(3); }
			size_t off = 64 + (r % 16) * ops->align;
			off = (off + ops->align - 1) / ops->align * ops->align;
			switch (mix64(r) % 8)
			{
				case 0: case 1: off = OBJ - ops->size; S->faults[F_OBJECT_GUARD]++; break;
				case 2: off = 0; S->faults[F_OBJECT_GUARD]++; break;
			}
			const size_t lo = off < 64 ? 0 : off - 64, hi = std::min(OBJ, off + ops->size + 64);
			dirty(areaIndex(s), lo, hi);
			s.obj = s.area + off;
			s.ops = ops;
			return s.obj;
		}
		void checkCanary(const Slot &s)
		{
			if (!s.obj || s.st == EMPTY) return;
			const size_t lo = size_t((uint8_t *)s.obj - s.area), hi = lo + s.ops->size;
			const int idx = areaIndex(s);
			auto bad = [&](size_t i) { const uint64_t w = objPattern(idx, i / 8); return s.area[i] != uint8_t(w >> (8 * (i % 8))); };
			for (size_t i = lo < 64 ? 0 : lo - 64; i < lo; ++i) if (bad(i)) violation("stray-write", "memory before " + name(s) + " was written");
			for (size_t i = hi; i < std::min(OBJ, hi + 64); ++i) if (bad(i)) violation("stray-write", "memory after " + name(s) + " was written");
		}
		void destroy(Slot &s)
		{
			if (s.st == EMPTY) return;
			call("destructor", s, false, [&] { s.ops->destroy(s.obj); });
			s.st = EMPTY; s.obj = nullptr;
		}
		static uint64_t mixSlot(const Op &o) { return o.w ^ (o.z << 7) ^ o.x; }

		// ---- caller memory
		void openParam() { if (plan.revoke) mprotect(g_paramRo, PARAM, PROT_READ); }
		void closeParam()
		{
			memset(g_paramRw, 0x5a, PARAM);
			if (plan.revoke) { mprotect(g_paramRo, PARAM, PROT_NONE); S->faults[F_REVOKE]++; }
		}
		bool construct(Slot &s, const ref::Spec &spec, bool defaulted, uint64_t r)
		{
			const Ops *ops = opsFor(spec.algo);
			if (!ops) return false;
			void *m = place(s, ops, r);
			s.v = Value();
			s.v.spec = spec;
			bool ok;
			{
				Params p;
				p.digestLen = spec.digestLen; p.defaulted = defaulted;
				p.name.assign(spec.name.begin(), spec.name.end());
				p.custom.assign(spec.custom.begin(), spec.custom.end());
				openParam();
				if (!spec.key.empty()) { memcpy(g_paramRw + PARAM - 16, spec.key.data(), 16); p.key = g_paramRo + PARAM - 16; }
				ok = !call("construction", s, true, [&] { ops->construct(m, p); }).threw;
				for (auto &c : p.name) c = '#';
				for (auto &c : p.custom) c = '#';
				closeParam();
			}
			if (!ok) { s.st = EMPTY; s.obj = nullptr; return false; }
			s.st = LIVE; s.v.fresh(); s.v.lineage = ++lineages;
			S->algos[spec.algo]++;
			return true;
		}
		// returns false when the allocation failure surfaced
		bool feed(Slot &s, int entry, size_t len, int where, size_t off, uint64_t cseed, const uint8_t *explicitData = nullptr)
		{
			if (len > CHUNK - 4096) len = CHUNK - 4096;
			entry = usableEntry(entry, len);
			const size_t al = entryAlign(entry);
			uint8_t *heapCopy = nullptr;
			size_t pos;
			if (where == 1) { pos = off % 64 / al * al; S->faults[pos ? F_MISALIGNED : F_GUARD_START]++; }
			else { pos = (CHUNK - len) ; if (where == 2) pos -= off % 64 / al * al; S->faults[where == 2 && pos + len != CHUNK ? F_MISALIGNED : F_GUARD_END]++; }
			if (pos % al) pos = pos / al * al;
			const size_t pgLo = pos & ~size_t(4095), pgHi = std::min(CHUNK, (pos + len + 4095) & ~size_t(4095));
			if (plan.revoke && pgHi > pgLo) mprotect(g_ro + pgLo, pgHi - pgLo, PROT_READ);
			if (explicitData) memcpy(g_rw + pos, explicitData, len); else fillContent(g_rw + pos, len, cseed);
			const uint8_t *p = g_ro + pos;
			if (where == 3 && len < (1u << 20)) { heapCopy = (uint8_t *)malloc(len ? len : 1); memcpy(heapCopy, g_rw + pos, len); p = heapCopy; }
			if (len == 0) { S->faults[F_EMPTY_PIECE]++; if (where == 0 && (cseed & 1) && (entry == E_VOID || entry == E_SPAN || entry == E_BRACE)) { p = nullptr; S->faults[F_NULL_PIECE]++; } }
			S->entries[entry]++; S->bytes += len;
			bool self = true;
			const Outcome o = call("feeding", s, true, [&] { self = s.ops->feed(s.obj, entry, p, len); });
			if (!o.threw) s.v.feed(g_rw + pos, len);
			if (heapCopy && memcmp(heapCopy, g_rw + pos, len) != 0) violation("caller-memory-written", "feeding " + name(s) + " changed the caller's bytes");
			// the caller reuses its memory at once
			if (heapCopy) { memset(heapCopy, 0xee, len); free(heapCopy); }
			if (len <= 65536) { memset(g_rw + pos, 0x5a ^ int(cseed & 0xff), len); S->faults[F_SCRIBBLED_PIECE]++; }
			if (plan.revoke && pgHi > pgLo) { mprotect(g_ro + pgLo, pgHi - pgLo, PROT_NONE); S->faults[F_REVOKE]++; }
			if (!o.threw && !self) violation("wrong-return", "feeding " + name(s) + " did not return the hasher itself");
			if (o.threw) s.st = BROKEN;
			return !o.threw;
		}
		void compare(const char *what, const Slot &s, const Bytes &got, const Bytes &want)
		{
			S->compared++;
			logb(got.data(), got.size());
			if (got != want)
				violation("digest-mismatch", std::string(what) + " of " + name(s) + " is " + ref::hex(got).substr(0, 160) + ", expected " + ref::hex(want).substr(0, 160));
		}
		bool readOne(Slot &s, int kind)
		{
			if (s.st != DONE) return true;
			const Bytes &want = s.v.digest();
			S->reads[kind]++;
			switch (kind)
			{
				case 1:
				{
					std::string r;
					if (call("toString", s, true, [&] { r = s.ops->toString(s.obj); }).threw) return false;
					const std::string w = ref::hex(want);
					S->compared++; logb(r.data(), r.size());
					if (r != w) violation("digest-mismatch", "hex readout of " + name(s) + " is \"" + r.substr(0, 160) + "\", expected \"" + w.substr(0, 160) + "\"");
					return true;
				}
				case 2:
				{
					std::vector<uint8_t> r;
					if (call("toVector", s, true, [&] { r = s.ops->toVector(s.obj); }).threw) return false;
					compare("vector readout", s, r, want);
					return true;
				}
				case 3:
				{
					if (!s.ops->hasArray) return true;
					uint8_t out[256];
					size_t n = 0;
					if (call("toArray", s, true, [&] { n = s.ops->toArray(s.obj, out); }).threw) return false;
					compare("array readout", s, Bytes(out, out + n), want);
					return true;
				}
				case 4: case 5: case 6: case 10:
				{
					const int b = kind == 4 ? 2 : kind == 5 ? 4 : kind == 6 ? 8 : 1;
					uint64_t got = 0, w = 0;
					if (call("integer readout", s, true, [&] { got = s.ops->toInt(s.obj, b); }).threw) return false;
					for (int i = 0; i < b && size_t(i) < want.size(); ++i) w = w << 8 | want[size_t(i)];
					S->compared++; logv(got);
					if (got != w) violation("readout-disagreement", std::to_string(8 * b) + "-bit integer readout of " + name(s) + " is " + std::to_string(got) + ", the digest says " + std::to_string(w));
					return true;
				}
				case 7:
				{
					size_t h = 0;
					if (call("std::hash", s, true, [&] { h = s.ops->stdHash(s.obj); }).threw) return false;
					if (s.v.haveHash && s.v.stdHash != h) violation("unstable-readout", "std::hash of " + name(s) + " changed");
					s.v.haveHash = true; s.v.stdHash = h; logv(h);
					return true;
				}
				case 8:
				{
					Slot &t = temp[1];
					void *m = place(t, s.ops, want.empty() ? 0 : want[0]);
					if (call("copying", s, true, [&] { s.ops->copyCtor(m, s.obj); }).threw) { t.obj = nullptr; return false; }
					t.st = DONE; t.v = s.v;
					std::string r;
					if (call("toString", t, true, [&] { r = t.ops->toString(t.obj); }).threw) { destroy(t); return false; }
					if (r != ref::hex(want)) violation("digest-mismatch", "hex readout of a copy of " + name(s) + " is \"" + r.substr(0, 160) + "\", expected \"" + ref::hex(want).substr(0, 160) + "\"");
					checkCanary(t);
					destroy(t);
					return true;
				}
				case 9:
				{
					bool e = false, n = true;
					if (call("comparison", s, true, [&] { e = s.ops->equal(s.obj, s.obj); n = s.ops->notEqual(s.obj, s.obj); }).threw) return false;
					if (!e || n) violation("wrong-comparison", name(s) + " is not equal to itself");
					return true;
				}
				default: return true;
			}
		}
		void readAll(Slot &s, uint64_t nibbles)
		{
			for (; nibbles & 15; nibbles >>= 4)
			{
				if (!readOne(s, int(nibbles & 15)))
				{
					// a failed readout must be repeatable
					Op calm = *cur; calm.fa = 0; cur = &calm;
					S->retries++;
					readOne(s, int(nibbles & 15));
					cur = origCur;
				}
			}
		}
		const Op *origCur = nullptr;
		bool finalize(Slot &s)
		{
			bool self = true;
			const Outcome o = call("finalizing", s, true, [&] { self = s.ops->finalize(s.obj); });
			if (o.threw) { s.st = BROKEN; return false; }
			if (!self) violation("wrong-return", "finalizing " + name(s) + " did not return the hasher itself");
			s.st = DONE;
			return true;
		}
		bool copyTo(Slot &d, const Slot &s, uint64_t r)
		{
			destroy(d);
			void *m = place(d, s.ops, r);
			if (call("copying", s, true, [&] { (cur->y & 1 && s.ops->copyCtorB ? s.ops->copyCtorB : s.ops->copyCtor)(m, s.obj); }).threw) { d.obj = nullptr; return false; }
			d.st = s.st; d.v = s.v; d.v.lineage = ++lineages;
			return true;
		}
		void crash()
		{
			S->faults[F_CRASH]++;
			lost.clear();
			for (auto &s : slot)
			{
				if (s.st == LIVE || s.st == DONE) lost.push_back(s.v);
				if (s.st != EMPTY) { const size_t at = size_t((uint8_t *)s.obj - s.area); s.st = EMPTY; s.obj = nullptr; dirty(areaIndex(s), at, at + s.ops->size); }
			}
			heap::forgetOutstanding();
		}
		void note(const Slot &s, const Op &o, bool before)
		{
			const int B = ref::blockSize(s.v.spec.algo);
			uint64_t key = mix64(uint64_t(s.v.spec.algo) * 131 + uint64_t(o.k));
			key = mix64(key ^ (s.v.total % uint64_t(B)) ^ (uint64_t(s.st) << 20) ^ (uint64_t(std::min<uint64_t>(s.v.total / uint64_t(B), 3)) << 24) ^ (uint64_t(before) << 30));
			if (o.k == K_FEED) key = mix64(key ^ o.x ^ (std::min<uint64_t>(o.y / uint64_t(B), 3) << 8) ^ ((o.z & 3) << 12));
			if (o.fa) key = mix64(key ^ o.fa);
			const uint64_t bit = key % MAPBITS;
			S->map[bit / 8] |= uint8_t(1 << (bit % 8));
		}

		void step(const Op &op)
		{
			Op o = op;
			cur = origCur = &o;
			Slot &A = slot[o.a % SLOTS], &B = slot[o.b % SLOTS];
			bool did = true;
			logv(uint64_t(o.k) << 32 | uint64_t(o.a) << 8 | uint64_t(o.b));
			if (prevSlot >= 0 && prevSlot != o.a) S->faults[F_SWITCH]++;
			prevSlot = o.a;
			if (A.st != EMPTY) note(A, o, true);
			switch (o.k)
			{
				case K_NEW:
				{
					destroy(A);
					ref::Spec sp;
					sp.algo = int(o.x % ref::ALGO_COUNT);
					if (ref::hasLen(sp.algo)) sp.digestLen = int(o.y % 4200000);
					auto mk = [&](uint64_t n, uint64_t sd) { Bytes b(n); fillContent(b.data(), n, sd); return b; };
					if (sp.algo == ref::CSHAKE128 || sp.algo == ref::CSHAKE256) sp.name = mk((o.z & 0xffffffff) % 4200000, o.w * 3 + 11);
					if (ref::hasCustom(sp.algo)) sp.custom = mk((o.z >> 32) % 4200000, o.w * 5 + 13);
					if ((o.w & 2) && !sp.name.empty())
					{
						// name and customization are cut from one string
						const Bytes all = mk(sp.name.size() + sp.custom.size(), o.w * 3 + 11);
						sp.custom.assign(all.begin() + long(sp.name.size()), all.end());
					}
					if (sp.algo == ref::SIPHASH) { sp.key = mk(16, (o.w >> 8) * 7 + 17); if (o.w & 4) sp.key[(o.w >> 3) & 15] ^= uint8_t(1 << (o.w >> 7 & 1) * 7); }
					construct(A, sp, o.w & 1, mixSlot(o));
					break;
				}
				case K_FEED:
					if (A.st != LIVE) { did = false; break; }
					if (o.z >> 63)   // the message is a decimal number
					{
						const std::string m = std::to_string(o.w);
						feed(A, int(o.x % E_COUNT), m.size(), int(o.z & 3), (o.z >> 8) & 0xffff, 5, (const uint8_t *)m.data());
						break;
					}
					feed(A, int(o.x % E_COUNT), o.y, int(o.z & 3), o.z >> 8, o.w);
					break;
				case K_FIN:
					if (A.st != LIVE) { did = false; break; }
					if (finalize(A) && o.fa == 0) readOne(A, 1);
					break;
				case K_READ:
					if (A.st != DONE) { did = false; break; }
					readAll(A, o.x);
					break;
				case K_PROBE:
				{
					if (A.st != LIVE && A.st != DONE) { did = false; break; }
					Slot &t = temp[0];
					if (!copyTo(t, A, o.w)) break;
					if (t.st == LIVE && !finalize(t)) { checkCanary(t); destroy(t); break; }
					readAll(t, o.x ? o.x : 1);
					checkCanary(t);
					destroy(t);
					break;
				}
				case K_RESET:
				{
					if (A.st != LIVE && A.st != DONE && A.st != BROKEN) { did = false; break; }
					if (A.st == BROKEN) S->resetsAfterFailure++;
					if (call("reset", A, true, [&] { A.ops->reset(A.obj); }).threw) { A.st = BROKEN; break; }
					A.st = LIVE; A.v.fresh(); A.v.lineage = ++lineages;
					break;
				}
				case K_COPY:
					if ((B.st != LIVE && B.st != DONE) || &A == &B) { did = false; break; }
					copyTo(A, B, mixSlot(o));
					break;
				case K_MOVE:
				{
					if ((B.st != LIVE && B.st != DONE) || &A == &B) { did = false; break; }
					destroy(A);
					void *m = place(A, B.ops, mixSlot(o));
					if (call("moving", B, true, [&] { (o.y & 1 && B.ops->moveCtorB ? B.ops->moveCtorB : B.ops->moveCtor)(m, B.obj); }).threw) { A.obj = nullptr; B.st = BROKEN_ASSIGN; break; }
					A.st = B.st; A.v.swap(B.v); B.v = Value(); B.v.spec = A.v.spec; B.st = MOVED;
					break;
				}
				case K_CASG:
					if ((B.st != LIVE && B.st != DONE) || A.st == EMPTY || A.ops != B.ops || !A.ops->copyAssign) { did = false; break; }
					if (call("copy assignment", A, true, [&] { (o.y & 1 && A.ops->copyAssignB ? A.ops->copyAssignB : A.ops->copyAssign)(A.obj, B.obj); }).threw) { if (&A != &B) A.st = BROKEN_ASSIGN; break; }
					if (&A != &B) { A.st = B.st; A.v = B.v; A.v.lineage = ++lineages; }
					break;
				case K_MASG:
					if ((B.st != LIVE && B.st != DONE) || A.st == EMPTY || &A == &B || A.ops != B.ops || !A.ops->moveAssign) { did = false; break; }
					if (call("move assignment", A, true, [&] { (o.y & 1 && A.ops->moveAssignB ? A.ops->moveAssignB : A.ops->moveAssign)(A.obj, B.obj); }).threw) { A.st = B.st = BROKEN_ASSIGN; break; }
					A.st = B.st; A.v = B.v; A.v.lineage = ++lineages; B.st = MOVED;
					break;
				case K_SWAP:
				{
					auto can = [](const Slot &s) { return s.st == LIVE || s.st == DONE; };
					if (!can(A) || !can(B) || A.ops != B.ops || !A.ops->swapObj) { did = false; break; }
					if (call("swap", A, true, [&] { A.ops->swapObj(A.obj, B.obj); }).threw) { A.st = B.st = BROKEN_ASSIGN; break; }
					if (&A != &B) { std::swap(A.st, B.st); A.v.swap(B.v); }
					break;
				}
				case K_DEL:
					if (A.st == EMPTY) { did = false; break; }
					destroy(A);
					break;
				case K_EQ:
				{
					if (A.st != DONE || B.st != DONE || A.ops != B.ops) { did = false; break; }
					bool e = false, n = false, e2 = false;
					if (call("comparison", A, true, [&] { e = A.ops->equal(A.obj, B.obj); n = A.ops->notEqual(A.obj, B.obj); e2 = (o.y & 1 && A.ops->equalB ? A.ops->equalB : A.ops->equal)(B.obj, A.obj); }).threw) break;
					S->compared++; logv(e);
					if (e == n || e != e2) violation("wrong-comparison", "== and != of " + name(A) + " and " + name(B) + " contradict each other");
					const bool sameSpec = A.v.spec.digestLen == B.v.spec.digestLen && A.v.spec.name == B.v.spec.name && A.v.spec.custom == B.v.spec.custom && A.v.spec.key == B.v.spec.key;
					if (sameSpec && A.v.sameMessage(B.v))
					{
						if (!e) violation("wrong-comparison", name(A) + " absorbed the same bytes as " + name(B) + " but compares unequal");
						size_t h1 = 0, h2 = 0;
						call("std::hash", A, false, [&] { const auto f = o.y & 1 && A.ops->stdHashB ? A.ops->stdHashB : A.ops->stdHash; h1 = f(A.obj); h2 = f(B.obj); });
						if (h1 != h2) violation("wrong-comparison", "equal " + name(A) + " have different std::hash");
					}
					else if (A.v.digest() != B.v.digest() && e)
						violation("wrong-comparison", name(A) + " and " + name(B) + " have different digests but compare equal");
					break;
				}
				case K_CKPT:
				{
					Slot &d = durable[o.b % DURABLE];
					if (A.st != LIVE && A.st != DONE) { did = false; break; }
					const uint64_t lin = A.v.lineage;
					if (copyTo(d, A, mixSlot(o))) d.v.lineage = lin;
					break;
				}
				case K_CRASH: crash(); break;
				case K_RESTORE:
				{
					Slot &d = durable[o.b % DURABLE];
					if (d.st == EMPTY) { did = false; break; }
					const uint64_t lin = d.v.lineage;
					if (!copyTo(A, d, mixSlot(o))) break;
					S->faults[F_RESTORE]++;
					// re-deliver what the crashed stream had received after the checkpoint, cut differently
					for (const Value &l : lost)
					{
						if (l.lineage != lin || A.st != LIVE || l.pieces.size() < d.v.pieces.size()) continue;
						Value target(l);
						std::vector<Bytes> rest(l.pieces.begin() + long(d.v.pieces.size()), l.pieces.end());
						if (!ref::isTuple(l.spec.algo))
						{
							Bytes flat;
							for (auto &b : rest) flat.insert(flat.end(), b.begin(), b.end());
							rest.clear();
							Rng r(o.w);
							for (size_t i = 0; i < flat.size();)
							{
								const size_t n = std::min<size_t>(flat.size() - i, 1 + r.below(o.x + 1));
								rest.emplace_back(flat.begin() + long(i), flat.begin() + long(i + n));
								i += n;
							}
						}
						bool ok = true;
						for (auto &b : rest) if (!feed(A, E_VOID, b.size(), int(o.z & 3), o.z >> 8, 5, b.data())) { ok = false; break; }
						if (ok)
						{
							const uint64_t keep = A.v.lineage;
							A.v = target;   // must equal the uninterrupted stream from here on
							A.v.lineage = keep;
						}
						break;
					}
					break;
				}
			}
			if (did) S->ops[o.k]++; else S->skipped++;
			logv(did);
			if (heap::badFree) violation("bad-free", "a block that is not allocated was freed");
			for (auto &s : slot) checkCanary(s);
			for (auto &s : durable) checkCanary(s);
			if (A.st != EMPTY && did) note(A, o, false);
			cur = origCur = nullptr;
		}
		// every surviving hasher must still be right
		void finish(uint64_t r)
		{
			static const Op calm;
			cur = origCur = &calm;
			auto closeSlot = [&](Slot &s, bool inPlace)
			{
				if (s.st == LIVE && inPlace) finalize(s);
				if (s.st == LIVE)
				{
					Slot &t = temp[0];
					copyTo(t, s, 3);
					finalize(t);
					readAll(t, 0x21);
					destroy(t);
				}
				readAll(s, 0x321);
				checkCanary(s);
				destroy(s);
			};
			for (auto &s : slot) { closeSlot(s, (r & 1) == 0); r >>= 1; }
			for (auto &s : durable) closeSlot(s, false);
		}
};

static void runPlanOnce(const Plan &p)
{
	World w(p);
	int i = 0;
	for (const Op &o : p.ops) { S->r.opIndex = i++; w.step(o); }
	S->r.opIndex = i;
	w.finish(mix64(p.fill + 1));
}
static void runPlan(const Plan &p)
{
	g_log = 0;
	g_fillSeed = p.fill;
	heap::fill = uint8_t(p.fill >> 3);
	if (p.revoke) mprotect(g_ro, CHUNK, PROT_NONE);
	const long before = heap::outstanding;
	runPlanOnce(p);
	const long first = heap::outstanding - before;
	if (first > 0)
	{
		// something is still allocated: a leak only if the same history makes it grow again
		S->leakRechecks++;
		const long mid = heap::outstanding;
		runPlanOnce(p);
		if (heap::outstanding > mid)
			violation("leak", std::to_string(heap::outstanding - mid) + " heap block(s) allocated by the library were never freed");
	}
	S->r.log = g_log;
	S->r.status = 1;
}

// ------------------------------------------------------------------ plan generation
// messages with different digests that partly agree
struct Twin { int algo; uint32_t a, b; };
static const Twin TWINS[] = {
#include "twins.inc"
};
struct Gen
{
	Rng r;
	Plan p;
	std::string prof;
	// what the generator knows about each slot
	struct G { int st = 0; int algo = -1; uint64_t total = 0; int digestLen = 0; bool moved = false; } g[SLOTS];
	struct GD { bool used = false; int algo = -1; uint64_t total = 0; } gd[DURABLE];
	std::vector<int> algoPool;
	int nslots = 2;
	bool faults = false;
	size_t lastFeed = size_t(-1);

	Gen(const std::string &profile, uint64_t seed) : r(seed), prof(profile) {}

	uint64_t pieceLen(int algo, uint64_t total)
	{
		const uint64_t B = uint64_t(ref::blockSize(algo)) == 1 ? 32 : uint64_t(ref::blockSize(algo));
		const uint64_t f = total % B;
		switch (r.below(20))
		{
			case 0: return 0;
			case 1: return 1;
			case 2: return B - f;
			case 3: return B - f - 1;
			case 4: return B - f + 1;
			case 5: return B;
			case 6: return B * r.range(2, 6) + (r.chance(50) ? B - f : 0);
			case 7: return B * r.range(1, 4) - 1;
			case 8: return B * r.range(1, 4) + 1;
			case 9: case 10: { const uint64_t want = B - 1 - r.below(std::min<uint64_t>(B, 34)); return (want + B - f) % B + (r.chance(30) ? B : 0); }  // tail close to a full block
			case 11: return uint64_t(ARRAY_LENS[r.below(uint64_t(ARRAY_LEN_COUNT))]);
			case 12: return 8 * r.below(20);
			case 13: return r.below(600);
			case 14: return r.permille(120) ? r.below(70000) : r.below(2000);
			case 15: return r.below(8);
			case 16: return r.chance(10) ? 128 * r.below(64) : r.below(B);
			default: return r.below(2 * B + 2);
		}
	}
	static size_t dlen(Rng &r)
	{
		// the length in bits takes two bytes from 32, three from 8192 and four from 2 MiB
		if (r.permille(4)) return r.permille(5) ? (1u << 21) + r.below(200) - 100 : r.chance(50) ? 8192 + r.below(40) - 20 : r.chance(50) ? 65536 + r.below(20) - 10 : r.range(5000, 70000);
		switch (r.below(8))
		{
			case 0: return r.chance(20) ? 0 : 1;
			case 1: return r.range(1, 16);
			case 2: return 32;
			case 3: return r.range(130, 175);
			case 4: return 168 * r.range(1, 3) + r.below(2);
			case 5: return 136 * r.range(1, 3) + r.below(2);
			case 6: return r.chance(20) ? r.range(300, 4999) : 64;
			default: return r.range(1, 100);
		}
	}
	static uint64_t slen(Rng &r)
	{
		switch (r.below(8))
		{
			case 0: case 1: return 0;
			case 2: return r.range(1, 15);
			case 3: return r.range(16, 40);
			case 4: return r.range(120, 180);
			case 5: return r.chance(20) ? (r.permille(15) ? (1u << 21) + r.below(40) - 20 : r.permille(15) ? 65536 + r.below(20) - 10 : r.range(8190, 8300)) : 31 + r.below(3);
			default: return r.range(1, 64);
		}
	}
	Op &push(int k, int a, int b = 0)
	{
		Op o; o.k = k; o.a = a; o.b = b;
		p.ops.push_back(o);
		return p.ops.back();
	}
	void fault(Op &o, unsigned percent) { if (faults && r.chance(percent)) { o.fa = uint32_t(r.chance(60) ? 1 : r.range(1, 6)); o.fm = r.chance(30); } }
	void genNew(int s, int algo)
	{
		Op &o = push(K_NEW, s);
		o.x = uint64_t(algo);
		o.y = ref::hasLen(algo) ? dlen(r) : 0;
		o.z = ref::hasCustom(algo) ? (slen(r) | slen(r) << 32) : 0;
		o.w = r.next();
		if ((ref::hasLen(algo) || algo == ref::SIPHASH) && r.chance(25))
		{
			// parameters that almost agree with those of an earlier hasher
			std::vector<const Op *> earlier;
			for (size_t i = 0; i + 1 < p.ops.size(); ++i) if (p.ops[i].k == K_NEW && p.ops[i].x == o.x) earlier.push_back(&p.ops[i]);
			if (!earlier.empty())
			{
				const Op &e = *earlier[r.below(earlier.size())];
				const uint64_t n = e.z & 0xffffffff, c = e.z >> 32;
				o.w = e.w; o.y = e.y; o.z = e.z;
				switch (r.below(algo == ref::SIPHASH ? 2 : 8))
				{
					case 0: o.w = r.next(); break;
					case 1: o.w ^= 1 + 4 * r.below(64); break;
					case 2: case 3: o.y += r.chance(50) || !o.y ? 1 : uint64_t(-1); break;
					case 4: o.z = c | n << 32; break;
					case 5: if (c) o.z = (n + 1) | (c - 1) << 32; break;
					case 6: o.z = n | (c + 1) << 32; break;
					case 7: o.y = dlen(r); break;
				}
				if (!ref::hasCustom(algo)) o.z = 0;
			}
		}
		fault(o, 12);
		g[s].st = 1; g[s].algo = algo; g[s].total = 0; g[s].digestLen = int(o.y); g[s].moved = false;
	}
	int pickAlgo() { return algoPool[r.below(algoPool.size())]; }
	void genFeed(int s)
	{
		Op &o = push(K_FEED, s);
		o.y = pieceLen(g[s].algo, g[s].total);
		int e = int(r.below(E_COUNT + 3));
		if (e >= E_COUNT) e = E_VOID;
		o.x = uint64_t(e);
		if (e == E_ARRAY || e == E_TARRAY8 || e == E_FIXEDSPAN || e == E_STRUCTARRAY || e == E_TARRAY16 || e == E_TARRAY32 || e == E_TARRAY64 || e == E_STDARRAY)
			if (r.chance(70)) o.y = uint64_t(ARRAY_LENS[r.below(uint64_t(ARRAY_LEN_COUNT))]);
		if (e == E_TSPAN16 || e == E_TSPAN32 || e == E_TSPAN64 || e == E_CSPAN32) o.y = o.y / 8 * 8;
		o.z = r.below(4) | r.below(64) << 8;
		o.w = r.next();
		if (lastFeed < p.ops.size() - 1 && r.chance(10))
		{
			// a piece like an earlier one: the same place and length, perhaps the same bytes
			const Op &e = p.ops[lastFeed];
			o.x = e.x; o.y = e.y; o.z = e.z;
			if (r.chance(40)) o.w = e.w;
		}
		lastFeed = p.ops.size() - 1;
		fault(o, 10);
		g[s].total += o.y;
	}
	void genBig(int s)
	{
		if (g[s].st != 1 || g[s].algo < 0 || g[s].moved) genNew(s, pickAlgo());
		static const int entries[] = {E_VOID, E_VOID, E_SPAN, E_SPAN, E_BRACE, E_TSPAN8, E_TSPAN16, E_TSPAN32, E_TSPAN64, E_CSPAN32};
		Op &o = push(K_FEED, s);
		o.x = uint64_t(entries[r.below(10)]);
		if (g[s].algo == ref::MD2) o.y = r.chance(10) ? r.range(1u << 20, 3u << 19) : r.range(1u << 16, 1u << 18);
		else o.y = r.chance(25) ? r.range(1u << 20, 20u << 20) : r.range(1u << 16, 1u << 20);
		if (o.x >= E_TSPAN16) o.y = o.y / 8 * 8;
		o.z = r.below(3) | r.below(64) << 8;
		o.w = r.next();
		g[s].total += o.y;
	}
	uint64_t readList(int n)
	{
		uint64_t x = 0;
		for (int i = 0; i < n; ++i)
		{
			static const int w[] = {1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 1, 2};
			x = x << 4 | uint64_t(w[r.below(sizeof(w) / sizeof(w[0]))]);
		}
		return x;
	}
	void genTwins()
	{
		static const size_t N = sizeof(TWINS) / sizeof(TWINS[0]);
		const int algo = TWINS[r.below(N)].algo;
		for (int s = 0; s < 2; ++s) { Op &o = push(K_NEW, s); o.x = uint64_t(algo); o.y = 32; }
		for (const Twin &t : TWINS)
			if (t.algo == algo)
			{
				for (int s = 0; s < 2; ++s)
				{
					Op &o = push(K_FEED, s);
					o.x = r.chance(50) ? E_VOID : E_SPAN; o.z = 1ull << 63 | r.below(4) | r.below(64) << 8; o.w = s ? t.b : t.a;
					push(K_FIN, s);
				}
				if (r.chance(30)) push(K_READ, 0).x = readList(2);
				push(K_EQ, 0, 1);
				for (int s = 0; s < 2; ++s) push(K_RESET, s);
			}
	}
	Plan make()
	{
		p.profile = prof;
		p.fill = r.chance(15) ? 0 : r.chance(15) ? ~0ull : r.next();
		p.revoke = prof == "C09" || r.chance(10);
		if (prof == "C08" && r.permille(20)) { genTwins(); return p; }
		// swarm: each run uses few algorithms, its own op mix and its own fault set
		const bool tupleProf = prof == "C10";
		const int na = int(r.range(1, prof == "C01" ? 4 : 3));
		for (int i = 0; i < na; ++i)
		{
			int a = int(r.below(ref::ALGO_COUNT));
			if (tupleProf) a = r.chance(85) ? (r.chance(50) ? ref::TUPLE128 : ref::TUPLE256) : (r.chance(50) ? ref::CSHAKE128 : ref::CSHAKE256);
			if (prof == "C07" && r.chance(45)) { static const int h[] = {ref::SHA3_224, ref::SHA3_256, ref::SHA3_384, ref::SHA3_512, ref::SHAKE128, ref::SHAKE256, ref::CSHAKE128, ref::CSHAKE256, ref::TUPLE128, ref::TUPLE256}; a = h[r.below(10)]; }
			if ((prof == "C05" || prof == "C06") && r.chance(25)) { static const int h[] = {ref::SHAKE128, ref::SHAKE256, ref::CSHAKE128, ref::CSHAKE256, ref::TUPLE128, ref::TUPLE256, ref::SIPHASH, ref::SHA3_256}; a = h[r.below(8)]; }
			algoPool.push_back(a);
		}
		nslots = int(r.range(1, prof == "C05" ? 6 : 4));
		faults = prof == "C07" || ((prof == "C08" || prof == "C06" || prof == "C10" || prof == "C05") && r.chance(15));
		const int W = 64;
		int weight[K_COUNT] = {};
		auto set = [&](int k, int w) { weight[k] = w ? int(r.below(uint64_t(w) + 1)) + (r.chance(50) ? w / 2 : 0) : 0; };
		set(K_FEED, W);
		if (prof == "C01") { set(K_PROBE, 12); set(K_FIN, 6); set(K_READ, 6); set(K_RESET, 2); set(K_NEW, 4); set(K_COPY, 1); }
		else if (prof == "C05") { set(K_PROBE, 6); set(K_FIN, 6); set(K_READ, 6); set(K_RESET, 4); set(K_NEW, 8); set(K_COPY, 16); set(K_MOVE, 12); set(K_CASG, 16); set(K_MASG, 14); set(K_SWAP, 10); set(K_DEL, 3); set(K_CKPT, 10); set(K_CRASH, 4); set(K_RESTORE, 10); set(K_EQ, 3); }
		else if (prof == "C06") { set(K_PROBE, 8); set(K_FIN, 16); set(K_READ, 10); set(K_RESET, 24); set(K_NEW, 4); set(K_COPY, 4); set(K_CASG, 3); set(K_MOVE, 2); set(K_EQ, 2); }
		else if (prof == "C07") { set(K_PROBE, 16); set(K_FIN, 16); set(K_READ, 20); set(K_RESET, 16); set(K_NEW, 14); set(K_COPY, 14); set(K_MOVE, 3); set(K_CASG, 14); set(K_MASG, 4); set(K_SWAP, 2); set(K_DEL, 6); set(K_CKPT, 3); set(K_EQ, 2); weight[K_FEED] = weight[K_FEED] / 2 + 4; }
		else if (prof == "C08") { set(K_FIN, 24); set(K_READ, 60); set(K_EQ, 24); set(K_RESET, 8); set(K_NEW, 8); set(K_COPY, 10); set(K_MOVE, 3); set(K_CASG, 4); set(K_SWAP, 3); weight[K_FEED] = weight[K_FEED] / 2 + 4; }
		else if (prof == "C09") { set(K_PROBE, 8); set(K_FIN, 8); set(K_READ, 8); set(K_RESET, 8); set(K_NEW, 12); set(K_COPY, 6); set(K_MOVE, 4); set(K_CASG, 4); set(K_SWAP, 2); }
		else if (prof == "C10") { set(K_PROBE, 16); set(K_FIN, 8); set(K_READ, 8); set(K_RESET, 8); set(K_NEW, 8); set(K_COPY, 8); set(K_MOVE, 4); set(K_CASG, 4); set(K_EQ, 8); set(K_CKPT, 3); set(K_RESTORE, 2); }
		weight[K_FEED] += 4;
		int sum = 0;
		for (int w : weight) sum += w;
		for (int s = 0; s < nslots; ++s) genNew(s, pickAlgo());
		const int steps = r.permille(30) ? int(r.range(100, 400)) : int(r.range(3, 40));
		// a few runs carry pieces far beyond the usual sizes
		const int bigAt = r.permille(prof == "C01" ? 15 : prof == "C09" ? 8 : 5) ? int(r.below(uint64_t(std::min(steps, 12)))) : -1;
		for (int i = 0; i < steps; ++i)
		{
			if (i == bigAt) genBig(int(r.below(uint64_t(nslots))));
			int pick = int(r.below(uint64_t(sum))), k = 0;
			for (; k < K_COUNT && pick >= weight[k]; ++k) pick -= weight[k];
			const int s = int(r.below(uint64_t(nslots))), t = int(r.below(uint64_t(nslots)));
			switch (k)
			{
				case K_NEW: genNew(s, pickAlgo()); break;
				case K_FEED:
					if (g[s].st == 0 || g[s].algo < 0 || g[s].moved) { genNew(s, pickAlgo()); break; }
					if (g[s].st == 2) { if (r.chance(60)) { Op &o = push(K_RESET, s); fault(o, 10); g[s].st = 1; g[s].total = 0; } else break; }
					genFeed(s);
					break;
				case K_FIN: { Op &o = push(K_FIN, s); fault(o, 25); if (g[s].st == 1) g[s].st = 2; if (o.fa && g[s].st && r.chance(60)) { push(K_RESET, s); g[s].st = 1; g[s].total = 0; } break; }
				case K_READ: { Op &o = push(K_READ, s); o.x = readList(int(r.range(1, prof == "C08" ? 12 : 4))); fault(o, 40); break; }
				case K_PROBE: { Op &o = push(K_PROBE, s); o.x = readList(int(r.range(1, 4))); o.w = r.next(); o.y = r.below(2); fault(o, 40); break; }
				case K_RESET: { Op &o = push(K_RESET, s); fault(o, 15); if (g[s].st) { g[s].st = 1; g[s].total = 0; } break; }
				case K_COPY: { Op &o = push(K_COPY, s, t); o.w = r.next(); o.y = r.below(2); fault(o, 30); if (s != t && g[t].st && !g[t].moved) g[s] = g[t]; break; }
				case K_MOVE: { Op &o = push(K_MOVE, s, t); o.w = r.next(); o.y = r.below(2); fault(o, 12); if (s != t && g[t].st && !g[t].moved) { g[s] = g[t]; g[t].moved = true; } break; }
				case K_CASG:
					if (r.chance(70) && g[s].algo != g[t].algo) { if (r.chance(50)) genNew(s, g[t].algo < 0 ? pickAlgo() : g[t].algo); }
					{ Op &o = push(K_CASG, s, t); o.y = r.below(2); fault(o, 30); if (s != t && g[t].st && !g[t].moved && g[s].algo == g[t].algo) g[s] = g[t]; }
					break;
				case K_MASG:
					if (g[s].algo != g[t].algo && g[t].algo >= 0 && s != t) genNew(s, g[t].algo);
					{ Op &o = push(K_MASG, s, t); o.y = r.below(2); fault(o, 12); }
					if (s != t && g[t].st && !g[t].moved && g[s].algo == g[t].algo) { g[s] = g[t]; g[t].moved = true; }
					break;
				case K_SWAP:
					if (g[s].algo != g[t].algo && g[t].algo >= 0 && s != t) genNew(s, g[t].algo);
					{ Op &o = push(K_SWAP, s, t); fault(o, 12); }
					if (g[s].st && g[t].st && !g[s].moved && !g[t].moved && g[s].algo == g[t].algo) std::swap(g[s], g[t]);
					break;
				case K_DEL: push(K_DEL, s); g[s] = G(); break;
				case K_EQ:
					if (r.chance(50) && s != t) { push(K_COPY, s, t).w = r.next(); push(K_FIN, s); push(K_FIN, t); if (g[t].st) g[s] = g[t]; if (g[s].st == 1) g[s].st = g[t].st = 2; }
					else if (s != t && g[t].algo >= 0 && r.chance(40))
					{
						// the same message, parameters that may differ
						const int algo = g[t].algo;
						genNew(s, algo); genNew(t, algo);
						Op &n1 = p.ops[p.ops.size() - 2], &n2 = p.ops.back();
						n1.fa = n2.fa = 0; n2.w = n1.w;
						if (r.chance(50)) n2.z = n1.z;
						if (r.chance(20)) n2.y = n1.y;
						genFeed(s);
						Op f = p.ops.back();
						f.fa = 0; p.ops.back() = f; f.a = t; f.x = r.below(E_COUNT); p.ops.push_back(f);
						push(K_FIN, s); push(K_FIN, t); g[s].st = g[t].st = 2;
					}
					{ Op &o = push(K_EQ, s, t); o.y = r.below(2); fault(o, 12); }
					break;
				case K_CKPT: { Op &o = push(K_CKPT, s, int(r.below(DURABLE))); o.w = r.next(); o.y = r.below(2); fault(o, 20); if (g[s].st && !g[s].moved) gd[o.b] = {true, g[s].algo, g[s].total}; break; }
				case K_CRASH:
				{
					push(K_CRASH, 0);
					for (auto &x : g) x = G();
					for (int d = 0; d < DURABLE; ++d)
						if (gd[d].used && r.chance(80))
						{
							Op &o = push(K_RESTORE, int(r.below(uint64_t(nslots))), d);
							o.x = r.chance(50) ? r.below(8) : r.below(300); o.z = r.below(4) | r.below(64) << 8; o.w = r.next();
							g[o.a].st = 1; g[o.a].algo = gd[d].algo; g[o.a].total = gd[d].total; g[o.a].moved = false;
						}
					break;
				}
				case K_RESTORE:
				{
					const int d = int(r.below(DURABLE));
					Op &o = push(K_RESTORE, s, d);
					o.x = r.below(100); o.w = r.next(); o.z = r.below(4);
					if (gd[d].used) { g[s].st = 1; g[s].algo = gd[d].algo; g[s].total = gd[d].total; g[s].moved = false; }
					break;
				}
			}
		}
		return p;
	}
};

// ------------------------------------------------------------------ driver
static int g_out = -1;
static void runChild(const Plan &p, int cpuSeconds)
{
	rlimit rl {rlim_t(cpuSeconds), rlim_t(cpuSeconds)};
	setrlimit(RLIMIT_CPU, &rl);
	rlimit core {0, 0};
	setrlimit(RLIMIT_CORE, &core);
	dup2(g_out, 2);
	runPlan(p);
	_exit(0);
}
static std::string readOut()
{
	char b[3000];
	const ssize_t n = pread(g_out, b, sizeof(b) - 1, 0);
	if (n <= 0) return "";
	return std::string(b, size_t(n));
}
// runs a plan in a forked process; true when it held
static bool isolate(const Plan &p, std::string &cls, std::string &detail, uint64_t &log)
{
	S->r.status = 0; S->r.cls[0] = S->r.detail[0] = 0; S->r.log = 0; S->r.opIndex = -1;
	if (ftruncate(g_out, 0) != 0) {}
	lseek(g_out, 0, SEEK_SET);
	fflush(stdout);
	const pid_t c = fork();
	if (c < 0) { perror("fork"); exit(3); }
	if (c == 0) runChild(p, 60);
	int st = 0;
	while (waitpid(c, &st, 0) < 0) {}
	log = S->r.log;
	if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0))
	{
		if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "harness error: %s\n", readOut().c_str()); exit(3); }
		const int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
		if (sig == SIGKILL && S->r.status == 0) cls = "hang";
		else if (sig == SIGXCPU) cls = "hang";
		else if (sig) cls = std::string("crash-") + (sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : std::to_string(sig));
		else cls = "sanitizer";
		const std::string out = readOut();
		detail = "process died in operation " + std::to_string(S->r.opIndex);
		if (S->r.opIndex >= 0 && size_t(S->r.opIndex) < p.ops.size()) detail += std::string(" (") + KN[p.ops[size_t(S->r.opIndex)].k] + ")";
		size_t e = out.find("ERROR:");
		if (e == std::string::npos) e = out.find("runtime error");
		if (e != std::string::npos) { std::string l = out.substr(e); l = l.substr(0, l.find('\n')); detail += ": " + l; }
		else if (!out.empty()) detail += ": " + out.substr(0, 200);
		log = mix64(hashStr(cls.c_str()) + uint64_t(S->r.opIndex));
		return false;
	}
	if (S->r.status == 1) return true;
	cls = S->r.status == 2 ? S->r.cls : "no-result";
	detail = S->r.detail;
	return false;
}
static std::string jsonEsc(const std::string &s)
{
	std::string r;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r;
}
static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

int main(int argc, char **argv)
{
	// fixed addresses, so that even address-dependent behaviour replays
	if (!getenv("SIM_NOASLR"))
	{
		setenv("SIM_NOASLR", "1", 1);
		const int pers = personality(0xffffffff);
		if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	std::map<std::string, std::string> a;
	for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
	S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	g_out = memfd_create("out", 0);
	setupMemory();
	for (int i = 0; i < ref::ALGO_COUNT; ++i)
		if (!opsFor(i)) { fprintf(stderr, "no adapter for %s\n", ref::algoName(i)); return 3; }
	{ ref::Spec w; for (int i = 0; i < ref::ALGO_COUNT; ++i) { w.algo = i; w.digestLen = 8; w.key = Bytes(16, 0); auto m = ref::make(w); m->update((const uint8_t *)"x", 1); m->digest(); } }  // warm the models' tables

	std::string cls, detail;
	uint64_t log = 0;
	if (a.count("--replay"))
	{
		std::ifstream f(a["--replay"]);
		if (!f) { fprintf(stderr, "cannot open plan\n"); return 3; }
		const Plan p = Plan::parse(f);
		const bool ok = isolate(p, cls, detail, log);
		printf("{\"ok\": %s, \"class\": \"%s\", \"detail\": \"%s\", \"log\": \"%016llx\", \"op\": %d}\n", ok ? "true" : "false", jsonEsc(cls).c_str(), jsonEsc(detail).c_str(), (unsigned long long)log, S->r.opIndex);
		return ok ? 0 : 1;
	}
	const std::string prof = a["--profile"];
	const uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10);
	const uint64_t from = strtoull(a["--from"].c_str(), nullptr, 10), to = strtoull(a["--to"].c_str(), nullptr, 10);
	const uint64_t step = a.count("--step") ? strtoull(a["--step"].c_str(), nullptr, 10) : 1;
	const double limit = a.count("--seconds") ? atof(a["--seconds"].c_str()) : 1e9;
	if (a.count("--gen")) { fputs(Gen(prof, runSeed(seed, prof.c_str(), from)).make().text().c_str(), stdout); return 0; }
	const bool verbose = a.count("--logs") != 0;
	const double t0 = nowS();
	uint64_t runs = 0, nontrivial = 0, logAll = 0;
	std::vector<uint64_t> sigs;
	for (uint64_t i = from; i < to; i += step)
	{
		if ((runs & 15) == 0 && nowS() - t0 > limit) break;
		const uint64_t cmp0 = S->compared, feeds0 = S->ops[K_FEED];
		bool ok;
		{
			const Plan p = Gen(prof, runSeed(seed, prof.c_str(), i)).make();
			ok = isolate(p, cls, detail, log);
			uint64_t sig = 0;
			for (const Op &o : p.ops) sig = mix64(sig ^ (uint64_t(o.k) << 56) ^ (uint64_t(o.a) << 48) ^ (uint64_t(o.b) << 40) ^ (o.k == K_NEW ? o.x : o.k == K_FEED ? o.y * 16 + o.x : 0) ^ (uint64_t(o.fa) << 32));
			if (S->compared > cmp0 && S->ops[K_FEED] >= feeds0 + 2) { nontrivial++; sigs.push_back(sig); }
		}
		++runs;
		logAll ^= mix64(log ^ mix64(i));
		if (verbose) printf("LOG %llu %016llx\n", (unsigned long long)i, (unsigned long long)log);
		if (!ok)
		{
			printf("FAIL {\"idx\": %llu, \"class\": \"%s\", \"detail\": \"%s\", \"log\": \"%016llx\"}\n", (unsigned long long)i, jsonEsc(cls).c_str(), jsonEsc(detail).c_str(), (unsigned long long)log);
			break;
		}
	}
	std::sort(sigs.begin(), sigs.end());
	sigs.erase(std::unique(sigs.begin(), sigs.end()), sigs.end());
	std::ostringstream o;
	o << "STATS {\"runs\": " << runs << ", \"nontrivial\": " << nontrivial << ", \"distinct\": " << sigs.size() << ", \"seconds\": " << nowS() - t0 << ", \"log_all\": \"" << std::hex << logAll << std::dec << "\"";
	auto dict = [&](const char *n, const uint64_t *v, int c, const char *const *names) { o << ", \"" << n << "\": {"; for (int i = 0; i < c; ++i) o << (i ? ", " : "") << "\"" << names[i] << "\": " << v[i]; o << "}"; };
	static const char *EN[E_COUNT] = {"ptr_len", "span", "braced_span", "byte_array", "char_array", "u16_array", "u32_array", "u64_array", "char_span", "u16_span", "u32_span", "u64_span", "const_u32_span", "fixed_extent_span", "struct_array", "container", "std_array"};
	static const char *RN[11] = {"", "hex", "vector", "array", "uint16", "uint32", "uint64", "std_hash", "copy_then_hex", "self_compare", "uint8"};
	dict("ops", S->ops, K_COUNT, KN); dict("faults", S->faults, F_COUNT, FN); dict("entries", S->entries, E_COUNT, EN); dict("reads", S->reads + 1, 10, RN + 1);
	std::vector<const char *> an; for (int i = 0; i < ref::ALGO_COUNT; ++i) an.push_back(ref::algoName(i));
	dict("algos", S->algos, ref::ALGO_COUNT, an.data());
	o << ", \"bytes\": " << S->bytes << ", \"compared\": " << S->compared << ", \"allocations\": " << S->allocs << ", \"bad_alloc_seen\": " << S->exceptions << ", \"readouts_retried\": " << S->retries << ", \"resets_after_failure\": " << S->resetsAfterFailure << ", \"leak_rechecks\": " << S->leakRechecks << ", \"skipped\": " << S->skipped << "}";
	puts(o.str().c_str());
	fflush(stdout);
	if (a.count("--sigs")) { FILE *f = fopen(a["--sigs"].c_str(), "wb"); if (f) { fwrite(sigs.data(), 8, sigs.size(), f); fclose(f); } }
	if (a.count("--map")) { FILE *f = fopen(a["--map"].c_str(), "wb"); if (f) { fwrite(S->map, 1, sizeof(S->map), f); fclose(f); } }
	return 0;
}
