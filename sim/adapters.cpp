// Instantiates the adapters of the hashers of one header (-DGROUP=n) in
// /repo/src.  Contains no logic of its own beyond forwarding.
// Every header brings its own copy of the helpers it shares with others (the
// first copy included wins), so each is compiled alone and, to keep the linker
// from merging the copies, in a namespace of its own (-DChocobo1=Chocobo1_n).
#include "ops.h"
#include "../ref/ref.h"
#include <array>
#include <new>
#include <type_traits>
#include <utility>

#ifndef REPO_SRC
#define REPO_SRC /repo/src
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
#define HDR(f) STR(REPO_SRC/f)

#if GROUP == 0
#include HDR(blake1_224.h)
#elif GROUP == 1
#include HDR(blake1_256.h)
#elif GROUP == 2
#include HDR(md2.h)
#elif GROUP == 3
#include HDR(crc_32.h)
#elif GROUP == 4
#include HDR(blake1_384.h)
#elif GROUP == 5
#include HDR(blake1_512.h)
#elif GROUP == 6
#include HDR(md4.h)
#elif GROUP == 7
#include HDR(md5.h)
#elif GROUP == 8
#include HDR(blake2.h)
#elif GROUP == 9
#include HDR(blake2s.h)
#elif GROUP == 10
#include HDR(has_160.h)
#elif GROUP == 11
#include HDR(sha1.h)
#elif GROUP == 12
#include HDR(cshake.h)
#elif GROUP == 13
#include HDR(fnv.h)
#elif GROUP == 14
#include HDR(siphash.h)
#elif GROUP == 15
#include HDR(ripemd_128.h)
#elif GROUP == 16
#include HDR(ripemd_160.h)
#elif GROUP == 17
#include HDR(ripemd_256.h)
#elif GROUP == 18
#include HDR(ripemd_320.h)
#elif GROUP == 19
#include HDR(sha2_224.h)
#elif GROUP == 20
#include HDR(sha2_256.h)
#elif GROUP == 21
#include HDR(sm3.h)
#elif GROUP == 22
#include HDR(sha2_384.h)
#elif GROUP == 23
#include HDR(sha2_512.h)
#elif GROUP == 24
#include HDR(sha2_512_224.h)
#elif GROUP == 25
#include HDR(sha2_512_256.h)
#elif GROUP == 26
#include HDR(whirlpool.h)
#elif GROUP == 27
#include HDR(sha3.h)
#elif GROUP == 28
#include HDR(tiger.h)
#elif GROUP == 29
#include HDR(tuple_hash.h)
#endif

namespace
{
using namespace Chocobo1;

struct Pod3 { uint8_t a, b, c; };
struct View   // a contiguous container
{
	using value_type = uint8_t;
	const uint8_t *b, *e;
	const uint8_t *data() const { return b; }
	size_t size() const { return size_t(e - b); }
	const uint8_t *begin() const { return b; }
	const uint8_t *end() const { return e; }
};

template <typename H, typename = void> struct HasArray : std::false_type {};
template <typename H> struct HasArray<H, decltype(void(std::declval<const H &>().toArray()))> : std::true_type {};
template <typename H, typename = void> struct IsTuple : std::false_type {};
template <typename H> struct IsTuple<H, decltype(void(std::declval<H &>().nextData(nullptr, size_t(0))))> : std::true_type {};

template <typename B> using HashOf = decltype(size_t(std::hash<B>()(std::declval<const B &>())));
enum Ctor { C_PLAIN, C_LEN, C_LEN_CUSTOM, C_LEN_NAME_CUSTOM, C_KEY };

template <typename H, int CT> struct Make;
template <typename H> struct Make<H, C_PLAIN> { static void go(void *m, const Params &) { new (m) H(); } };
template <typename H> struct Make<H, C_LEN> { static void go(void *m, const Params &p) { new (m) H(p.digestLen); } };
template <typename H> struct Make<H, C_LEN_CUSTOM>
{
	static void go(void *m, const Params &p)
	{
		if (p.defaulted && p.custom.empty()) new (m) H(p.digestLen);
		else new (m) H(p.digestLen, p.custom);
	}
};
template <typename H> struct Make<H, C_LEN_NAME_CUSTOM>
{
	static void go(void *m, const Params &p)
	{
		if (p.defaulted && p.custom.empty() && p.name.empty()) new (m) H(p.digestLen);
		else if (p.defaulted && p.custom.empty()) new (m) H(p.digestLen, p.name);
		else new (m) H(p.digestLen, p.name, p.custom);
	}
};
template <typename H> struct Make<H, C_KEY>
{
	static void go(void *m, const Params &p) { new (m) H(typename H::template Span<const uint8_t>(p.key, 16)); }
};

// feeding goes through addData or, for TupleHash, nextData
template <typename H, bool TUPLE> struct Feed;
template <typename H> struct Feed<H, false>
{
	template <typename A> static const void *one(H &h, A &&a) { return &h.addData(std::forward<A>(a)); }
	static const void *two(H &h, const void *p, size_t n) { return &h.addData(p, n); }
	static const void *brace(H &h, const uint8_t *p, size_t n) { return &h.addData({p, n}); }
};
template <typename H> struct Feed<H, true>
{
	template <typename A> static const void *one(H &h, A &&a) { return &h.nextData(std::forward<A>(a)); }
	static const void *two(H &h, const void *p, size_t n) { return &h.nextData(p, n); }
	static const void *brace(H &h, const uint8_t *p, size_t n) { return &h.nextData({p, n}); }
};

template <typename H, int CT>
struct Adapter
{
	static const bool TUPLE = IsTuple<H>::value;
	using F = Feed<H, TUPLE>;

	static H &o(void *p) { return *static_cast<H *>(p); }
	static const H &o(const void *p) { return *static_cast<const H *>(p); }

	static void construct(void *m, const Params &p) { Make<H, CT>::go(m, p); }
	static void destroy(void *p) { o(p).~H(); }
	static void copyCtor(void *m, const void *s) { new (m) H(o(s)); }
	static void moveCtor(void *m, void *s) { new (m) H(std::move(o(s))); }

	template <typename Q = H> static auto getCA(int) -> typename std::enable_if<std::is_copy_assignable<Q>::value, void (*)(void *, const void *)>::type
	{ return [](void *d, const void *s) { o(d) = o(s); }; }
	static void (*getCA(...))(void *, const void *) { return nullptr; }
	template <typename Q = H> static auto getMA(int) -> typename std::enable_if<std::is_move_assignable<Q>::value, void (*)(void *, void *)>::type
	{ return [](void *d, void *s) { o(d) = std::move(o(s)); }; }
	static void (*getMA(...))(void *, void *) { return nullptr; }
	template <typename Q = H> static auto getSwap(int) -> typename std::enable_if<std::is_move_assignable<Q>::value && std::is_move_constructible<Q>::value, void (*)(void *, void *)>::type
	{ return [](void *a, void *b) { using std::swap; swap(o(a), o(b)); }; }
	static void (*getSwap(...))(void *, void *) { return nullptr; }

	using B = typename std::remove_reference<decltype(std::declval<H &>().finalize())>::type;
	static const bool OTHER = !std::is_same<B, H>::value && std::is_base_of<B, H>::value;
	static B &base(void *p) { return o(p); }
	static const B &base(const void *p) { return o(p); }
	template <typename Q = H> static auto getCCB(int) -> typename std::enable_if<OTHER && std::is_constructible<Q, const B &>::value, void (*)(void *, const void *)>::type
	{ return [](void *m, const void *s) { new (m) H(base(s)); }; }
	static void (*getCCB(...))(void *, const void *) { return nullptr; }
	template <typename Q = H> static auto getMCB(int) -> typename std::enable_if<OTHER && std::is_constructible<Q, B &&>::value, void (*)(void *, void *)>::type
	{ return [](void *m, void *s) { new (m) H(std::move(base(s))); }; }
	static void (*getMCB(...))(void *, void *) { return nullptr; }
	template <typename Q = H> static auto getCAB(int) -> typename std::enable_if<OTHER && std::is_assignable<Q &, const B &>::value, void (*)(void *, const void *)>::type
	{ return [](void *d, const void *s) { o(d) = base(s); }; }
	static void (*getCAB(...))(void *, const void *) { return nullptr; }
	template <typename Q = H> static auto getMAB(int) -> typename std::enable_if<OTHER && std::is_assignable<Q &, B &&>::value, void (*)(void *, void *)>::type
	{ return [](void *d, void *s) { o(d) = std::move(base(s)); }; }
	static void (*getMAB(...))(void *, void *) { return nullptr; }
	template <typename Q = B> static auto getEqB(int) -> typename std::enable_if<OTHER && std::is_convertible<decltype(std::declval<const H &>() == std::declval<const Q &>()), bool>::value, bool (*)(const void *, const void *)>::type
	{ return [](const void *a, const void *b) -> bool { return o(a) == base(b); }; }
	static bool (*getEqB(...))(const void *, const void *) { return nullptr; }
	template <typename Q = B> static auto getHashB(int) -> typename std::enable_if<OTHER && std::is_same<HashOf<Q>, size_t>::value, size_t (*)(const void *)>::type
	{ return [](const void *a) -> size_t { return std::hash<Q>()(base(a)); }; }
	static size_t (*getHashB(...))(const void *) { return nullptr; }

	using Bytes = typename H::template Span<const uint8_t>;
	template <typename C> static const void *containerI(H &h, const C &c, std::true_type) { return F::one(h, c); }
	template <typename C> static const void *containerI(H &h, const C &c, std::false_type) { return F::one(h, Bytes(c.data(), c.size())); }
	template <typename C> static const void *container(H &h, const C &c) { return containerI(h, c, typename std::is_convertible<const C &, Bytes>::type()); }
	template <typename T, size_t N> static const void *arr(H &h, const uint8_t *p)
	{
		return F::one(h, *reinterpret_cast<const T (*)[N]>(p));
	}
	template <size_t N> static const void *arrN(H &h, int e, const uint8_t *p)
	{
		switch (e)
		{
			case E_TARRAY8: return arr<char, N>(h, p);
			case E_TARRAY16: return arr<uint16_t, (N / 2 ? N / 2 : 1)>(h, p);
			case E_TARRAY32: return arr<uint32_t, (N / 4 ? N / 4 : 1)>(h, p);
			case E_TARRAY64: return arr<uint64_t, (N / 8 ? N / 8 : 1)>(h, p);
			case E_STRUCTARRAY: return arr<Pod3, (N / 3 ? N / 3 : 1)>(h, p);
			case E_FIXEDSPAN:
			{
				const uint8_t (&a)[N] = *reinterpret_cast<const uint8_t (*)[N]>(p);
				return F::one(h, typename H::template Span<const uint8_t, N>(a));
			}
			case E_STDARRAY: return container(h, *reinterpret_cast<const std::array<uint8_t, N> *>(p));
			default: return arr<uint8_t, N>(h, p);
		}
	}
	static const void *arrays(H &h, int e, const uint8_t *p, size_t n)
	{
		switch (n)
		{
#define A(N) case N: return arrN<N>(h, e, p);
			A(1) A(2) A(3) A(4) A(5) A(8) A(12) A(13) A(16) A(24) A(48) A(56) A(63) A(64) A(65) A(72) A(96) A(120) A(128) A(136) A(168) A(192) A(255) A(264) A(1024) A(4096) A(65664)
#undef A
		}
		return nullptr;
	}
	template <typename T> static const void *tspan(H &h, const uint8_t *p, size_t n)
	{
		return F::one(h, typename H::template Span<T>(reinterpret_cast<T *>(const_cast<uint8_t *>(p)), n / sizeof(T)));
	}
	static bool feed(void *obj, int e, const uint8_t *p, size_t n)
	{
		H &h = o(obj);
		const void *r = nullptr;
		switch (e)
		{
			case E_VOID: r = F::two(h, p, n); break;
			case E_SPAN: r = F::one(h, typename H::template Span<const uint8_t>(p, n)); break;
			case E_BRACE: r = F::brace(h, p, n); break;
			case E_TSPAN8: r = tspan<char>(h, p, n); break;
			case E_TSPAN16: r = tspan<uint16_t>(h, p, n); break;
			case E_TSPAN32: r = tspan<uint32_t>(h, p, n); break;
			case E_TSPAN64: r = tspan<uint64_t>(h, p, n); break;
			case E_CONTAINER: r = container(h, View {p, p + n}); break;
			case E_CSPAN32: r = tspan<const uint32_t>(h, p, n); break;
			default: r = arrays(h, e, p, n); break;
		}
		// the overloads return the hasher itself (possibly as its base class)
		return r == obj;
	}
	static void reset(void *p) { o(p).reset(); }
	static bool finalize(void *p) { return static_cast<const void *>(&o(p).finalize()) == p; }
	static std::string toString(const void *p) { return o(p).toString(); }
	static std::vector<uint8_t> toVector(const void *p) { return o(p).toVector(); }
	template <typename Q = H> static typename std::enable_if<HasArray<Q>::value, size_t>::type toArrayI(const void *p, uint8_t *out, int)
	{
		const auto a = o(p).toArray();
		for (size_t i = 0; i < a.size(); ++i) out[i] = a[i];
		return a.size();
	}
	static size_t toArrayI(const void *, uint8_t *, ...) { return 0; }
	static size_t toArray(const void *p, uint8_t *out) { return toArrayI(p, out, 0); }
	static uint64_t toInt(const void *p, int b)
	{
		switch (b)
		{
			case 1: return static_cast<uint8_t>(o(p));
			case 2: return static_cast<uint16_t>(o(p));
			case 4: return static_cast<uint32_t>(o(p));
			default: return static_cast<uint64_t>(o(p));
		}
	}
	static bool equal(const void *a, const void *b) { return o(a) == o(b); }
	static bool notEqual(const void *a, const void *b) { return o(a) != o(b); }
	static size_t stdHash(const void *a) { return std::hash<H>()(o(a)); }

	static void reg(const char *name, int algo)
	{
		static Ops ops;
		ops.name = name; ops.algo = algo; ops.size = sizeof(H); ops.align = alignof(H);
		ops.hasArray = HasArray<H>::value; ops.tuple = TUPLE; ops.heap = (CT == C_LEN || CT == C_LEN_CUSTOM || CT == C_LEN_NAME_CUSTOM || !HasArray<H>::value);
		ops.construct = construct; ops.destroy = destroy; ops.copyCtor = copyCtor; ops.moveCtor = moveCtor;
		ops.copyAssign = getCA(0); ops.moveAssign = getMA(0); ops.swapObj = getSwap(0);
		ops.copyCtorB = getCCB(0); ops.moveCtorB = getMCB(0); ops.copyAssignB = getCAB(0); ops.moveAssignB = getMAB(0); ops.equalB = getEqB(0); ops.stdHashB = getHashB(0);
		ops.feed = feed; ops.reset = reset; ops.finalize = finalize;
		ops.toString = toString; ops.toVector = toVector; ops.toArray = toArray; ops.toInt = toInt;
		ops.equal = equal; ops.notEqual = notEqual; ops.stdHash = stdHash;
		registerOps(&ops);
	}
};

struct Registrar
{
	Registrar()
	{
#define R(H, CT, A) Adapter<H, CT>::reg(#H, ref::A)
#if GROUP == 0
		R(Blake1_224, C_PLAIN, BLAKE1_224);
#elif GROUP == 1
		R(Blake1_256, C_PLAIN, BLAKE1_256);
#elif GROUP == 2
		R(MD2, C_PLAIN, MD2);
#elif GROUP == 3
		R(CRC_32, C_PLAIN, CRC32);
#elif GROUP == 4
		R(Blake1_384, C_PLAIN, BLAKE1_384);
#elif GROUP == 5
		R(Blake1_512, C_PLAIN, BLAKE1_512);
#elif GROUP == 6
		R(MD4, C_PLAIN, MD4);
#elif GROUP == 7
		R(MD5, C_PLAIN, MD5);
#elif GROUP == 8
		R(Blake2, C_PLAIN, BLAKE2B);
#elif GROUP == 9
		R(Blake2s, C_PLAIN, BLAKE2S);
#elif GROUP == 10
		R(HAS_160, C_PLAIN, HAS160);
#elif GROUP == 11
		R(SHA1, C_PLAIN, SHA1);
#elif GROUP == 12
		R(CSHAKE_128, C_LEN_NAME_CUSTOM, CSHAKE128); R(CSHAKE_256, C_LEN_NAME_CUSTOM, CSHAKE256);
#elif GROUP == 13
		R(FNV32_0, C_PLAIN, FNV32_0); R(FNV32_1, C_PLAIN, FNV32_1); R(FNV32_1a, C_PLAIN, FNV32_1A); R(FNV64_0, C_PLAIN, FNV64_0); R(FNV64_1, C_PLAIN, FNV64_1); R(FNV64_1a, C_PLAIN, FNV64_1A);
#elif GROUP == 14
		R(SipHash, C_KEY, SIPHASH);
#elif GROUP == 15
		R(RIPEMD_128, C_PLAIN, RMD128);
#elif GROUP == 16
		R(RIPEMD_160, C_PLAIN, RMD160);
#elif GROUP == 17
		R(RIPEMD_256, C_PLAIN, RMD256);
#elif GROUP == 18
		R(RIPEMD_320, C_PLAIN, RMD320);
#elif GROUP == 19
		R(SHA2_224, C_PLAIN, SHA2_224);
#elif GROUP == 20
		R(SHA2_256, C_PLAIN, SHA2_256);
#elif GROUP == 21
		R(SM3, C_PLAIN, SM3);
#elif GROUP == 22
		R(SHA2_384, C_PLAIN, SHA2_384);
#elif GROUP == 23
		R(SHA2_512, C_PLAIN, SHA2_512);
#elif GROUP == 24
		R(SHA2_512_224, C_PLAIN, SHA2_512_224);
#elif GROUP == 25
		R(SHA2_512_256, C_PLAIN, SHA2_512_256);
#elif GROUP == 26
		R(Whirlpool, C_PLAIN, WHIRLPOOL);
#elif GROUP == 27
		R(SHA3_224, C_PLAIN, SHA3_224); R(SHA3_256, C_PLAIN, SHA3_256); R(SHA3_384, C_PLAIN, SHA3_384); R(SHA3_512, C_PLAIN, SHA3_512); R(SHAKE_128, C_LEN, SHAKE128); R(SHAKE_256, C_LEN, SHAKE256);
#elif GROUP == 28
		R(Tiger1_128, C_PLAIN, TIGER1_128); R(Tiger1_160, C_PLAIN, TIGER1_160); R(Tiger1_192, C_PLAIN, TIGER1_192); R(Tiger2_128, C_PLAIN, TIGER2_128); R(Tiger2_160, C_PLAIN, TIGER2_160); R(Tiger2_192, C_PLAIN, TIGER2_192);
#elif GROUP == 29
		R(TupleHash_128, C_LEN_CUSTOM, TUPLE128); R(TupleHash_256, C_LEN_CUSTOM, TUPLE256);
#endif
#undef R
	}
} registrar;
}
