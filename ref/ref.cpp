#include "ref.h"
#include <stdexcept>
#include "tables.inc"

namespace ref
{
namespace
{
template <typename T> T rol(T x, unsigned s) { s %= sizeof(T) * 8; return s ? T((x << s) | (x >> (sizeof(T) * 8 - s))) : x; }
template <typename T> T rr(T x, unsigned s) { s %= sizeof(T) * 8; return s ? T((x >> s) | (x << (sizeof(T) * 8 - s))) : x; }
template <typename T> T le(const uint8_t *p) { T r = 0; for (size_t i = 0; i < sizeof(T); ++i) r |= T(p[i]) << (8 * i); return r; }
template <typename T> T be(const uint8_t *p) { T r = 0; for (size_t i = 0; i < sizeof(T); ++i) r = T(r << 8) | p[i]; return r; }
template <typename T> void putLe(Bytes &o, T v) { for (size_t i = 0; i < sizeof(T); ++i) o.push_back(uint8_t(v >> (8 * i))); }
template <typename T> void putBe(Bytes &o, T v) { for (size_t i = sizeof(T); i-- > 0;) o.push_back(uint8_t(v >> (8 * i))); }

// ---- common streaming skeleton: D supplies B (block size), st, block(), fin()
template <typename D>
class Blocked : public Model
{
	public:
		void update(const uint8_t *p, size_t n) override
		{
			D &d = static_cast<D &>(*this);
			total += n;
			while (n)
			{
				const size_t take = std::min(n, D::B - pend);
				memcpy(buf + pend, p, take);
				pend += take; p += take; n -= take;
				if (pend == D::B && (!D::LAZY || n))
				{
					d.block(buf);
					pend = 0;
				}
			}
		}
		Bytes digest() const override { D d(static_cast<const D &>(*this)); return d.fin(); }
		std::unique_ptr<Model> clone() const override { return std::unique_ptr<Model>(new D(static_cast<const D &>(*this))); }
		Bytes save() const override
		{
			if (pend && !(D::LAZY && pend == D::B)) throw std::runtime_error("checkpoint off a block boundary");
			const D &d = static_cast<const D &>(*this);
			Bytes b((const uint8_t *)&d.st, (const uint8_t *)&d.st + sizeof(d.st));
			b.insert(b.end(), (const uint8_t *)&total, (const uint8_t *)(&total + 1));
			b.insert(b.end(), buf, buf + pend);
			return b;
		}
		void load(const Bytes &b) override
		{
			D &d = static_cast<D &>(*this);
			memcpy(&d.st, b.data(), sizeof(d.st));
			memcpy(&total, b.data() + sizeof(d.st), sizeof(total));
			pend = b.size() - sizeof(d.st) - sizeof(total);
			memcpy(buf, b.data() + sizeof(d.st) + sizeof(total), pend);
		}
	protected:
		using U8 = uint8_t;
		static const bool LAZY = false;
		uint64_t total = 0;
		size_t pend = 0;
		uint8_t buf[256] = {};
		// Merkle-Damgard strengthening; lenBytes of length in bits
		void strengthen(uint8_t first, size_t lenBytes, bool bigEndian)
		{
			D &d = static_cast<D &>(*this);
			Bytes pad {first};
			while ((pend + pad.size() + lenBytes) % D::B) pad.push_back(0);
			const unsigned __int128 bits = (unsigned __int128)total * 8;
			for (size_t i = 0; i < lenBytes; ++i)
			{
				const size_t k = bigEndian ? (lenBytes - 1 - i) : i;
				pad.push_back(k < 16 ? uint8_t(bits >> (8 * k)) : 0);
			}
			d.update(pad.data(), pad.size());
		}
};

// ---- MD2
struct MD2M : Blocked<MD2M>
{
	static const size_t B = 16;
	struct { uint8_t x[16], c[16]; } st = {};
	void block(const uint8_t *m)
	{
		uint8_t l = st.c[15];
		for (int j = 0; j < 16; ++j) l = st.c[j] ^= T_MD2[m[j] ^ l];
		compress(m);
	}
	void compress(const uint8_t *m)
	{
		uint8_t x[48];
		for (int i = 0; i < 16; ++i) { x[i] = st.x[i]; x[16 + i] = m[i]; x[32 + i] = st.x[i] ^ m[i]; }
		unsigned t = 0;
		for (int r = 0; r < 18; ++r)
		{
			for (int k = 0; k < 48; ++k) t = x[k] ^= T_MD2[t];
			t = (t + r) & 255;
		}
		memcpy(st.x, x, 16);
	}
	Bytes fin()
	{
		const uint8_t n = uint8_t(16 - pend);
		const Bytes pad(n, n);
		Blocked::update(pad.data(), n);
		uint8_t c[16]; memcpy(c, st.c, 16);
		compress(c);
		return Bytes(st.x, st.x + 16);
	}
};

// ---- MD4 / MD5
struct MD4M : Blocked<MD4M>
{
	static const size_t B = 64;
	struct { uint32_t h[4]; } st = {{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}};
	void block(const uint8_t *m)
	{
		uint32_t X[16], v[4];
		for (int i = 0; i < 16; ++i) X[i] = le<uint32_t>(m + 4 * i);
		memcpy(v, st.h, 16);
		static const int s[3][4] = {{3, 7, 11, 19}, {3, 5, 9, 13}, {3, 9, 11, 15}};
		static const int o3[16] = {0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15};
		for (int i = 0; i < 48; ++i)
		{
			const int r = i / 16, j = i % 16;
			uint32_t &a = v[(64 - i) & 3]; const uint32_t b = v[(65 - i) & 3], c = v[(66 - i) & 3], d = v[(67 - i) & 3];
			const int k = r == 0 ? j : r == 1 ? (j % 4) * 4 + j / 4 : o3[j];
			const uint32_t f = r == 0 ? ((b & c) | (~b & d)) : r == 1 ? ((b & c) | (b & d) | (c & d)) : (b ^ c ^ d);
			a = rol<uint32_t>(a + f + X[k] + (r == 0 ? 0 : r == 1 ? 0x5a827999 : 0x6ed9eba1), s[r][j % 4]);
		}
		for (int i = 0; i < 4; ++i) st.h[i] += v[i];
	}
	Bytes fin() { strengthen(0x80, 8, false); Bytes o; for (auto w : st.h) putLe(o, w); return o; }
};
struct MD5M : Blocked<MD5M>
{
	static const size_t B = 64;
	struct { uint32_t h[4]; } st = {{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}};
	void block(const uint8_t *m)
	{
		uint32_t X[16];
		for (int i = 0; i < 16; ++i) X[i] = le<uint32_t>(m + 4 * i);
		uint32_t a = st.h[0], b = st.h[1], c = st.h[2], d = st.h[3];
		static const int s[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
		for (int i = 0; i < 64; ++i)
		{
			uint32_t f; int g;
			switch (i / 16)
			{
				case 0: f = (b & c) | (~b & d); g = i; break;
				case 1: f = (d & b) | (~d & c); g = (5 * i + 1) % 16; break;
				case 2: f = b ^ c ^ d; g = (3 * i + 5) % 16; break;
				default: f = c ^ (b | ~d); g = (7 * i) % 16;
			}
			const uint32_t t = d; d = c; c = b;
			b = b + rol<uint32_t>(a + f + T_MD5K[i] + X[g], s[i / 16][i % 4]);
			a = t;
		}
		st.h[0] += a; st.h[1] += b; st.h[2] += c; st.h[3] += d;
	}
	Bytes fin() { strengthen(0x80, 8, false); Bytes o; for (auto w : st.h) putLe(o, w); return o; }
};

// ---- SHA-1 / HAS-160
struct SHA1M : Blocked<SHA1M>
{
	static const size_t B = 64;
	struct { uint32_t h[5]; } st = {{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}};
	void block(const uint8_t *m)
	{
		uint32_t w[80];
		for (int i = 0; i < 16; ++i) w[i] = be<uint32_t>(m + 4 * i);
		for (int i = 16; i < 80; ++i) w[i] = rol<uint32_t>(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t a = st.h[0], b = st.h[1], c = st.h[2], d = st.h[3], e = st.h[4];
		for (int i = 0; i < 80; ++i)
		{
			const uint32_t f = i < 20 ? ((b & c) | (~b & d)) : i < 40 ? (b ^ c ^ d) : i < 60 ? ((b & c) | (b & d) | (c & d)) : (b ^ c ^ d);
			const uint32_t k = i < 20 ? 0x5a827999 : i < 40 ? 0x6ed9eba1 : i < 60 ? 0x8f1bbcdc : 0xca62c1d6;
			const uint32_t t = rol(a, 5) + f + e + k + w[i];
			e = d; d = c; c = rol(b, 30); b = a; a = t;
		}
		st.h[0] += a; st.h[1] += b; st.h[2] += c; st.h[3] += d; st.h[4] += e;
	}
	Bytes fin() { strengthen(0x80, 8, true); Bytes o; for (auto w : st.h) putBe(o, w); return o; }
};
struct HASM : Blocked<HASM>
{
	static const size_t B = 64;
	struct { uint32_t h[5]; } st = {{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}};
	void block(const uint8_t *m)
	{
		static const int ord[4][20] = {
			{18, 0, 1, 2, 3, 19, 4, 5, 6, 7, 16, 8, 9, 10, 11, 17, 12, 13, 14, 15},
			{18, 3, 6, 9, 12, 19, 15, 2, 5, 8, 16, 11, 14, 1, 4, 17, 7, 10, 13, 0},
			{18, 12, 5, 14, 7, 19, 0, 9, 2, 11, 16, 4, 13, 6, 15, 17, 8, 1, 10, 3},
			{18, 7, 2, 13, 8, 19, 3, 14, 9, 4, 16, 15, 10, 5, 0, 17, 11, 6, 1, 12}};
		static const int s1[20] = {5, 11, 7, 15, 6, 13, 8, 14, 7, 12, 9, 11, 8, 15, 6, 12, 9, 14, 5, 13};
		static const int s2[4] = {10, 17, 25, 30};
		static const uint32_t K[4] = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc};
		uint32_t X[20];
		for (int i = 0; i < 16; ++i) X[i] = le<uint32_t>(m + 4 * i);
		uint32_t a = st.h[0], b = st.h[1], c = st.h[2], d = st.h[3], e = st.h[4];
		for (int r = 0; r < 4; ++r)
		{
			// the four extra words are the xor of the four words that follow them, one group on
			const int *o = ord[r];
			auto x4 = [&](int p) { return X[o[p]] ^ X[o[p + 1]] ^ X[o[p + 2]] ^ X[o[p + 3]]; };
			X[16] = x4(1); X[17] = x4(6); X[18] = x4(11); X[19] = x4(16);
			for (int j = 0; j < 20; ++j)
			{
				const uint32_t f = r == 0 ? ((b & c) | (~b & d)) : r == 2 ? (c ^ (b | ~d)) : (b ^ c ^ d);
				const uint32_t t = rol<uint32_t>(a, s1[j]) + f + e + X[o[j]] + K[r];
				e = d; d = c; c = rol<uint32_t>(b, s2[r]); b = a; a = t;
			}
		}
		st.h[0] += a; st.h[1] += b; st.h[2] += c; st.h[3] += d; st.h[4] += e;
	}
	Bytes fin() { strengthen(0x80, 8, false); Bytes o; for (auto w : st.h) putLe(o, w); return o; }
};

// ---- SHA-2
struct SHA256M : Blocked<SHA256M>
{
	static const size_t B = 64;
	struct { uint32_t h[8]; } st;
	size_t out;
	SHA256M(const uint32_t *iv, size_t o) : out(o) { memcpy(st.h, iv, 32); }
	void block(const uint8_t *m)
	{
		uint32_t w[64];
		for (int i = 0; i < 16; ++i) w[i] = be<uint32_t>(m + 4 * i);
		for (int i = 16; i < 64; ++i)
		{
			const uint32_t x = w[i - 15], y = w[i - 2];
			w[i] = w[i - 16] + (rr(x, 7) ^ rr(x, 18) ^ (x >> 3)) + w[i - 7] + (rr(y, 17) ^ rr(y, 19) ^ (y >> 10));
		}
		uint32_t v[8]; memcpy(v, st.h, 32);
		for (int i = 0; i < 64; ++i)
		{
			const uint32_t t1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + T_K256[i] + w[i];
			const uint32_t t2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			memmove(v + 1, v, 28);
			v[4] += t1; v[0] = t1 + t2;
		}
		for (int i = 0; i < 8; ++i) st.h[i] += v[i];
	}
	Bytes fin() { strengthen(0x80, 8, true); Bytes o; for (auto w : st.h) putBe(o, w); o.resize(out); return o; }
};
struct SHA512M : Blocked<SHA512M>
{
	static const size_t B = 128;
	struct { uint64_t h[8]; } st;
	size_t out;
	SHA512M(const uint64_t *iv, size_t o) : out(o) { memcpy(st.h, iv, 64); }
	void block(const uint8_t *m)
	{
		uint64_t w[80];
		for (int i = 0; i < 16; ++i) w[i] = be<uint64_t>(m + 8 * i);
		for (int i = 16; i < 80; ++i)
		{
			const uint64_t x = w[i - 15], y = w[i - 2];
			w[i] = w[i - 16] + (rr(x, 1) ^ rr(x, 8) ^ (x >> 7)) + w[i - 7] + (rr(y, 19) ^ rr(y, 61) ^ (y >> 6));
		}
		uint64_t v[8]; memcpy(v, st.h, 64);
		for (int i = 0; i < 80; ++i)
		{
			const uint64_t t1 = v[7] + (rr(v[4], 14) ^ rr(v[4], 18) ^ rr(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + T_K512[i] + w[i];
			const uint64_t t2 = (rr(v[0], 28) ^ rr(v[0], 34) ^ rr(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			memmove(v + 1, v, 56);
			v[4] += t1; v[0] = t1 + t2;
		}
		for (int i = 0; i < 8; ++i) st.h[i] += v[i];
	}
	Bytes fin() { strengthen(0x80, 16, true); Bytes o; for (auto w : st.h) putBe(o, w); o.resize(out); return o; }
};
std::unique_ptr<Model> sha512t(int t)
{
	uint64_t iv[8];
	for (int i = 0; i < 8; ++i) iv[i] = T_IV512[i] ^ 0xa5a5a5a5a5a5a5a5ull;
	SHA512M g(iv, 64);
	const std::string s = "SHA-512/" + std::to_string(t);
	g.update((const uint8_t *)s.data(), s.size());
	const Bytes d = g.digest();
	for (int i = 0; i < 8; ++i) iv[i] = be<uint64_t>(&d[8 * i]);
	return std::unique_ptr<Model>(new SHA512M(iv, t / 8));
}

// ---- RIPEMD family
static const int RMD_R[80] = {
	0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
	7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
	3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
	1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
	4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13};
static const int RMD_RP[80] = {
	5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
	6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
	15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
	8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
	12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11};
static const int RMD_S[80] = {
	11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
	7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
	11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
	11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
	9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6};
static const int RMD_SP[80] = {
	8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
	9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
	9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
	15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
	8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11};
static const uint32_t RMD_K[5] = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e};
uint32_t rmdF(int i, uint32_t x, uint32_t y, uint32_t z)
{
	switch (i)
	{
		case 0: return x ^ y ^ z;
		case 1: return (x & y) | (~x & z);
		case 2: return (x | ~y) ^ z;
		case 3: return (x & z) | (y & ~z);
		default: return x ^ (y | ~z);
	}
}
// W = words per line (4 or 5), DBL = 256/320-bit double-line variants
template <int W, bool DBL>
struct RMDM : Blocked<RMDM<W, DBL>>
{
	static const size_t B = 64;
	struct { uint32_t h[10]; } st = {};
	RMDM()
	{
		static const uint32_t l[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
		static const uint32_t r[5] = {0x76543210, 0xfedcba98, 0x89abcdef, 0x01234567, 0x3c2d1e0f};
		for (int i = 0; i < W; ++i) { st.h[i] = l[i]; if (DBL) st.h[W + i] = r[i]; }
	}
	void block(const uint8_t *m)
	{
		uint32_t X[16], a[5], b[5];
		for (int i = 0; i < 16; ++i) X[i] = le<uint32_t>(m + 4 * i);
		for (int i = 0; i < W; ++i) { a[i] = st.h[i]; b[i] = DBL ? st.h[W + i] : st.h[i]; }
		const int rounds = W == 4 ? 4 : 5;
		static const uint32_t KP4[4] = {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0};
		static const uint32_t KP5[5] = {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0};
		for (int r = 0; r < rounds; ++r)
		{
			for (int j = 0; j < 16; ++j)
			{
				const int i = 16 * r + j;
				if (W == 4)
				{
					uint32_t t = rol<uint32_t>(a[0] + rmdF(r, a[1], a[2], a[3]) + X[RMD_R[i]] + RMD_K[r], RMD_S[i]);
					a[0] = a[3]; a[3] = a[2]; a[2] = a[1]; a[1] = t;
					t = rol<uint32_t>(b[0] + rmdF(3 - r, b[1], b[2], b[3]) + X[RMD_RP[i]] + KP4[r], RMD_SP[i]);
					b[0] = b[3]; b[3] = b[2]; b[2] = b[1]; b[1] = t;
				}
				else
				{
					uint32_t t = rol<uint32_t>(a[0] + rmdF(r, a[1], a[2], a[3]) + X[RMD_R[i]] + RMD_K[r], RMD_S[i]) + a[4];
					a[0] = a[4]; a[4] = a[3]; a[3] = rol(a[2], 10); a[2] = a[1]; a[1] = t;
					t = rol<uint32_t>(b[0] + rmdF(4 - r, b[1], b[2], b[3]) + X[RMD_RP[i]] + KP5[r], RMD_SP[i]) + b[4];
					b[0] = b[4]; b[4] = b[3]; b[3] = rol(b[2], 10); b[2] = b[1]; b[1] = t;
				}
			}
			if (DBL)
			{
				static const int sw4[4] = {0, 1, 2, 3}, sw5[5] = {1, 3, 0, 2, 4};
				const int k = W == 4 ? sw4[r] : sw5[r];
				std::swap(a[k], b[k]);
			}
		}
		if (DBL) { for (int i = 0; i < W; ++i) { st.h[i] += a[i]; st.h[W + i] += b[i]; } }
		else
		{
			uint32_t n[5];
			for (int i = 0; i < W; ++i) n[i] = st.h[(i + 1) % W] + a[(i + 2) % W] + b[(i + 3) % W];
			memcpy(st.h, n, 4 * W);
		}
	}
	Bytes fin()
	{
		this->strengthen(0x80, 8, false);
		Bytes o;
		for (int i = 0; i < (DBL ? 2 * W : W); ++i) putLe(o, st.h[i]);
		return o;
	}
};

// ---- Tiger: S-boxes produced by the designers' generator
struct TigerTables
{
	uint64_t t[1024];
	static void key(uint64_t x[8])
	{
		x[0] -= x[7] ^ 0xa5a5a5a5a5a5a5a5ull; x[1] ^= x[0]; x[2] += x[1]; x[3] -= x[2] ^ ((~x[1]) << 19);
		x[4] ^= x[3]; x[5] += x[4]; x[6] -= x[5] ^ ((~x[4]) >> 23); x[7] ^= x[6];
		x[0] += x[7]; x[1] -= x[0] ^ ((~x[7]) << 19); x[2] ^= x[1]; x[3] += x[2];
		x[4] -= x[3] ^ ((~x[2]) >> 23); x[5] ^= x[4]; x[6] += x[5]; x[7] -= x[6] ^ 0x0123456789abcdefull;
	}
	void compress(const uint8_t *m, uint64_t s[3]) const
	{
		uint64_t x[8], v[3] = {s[0], s[1], s[2]};
		for (int i = 0; i < 8; ++i) x[i] = le<uint64_t>(m + 8 * i);
		for (int p = 0; p < 3; ++p)
		{
			if (p) key(x);
			const uint64_t mul = p == 0 ? 5 : p == 1 ? 7 : 9;
			for (int i = 0; i < 8; ++i)
			{
				uint64_t &a = v[(i + 3 - p) % 3], &b = v[(i + 4 - p) % 3], &c = v[(i + 5 - p) % 3];
				c ^= x[i];
				auto by = [&](int k) { return (c >> (8 * k)) & 255; };
				a -= t[by(0)] ^ t[256 + by(2)] ^ t[512 + by(4)] ^ t[768 + by(6)];
				b += t[768 + by(1)] ^ t[512 + by(3)] ^ t[256 + by(5)] ^ t[by(7)];
				b *= mul;
			}
			// the published code rotates register roles a<-c, b<-a, c<-b between passes:
			// folded into the (i + k - p) indexing above
		}
		s[0] ^= v[0]; s[1] = v[1] - s[1]; s[2] += v[2];
	}
	TigerTables()
	{
		for (int i = 0; i < 1024; ++i) t[i] = 0x0101010101010101ull * (i & 255);
		uint64_t s[3] = {0x0123456789abcdefull, 0xfedcba9876543210ull, 0xf096a5b4c3b2e187ull};
		static const char seed[] = "Tiger - A Fast New Hash Function, by Ross Anderson and Eli Biham";
		int abc = 2;
		for (int pass = 0; pass < 5; ++pass)
			for (int i = 0; i < 256; ++i)
				for (int sb = 0; sb < 1024; sb += 256)
				{
					if (++abc == 3) { abc = 0; compress((const uint8_t *)seed, s); }
					for (int col = 0; col < 8; ++col)
					{
						const uint64_t mask = 0xffull << (8 * col);
						const int o = sb + ((s[abc] >> (8 * col)) & 255);
						const uint64_t d = (t[sb + i] ^ t[o]) & mask;
						t[sb + i] ^= d; t[o] ^= d;
					}
				}
	}
};
const TigerTables &tigerTables() { static const TigerTables T; return T; }
struct TigerM : Blocked<TigerM>
{
	static const size_t B = 64;
	struct { uint64_t h[3]; } st = {{0x0123456789abcdefull, 0xfedcba9876543210ull, 0xf096a5b4c3b2e187ull}};
	uint8_t pad; size_t out;
	TigerM(uint8_t p, size_t o) : pad(p), out(o) {}
	void block(const uint8_t *m) { tigerTables().compress(m, st.h); }
	Bytes fin() { strengthen(pad, 8, false); Bytes o; for (auto w : st.h) putLe(o, w); o.resize(out); return o; }
};

// ---- Whirlpool (final, ISO version)
struct WTab
{
	uint8_t s[256]; uint64_t c[8][256];
	WTab()
	{
		static const uint8_t E[16] = {1, 11, 9, 12, 13, 6, 15, 3, 14, 8, 7, 4, 10, 2, 5, 0};
		static const uint8_t R[16] = {7, 12, 11, 13, 14, 4, 9, 15, 6, 3, 8, 10, 2, 5, 1, 0};
		uint8_t I[16];
		for (int i = 0; i < 16; ++i) I[E[i]] = uint8_t(i);
		for (int x = 0; x < 256; ++x)
		{
			const uint8_t u = E[x >> 4], l = I[x & 15], r = R[u ^ l];
			s[x] = uint8_t(E[u ^ r] << 4 | I[l ^ r]);
		}
		static const int cir[8] = {1, 1, 4, 1, 8, 5, 2, 9};
		for (int k = 0; k < 8; ++k)
			for (int x = 0; x < 256; ++x)
			{
				uint64_t row = 0;
				for (int j = 0; j < 8; ++j)
				{
					unsigned a = s[x], m = cir[(j - k + 8) % 8], p = 0;
					for (; m; m >>= 1) { if (m & 1) p ^= a; a <<= 1; if (a & 256) a ^= 0x11d; }
					row = row << 8 | p;
				}
				c[k][x] = row;
			}
	}
};
const WTab &wtab() { static const WTab T; return T; }
struct WhirlM : Blocked<WhirlM>
{
	static const size_t B = 64;
	struct { uint64_t h[8]; } st = {};
	static void rho(const uint64_t in[8], const uint64_t k[8], uint64_t out[8])
	{
		const WTab &T = wtab();
		for (int i = 0; i < 8; ++i)
		{
			uint64_t v = k[i];
			for (int j = 0; j < 8; ++j) v ^= T.c[j][(in[(i - j + 8) % 8] >> (56 - 8 * j)) & 255];
			out[i] = v;
		}
	}
	void block(const uint8_t *m)
	{
		uint64_t M[8], K[8], S[8], t[8];
		for (int i = 0; i < 8; ++i) { M[i] = be<uint64_t>(m + 8 * i); K[i] = st.h[i]; S[i] = M[i] ^ K[i]; }
		for (int r = 0; r < 10; ++r)
		{
			uint64_t rc[8] = {};
			for (int j = 0; j < 8; ++j) rc[0] = rc[0] << 8 | wtab().s[8 * r + j];
			rho(K, rc, t); memcpy(K, t, 64);
			rho(S, K, t); memcpy(S, t, 64);
		}
		for (int i = 0; i < 8; ++i) st.h[i] ^= S[i] ^ M[i];
	}
	Bytes fin() { strengthen(0x80, 32, true); Bytes o; for (auto w : st.h) putBe(o, w); return o; }
};

// ---- SM3
struct SM3M : Blocked<SM3M>
{
	static const size_t B = 64;
	struct { uint32_t h[8]; } st = {{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}};
	static uint32_t P0(uint32_t x) { return x ^ rol(x, 9) ^ rol(x, 17); }
	static uint32_t P1(uint32_t x) { return x ^ rol(x, 15) ^ rol(x, 23); }
	void block(const uint8_t *m)
	{
		uint32_t w[68];
		for (int i = 0; i < 16; ++i) w[i] = be<uint32_t>(m + 4 * i);
		for (int i = 16; i < 68; ++i) w[i] = P1(w[i - 16] ^ w[i - 9] ^ rol(w[i - 3], 15)) ^ rol(w[i - 13], 7) ^ w[i - 6];
		uint32_t a = st.h[0], b = st.h[1], c = st.h[2], d = st.h[3], e = st.h[4], f = st.h[5], g = st.h[6], h = st.h[7];
		for (int j = 0; j < 64; ++j)
		{
			const uint32_t T = j < 16 ? 0x79cc4519 : 0x7a879d8a;
			const uint32_t ss1 = rol<uint32_t>(rol(a, 12) + e + rol(T, j % 32), 7), ss2 = ss1 ^ rol(a, 12);
			const uint32_t ff = j < 16 ? a ^ b ^ c : (a & b) | (a & c) | (b & c);
			const uint32_t gg = j < 16 ? e ^ f ^ g : (e & f) | (~e & g);
			const uint32_t t1 = ff + d + ss2 + (w[j] ^ w[j + 4]), t2 = gg + h + ss1 + w[j];
			d = c; c = rol(b, 9); b = a; a = t1; h = g; g = rol(f, 19); f = e; e = P0(t2);
		}
		const uint32_t v[8] = {a, b, c, d, e, f, g, h};
		for (int i = 0; i < 8; ++i) st.h[i] ^= v[i];
	}
	Bytes fin() { strengthen(0x80, 8, true); Bytes o; for (auto w : st.h) putBe(o, w); return o; }
};

// ---- BLAKE (SHA-3 finalist) and BLAKE2
static const int BSIG[10][16] = {
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
static const int BG[8][4] = {{0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15}, {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}};
template <typename T> const T *blakePi();
template <> const uint32_t *blakePi<uint32_t>() { return T_PI32; }
template <> const uint64_t *blakePi<uint64_t>() { return T_PI64; }
template <typename T>
struct BlakeM : Blocked<BlakeM<T>>
{
	static const size_t B = 16 * sizeof(T);
	struct { T h[8]; } st;
	size_t out; bool full;
	BlakeM(const T *iv, size_t o, bool f) : out(o), full(f) { memcpy(st.h, iv, sizeof(st.h)); }
	uint64_t done = 0;   // message bytes compressed so far
	void block(const uint8_t *m) { done += B; compress(m, (unsigned __int128)done * 8); }
	void compress(const uint8_t *m, unsigned __int128 t)
	{
		const T *c = blakePi<T>();
		T M[16], v[16];
		for (int i = 0; i < 16; ++i) M[i] = be<T>(m + sizeof(T) * i);
		for (int i = 0; i < 8; ++i) { v[i] = st.h[i]; v[8 + i] = c[i]; }
		const int W = sizeof(T) * 8;
		v[12] ^= T(t); v[13] ^= T(t); v[14] ^= T(t >> W); v[15] ^= T(t >> W);
		const int rounds = W == 32 ? 14 : 16;
		const int R[4] = {W == 32 ? 16 : 32, W == 32 ? 12 : 25, W == 32 ? 8 : 16, W == 32 ? 7 : 11};
		for (int r = 0; r < rounds; ++r)
			for (int i = 0; i < 8; ++i)
			{
				const int *s = BSIG[r % 10];
				T &a = v[BG[i][0]], &b = v[BG[i][1]], &cc = v[BG[i][2]], &d = v[BG[i][3]];
				a += b + (M[s[2 * i]] ^ c[s[2 * i + 1]]); d = rr<T>(d ^ a, R[0]); cc += d; b = rr<T>(b ^ cc, R[1]);
				a += b + (M[s[2 * i + 1]] ^ c[s[2 * i]]); d = rr<T>(d ^ a, R[2]); cc += d; b = rr<T>(b ^ cc, R[3]);
			}
		for (int i = 0; i < 8; ++i) st.h[i] ^= v[i] ^ v[8 + i];
	}
	Bytes fin()
	{
		const size_t lenB = 2 * sizeof(T);
		const unsigned __int128 bits = (unsigned __int128)this->total * 8;
		Bytes tail(this->buf, this->buf + this->pend);
		const bool hasMsg = !tail.empty();
		tail.push_back(0x80);
		while ((tail.size() + lenB) % B) tail.push_back(0);
		if (full) tail[tail.size() - 1] |= 1;
		for (size_t i = 0; i < lenB; ++i) tail.push_back(uint8_t(bits >> (8 * (lenB - 1 - i))));
		for (size_t o = 0; o < tail.size(); o += B)
			compress(&tail[o], (o == 0 && hasMsg) ? bits : 0);
		Bytes o;
		for (auto w : st.h) putBe(o, w);
		o.resize(out);
		return o;
	}
	void load(const Bytes &b) override { Blocked<BlakeM<T>>::load(b); done = this->total; }
};
template <typename T>
struct Blake2M : Blocked<Blake2M<T>>
{
	static const size_t B = 16 * sizeof(T);
	static const bool LAZY = true;
	struct { T h[8]; uint64_t done; } st;
	const T *iv;
	Blake2M(const T *i) : iv(i)
	{
		memcpy(st.h, i, sizeof(st.h));
		st.h[0] ^= T(0x01010000 ^ (8 * sizeof(T)));
		st.done = 0;
	}
	void block(const uint8_t *m) { st.done += B; compress(m, st.done, false); }
	void compress(const uint8_t *m, uint64_t t, bool last)
	{
		T M[16], v[16];
		for (int i = 0; i < 16; ++i) M[i] = le<T>(m + sizeof(T) * i);
		for (int i = 0; i < 8; ++i) { v[i] = st.h[i]; v[8 + i] = iv[i]; }
		v[12] ^= T(t);
		if (sizeof(T) == 4) v[13] ^= T(t >> 32);
		if (last) v[14] = ~v[14];
		const int W = sizeof(T) * 8;
		const int rounds = W == 32 ? 10 : 12;
		const int R[4] = {W == 32 ? 16 : 32, W == 32 ? 12 : 24, W == 32 ? 8 : 16, W == 32 ? 7 : 63};
		for (int r = 0; r < rounds; ++r)
			for (int i = 0; i < 8; ++i)
			{
				const int *s = BSIG[r % 10];
				T &a = v[BG[i][0]], &b = v[BG[i][1]], &c = v[BG[i][2]], &d = v[BG[i][3]];
				a += b + M[s[2 * i]]; d = rr<T>(d ^ a, R[0]); c += d; b = rr<T>(b ^ c, R[1]);
				a += b + M[s[2 * i + 1]]; d = rr<T>(d ^ a, R[2]); c += d; b = rr<T>(b ^ c, R[3]);
			}
		for (int i = 0; i < 8; ++i) st.h[i] ^= v[i] ^ v[8 + i];
	}
	Bytes fin()
	{
		memset(this->buf + this->pend, 0, B - this->pend);
		compress(this->buf, this->total, true);
		Bytes o;
		for (auto w : st.h) putLe(o, w);
		return o;
	}
};

// ---- CRC-32 / FNV / SipHash
struct CrcM : Model
{
	uint32_t c = 0xffffffffu;
	static const uint32_t *tab()
	{
		static const struct Tb { uint32_t t[256]; Tb() { for (uint32_t i = 0; i < 256; ++i) { uint32_t x = i; for (int k = 0; k < 8; ++k) x = (x & 1) ? (x >> 1) ^ 0xedb88320u : x >> 1; t[i] = x; } } } T;
		return T.t;
	}
	void update(const uint8_t *p, size_t n) override { const uint32_t *t = tab(); for (size_t i = 0; i < n; ++i) c = t[(c ^ p[i]) & 255] ^ (c >> 8); }
	Bytes digest() const override { Bytes o; putBe<uint32_t>(o, ~c); return o; }
	std::unique_ptr<Model> clone() const override { return std::unique_ptr<Model>(new CrcM(*this)); }
	Bytes save() const override { Bytes o; putBe(o, c); return o; }
	void load(const Bytes &b) override { c = be<uint32_t>(b.data()); }
};
template <typename T>
struct FnvM : Model
{
	int variant; T h;
	FnvM(int v) : variant(v), h(v == 0 ? T(0) : sizeof(T) == 4 ? T(0x811c9dc5u) : T(0xcbf29ce484222325ull)) {}
	void update(const uint8_t *p, size_t n) override
	{
		const T prime = sizeof(T) == 4 ? T(0x01000193u) : T(0x100000001b3ull);
		for (size_t i = 0; i < n; ++i) { if (variant == 2) { h ^= p[i]; h *= prime; } else { h *= prime; h ^= p[i]; } }
	}
	Bytes digest() const override { Bytes o; putBe(o, h); return o; }
	std::unique_ptr<Model> clone() const override { return std::unique_ptr<Model>(new FnvM(*this)); }
	Bytes save() const override { Bytes o; putBe(o, h); return o; }
	void load(const Bytes &b) override { h = be<T>(b.data()); }
};
struct SipM : Blocked<SipM>
{
	static const size_t B = 8;
	struct { uint64_t v[4]; } st;
	SipM(const Bytes &key)
	{
		const uint64_t k0 = le<uint64_t>(key.data()), k1 = le<uint64_t>(key.data() + 8);
		st.v[0] = k0 ^ 0x736f6d6570736575ull; st.v[1] = k1 ^ 0x646f72616e646f6dull;
		st.v[2] = k0 ^ 0x6c7967656e657261ull; st.v[3] = k1 ^ 0x7465646279746573ull;
	}
	void round()
	{
		uint64_t *v = st.v;
		v[0] += v[1]; v[2] += v[3]; v[1] = rol(v[1], 13) ^ v[0]; v[3] = rol(v[3], 16) ^ v[2]; v[0] = rol(v[0], 32);
		v[2] += v[1]; v[0] += v[3]; v[1] = rol(v[1], 17) ^ v[2]; v[3] = rol(v[3], 21) ^ v[0]; v[2] = rol(v[2], 32);
	}
	void word(uint64_t m) { st.v[3] ^= m; round(); round(); st.v[0] ^= m; }
	void block(const uint8_t *m) { word(le<uint64_t>(m)); }
	Bytes fin()
	{
		uint64_t b = total << 56;
		for (size_t i = 0; i < pend; ++i) b |= uint64_t(buf[i]) << (8 * i);
		word(b);
		st.v[2] ^= 0xff;
		for (int i = 0; i < 4; ++i) round();
		Bytes o;
		putBe(o, st.v[0] ^ st.v[1] ^ st.v[2] ^ st.v[3]);
		return o;
	}
};

// ---- Keccak
void keccakF(uint64_t s[25])
{
	// LFSR-generated round constants, rho/pi walked as in FIPS 202
	uint8_t lfsr = 1;
	for (int round = 0; round < 24; ++round)
	{
		uint64_t C[5];
		for (int x = 0; x < 5; ++x) C[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
		for (int x = 0; x < 5; ++x) { const uint64_t d = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1); for (int y = 0; y < 5; ++y) s[x + 5 * y] ^= d; }
		int x = 1, y = 0; uint64_t cur = s[1];
		for (int t = 0; t < 24; ++t)
		{
			const int ny = (2 * x + 3 * y) % 5; x = y; y = ny;
			const uint64_t nxt = s[x + 5 * y]; s[x + 5 * y] = rol(cur, ((t + 1) * (t + 2) / 2) % 64); cur = nxt;
		}
		for (y = 0; y < 5; ++y)
		{
			uint64_t r[5]; for (x = 0; x < 5; ++x) r[x] = s[x + 5 * y];
			for (x = 0; x < 5; ++x) s[x + 5 * y] = r[x] ^ (~r[(x + 1) % 5] & r[(x + 2) % 5]);
		}
		for (int j = 0; j < 7; ++j)
		{
			if (lfsr & 1) s[0] ^= 1ull << ((1 << j) - 1);
			lfsr = uint8_t((lfsr << 1) ^ ((lfsr & 0x80) ? 0x71 : 0));
		}
	}
}
struct KeccakM : Model
{
	struct { uint64_t s[25]; size_t pos; } st = {};
	size_t rate, out; uint8_t suffix;
	KeccakM(size_t r, size_t o, uint8_t sf) : rate(r), out(o), suffix(sf) {}
	void absorb(uint8_t b) { st.s[st.pos / 8] ^= uint64_t(b) << (8 * (st.pos % 8)); if (++st.pos == rate) { keccakF(st.s); st.pos = 0; } }
	void update(const uint8_t *p, size_t n) override { for (size_t i = 0; i < n; ++i) absorb(p[i]); }
	Bytes digest() const override
	{
		KeccakM k(*this);
		k.st.s[k.st.pos / 8] ^= uint64_t(suffix) << (8 * (k.st.pos % 8));
		k.st.s[(rate - 1) / 8] ^= 0x80ull << (8 * ((rate - 1) % 8));
		keccakF(k.st.s);
		Bytes o;
		for (size_t pos = 0; o.size() < out; ++pos)
		{
			if (pos == rate) { keccakF(k.st.s); pos = 0; }
			o.push_back(uint8_t(k.st.s[pos / 8] >> (8 * (pos % 8))));
		}
		return o;
	}
	std::unique_ptr<Model> clone() const override { return std::unique_ptr<Model>(new KeccakM(*this)); }
	Bytes save() const override { return Bytes((const uint8_t *)&st, (const uint8_t *)(&st + 1)); }
	void load(const Bytes &b) override { memcpy(&st, b.data(), sizeof(st)); }
};
// SP 800-185
Bytes minimalBe(uint64_t v) { Bytes o; for (int i = 7; i >= 0; --i) if (!o.empty() || (v >> (8 * i)) & 255 || i == 0) o.push_back(uint8_t(v >> (8 * i))); return o; }
Bytes leftEnc(uint64_t v) { Bytes m = minimalBe(v); m.insert(m.begin(), uint8_t(m.size())); return m; }
Bytes rightEnc(uint64_t v) { Bytes m = minimalBe(v); m.push_back(uint8_t(m.size())); return m; }
std::unique_ptr<KeccakM> cshake(size_t rate, size_t out, const Bytes &N, const Bytes &S)
{
	if (N.empty() && S.empty()) return std::unique_ptr<KeccakM>(new KeccakM(rate, out, 0x1f));
	std::unique_ptr<KeccakM> k(new KeccakM(rate, out, 0x04));
	Bytes p = leftEnc(rate);
	auto enc = [&](const Bytes &x) { const Bytes l = leftEnc(x.size() * 8); p.insert(p.end(), l.begin(), l.end()); p.insert(p.end(), x.begin(), x.end()); };
	enc(N); enc(S);
	while (p.size() % rate) p.push_back(0);
	k->update(p.data(), p.size());
	return k;
}
struct TupleM : Model
{
	std::unique_ptr<KeccakM> k; size_t out;
	TupleM(size_t rate, size_t o, const Bytes &custom) : out(o)
	{
		static const char n[] = "TupleHash";
		k = cshake(rate, o, Bytes(n, n + 9), custom);
	}
	TupleM(const TupleM &o) : k(new KeccakM(*o.k)), out(o.out) {}
	void update(const uint8_t *p, size_t n) override { const Bytes l = leftEnc(uint64_t(n) * 8); k->update(l.data(), l.size()); k->update(p, n); }
	Bytes digest() const override { KeccakM c(*k); const Bytes r = rightEnc(uint64_t(out) * 8); c.update(r.data(), r.size()); return c.digest(); }
	std::unique_ptr<Model> clone() const override { return std::unique_ptr<Model>(new TupleM(*this)); }
	Bytes save() const override { return k->save(); }
	void load(const Bytes &b) override { k->load(b); }
};

struct Info { const char *name; int block; int digest; };
const Info INFO[ALGO_COUNT] = {
	{"blake1-224", 64, 28}, {"blake1-256", 64, 32}, {"blake1-384", 128, 48}, {"blake1-512", 128, 64},
	{"blake2", 128, 64}, {"blake2s", 64, 32},
	{"crc-32", 1, 4},
	{"cshake-128", 168, 0}, {"cshake-256", 136, 0},
	{"fnv32_0", 1, 4}, {"fnv32_1", 1, 4}, {"fnv32_1a", 1, 4}, {"fnv64_0", 1, 8}, {"fnv64_1", 1, 8}, {"fnv64_1a", 1, 8},
	{"has160", 64, 20},
	{"md2", 16, 16}, {"md4", 64, 16}, {"md5", 64, 16},
	{"ripemd-128", 64, 16}, {"ripemd-160", 64, 20}, {"ripemd-256", 64, 32}, {"ripemd-320", 64, 40},
	{"siphash", 8, 8},
	{"sha1", 64, 20},
	{"sha2-224", 64, 28}, {"sha2-256", 64, 32}, {"sha2-384", 128, 48}, {"sha2-512", 128, 64}, {"sha2-512-224", 128, 28}, {"sha2-512-256", 128, 32},
	{"sha3-224", 144, 28}, {"sha3-256", 136, 32}, {"sha3-384", 104, 48}, {"sha3-512", 72, 64},
	{"shake-128", 168, 0}, {"shake-256", 136, 0},
	{"sm3", 64, 32},
	{"tiger1-128", 64, 16}, {"tiger1-160", 64, 20}, {"tiger1-192", 64, 24},
	{"tiger2-128", 64, 16}, {"tiger2-160", 64, 20}, {"tiger2-192", 64, 24},
	{"tuple-hash-128", 168, 0}, {"tuple-hash-256", 136, 0},
	{"whirlpool", 64, 64}};
}  // namespace

const char *algoName(int a) { return INFO[a].name; }
int algoByName(const std::string &s) { for (int i = 0; i < ALGO_COUNT; ++i) if (s == INFO[i].name) return i; return -1; }
int blockSize(int a) { return INFO[a].block; }
int digestSize(const Spec &s) { return INFO[s.algo].digest ? INFO[s.algo].digest : s.digestLen; }
bool isTuple(int a) { return a == TUPLE128 || a == TUPLE256; }
bool hasLen(int a) { return INFO[a].digest == 0; }
bool hasCustom(int a) { return a == CSHAKE128 || a == CSHAKE256 || isTuple(a); }

std::unique_ptr<Model> make(const Spec &s)
{
	using P = std::unique_ptr<Model>;
	const size_t d = size_t(s.digestLen);
	switch (s.algo)
	{
		case BLAKE1_224: return P(new BlakeM<uint32_t>(T_IV224, 28, false));
		case BLAKE1_256: return P(new BlakeM<uint32_t>(T_IV256, 32, true));
		case BLAKE1_384: return P(new BlakeM<uint64_t>(T_IV384, 48, false));
		case BLAKE1_512: return P(new BlakeM<uint64_t>(T_IV512, 64, true));
		case BLAKE2B: return P(new Blake2M<uint64_t>(T_IV512));
		case BLAKE2S: return P(new Blake2M<uint32_t>(T_IV256));
		case CRC32: return P(new CrcM);
		case CSHAKE128: return cshake(168, d, s.name, s.custom);
		case CSHAKE256: return cshake(136, d, s.name, s.custom);
		case FNV32_0: return P(new FnvM<uint32_t>(0));
		case FNV32_1: return P(new FnvM<uint32_t>(1));
		case FNV32_1A: return P(new FnvM<uint32_t>(2));
		case FNV64_0: return P(new FnvM<uint64_t>(0));
		case FNV64_1: return P(new FnvM<uint64_t>(1));
		case FNV64_1A: return P(new FnvM<uint64_t>(2));
		case HAS160: return P(new HASM);
		case MD2: return P(new MD2M);
		case MD4: return P(new MD4M);
		case MD5: return P(new MD5M);
		case RMD128: return P(new RMDM<4, false>);
		case RMD160: return P(new RMDM<5, false>);
		case RMD256: return P(new RMDM<4, true>);
		case RMD320: return P(new RMDM<5, true>);
		case SIPHASH: return P(new SipM(s.key));
		case SHA1: return P(new SHA1M);
		case SHA2_224: return P(new SHA256M(T_IV224, 28));
		case SHA2_256: return P(new SHA256M(T_IV256, 32));
		case SHA2_384: return P(new SHA512M(T_IV384, 48));
		case SHA2_512: return P(new SHA512M(T_IV512, 64));
		case SHA2_512_224: return sha512t(224);
		case SHA2_512_256: return sha512t(256);
		case SHA3_224: return P(new KeccakM(144, 28, 0x06));
		case SHA3_256: return P(new KeccakM(136, 32, 0x06));
		case SHA3_384: return P(new KeccakM(104, 48, 0x06));
		case SHA3_512: return P(new KeccakM(72, 64, 0x06));
		case SHAKE128: return P(new KeccakM(168, d, 0x1f));
		case SHAKE256: return P(new KeccakM(136, d, 0x1f));
		case SM3: return P(new SM3M);
		case TIGER1_128: return P(new TigerM(0x01, 16));
		case TIGER1_160: return P(new TigerM(0x01, 20));
		case TIGER1_192: return P(new TigerM(0x01, 24));
		case TIGER2_128: return P(new TigerM(0x80, 16));
		case TIGER2_160: return P(new TigerM(0x80, 20));
		case TIGER2_192: return P(new TigerM(0x80, 24));
		case TUPLE128: return P(new TupleM(168, d, s.custom));
		case TUPLE256: return P(new TupleM(136, d, s.custom));
		case WHIRLPOOL: return P(new WhirlM);
	}
	return nullptr;
}

std::string hex(const Bytes &b)
{
	static const char *d = "0123456789abcdef";
	std::string s;
	for (auto c : b) { s += d[c >> 4]; s += d[c & 15]; }
	return s;
}
Bytes unhex(const std::string &s)
{
	Bytes b;
	for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(uint8_t(std::stoi(s.substr(i, 2), nullptr, 16)));
	return b;
}
}
