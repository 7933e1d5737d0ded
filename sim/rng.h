#pragma once
#include <cstdint>
inline uint64_t mix64(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed) : s(mix64(seed)) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
	bool chance(unsigned percent) { return below(100) < percent; }
	bool permille(unsigned p) { return below(1000) < p; }
};
inline uint64_t hashStr(const char *s) { uint64_t h = 0xcbf29ce484222325ull; for (; *s; ++s) { h ^= uint8_t(*s); h *= 0x100000001b3ull; } return h; }
// the run's only source of choices: (VERIF_SEED, profile, run index)
inline uint64_t runSeed(uint64_t seed, const char *profile, uint64_t idx) { return mix64(mix64(seed ^ hashStr(profile)) + idx * 0x9e3779b97f4a7c15ull); }
// deterministic content of a piece
inline void patternedContent(uint8_t *p, uint64_t n, uint64_t seed)
{
	Rng r(seed);
	switch (seed % 16)
	{
		case 5:   // equal blocks one after the other
		{
			static const uint64_t periods[] = {2, 4, 8, 16, 32, 64, 128, 72, 104, 136, 144, 168};
			const uint64_t period = periods[r.below(12)];
			for (uint64_t i = 0; i < n; ++i) p[i] = i < period ? uint8_t(r.next()) : p[i - period];
			return;
		}
		case 6:   // a few bits in a sea of zeros or ones
		{
			const uint8_t sea = r.chance(50) ? 0 : 0xff;
			for (uint64_t i = 0; i < n; ++i) p[i] = sea;
			for (int k = int(r.below(6)); n && k >= 0; --k) p[r.below(n)] ^= uint8_t(1u << r.below(8));
			return;
		}
		case 8:   // text
			for (uint64_t i = 0; i < n; ++i) { const uint64_t v = r.below(100); p[i] = v < 2 ? '\n' : v < 3 ? '\r' : v < 20 ? ' ' : uint8_t(r.range(33, 126)); }
			return;
		default:  // blocks of noise, zeros, ones
			for (uint64_t i = 0; i < n;)
			{
				static const uint64_t blocks[] = {8, 16, 64, 128, 136, 168};
				const uint64_t len = blocks[r.below(6)] * r.range(1, 3), kind = r.below(4);
				for (uint64_t k = 0; k < len && i < n; ++k, ++i) p[i] = kind == 0 ? 0 : kind == 1 ? 0xff : uint8_t(r.next());
			}
			return;
	}
}
inline void fillContent(uint8_t *p, uint64_t n, uint64_t seed)
{
	switch (seed % 16)
	{
		case 1: for (uint64_t i = 0; i < n; ++i) p[i] = 0; return;
		case 2: for (uint64_t i = 0; i < n; ++i) p[i] = 0xff; return;
		case 3: for (uint64_t i = 0; i < n; ++i) p[i] = uint8_t(i); return;
		case 4: for (uint64_t i = 0; i < n; ++i) p[i] = 0x80; return;
		case 5: case 6: case 8: case 9: patternedContent(p, n, seed); return;
		default: break;
	}
	Rng r(seed);
	uint64_t i = 0;
	for (; i + 8 <= n; i += 8) { const uint64_t v = r.next(); for (int k = 0; k < 8; ++k) p[i + k] = uint8_t(v >> (8 * k)); }
	if (i < n) { const uint64_t v = r.next(); for (int k = 0; i < n; ++i, ++k) p[i] = uint8_t(v >> (8 * k)); }
}
