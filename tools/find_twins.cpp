// Development tool: finds, for every algorithm, pairs of short messages whose
// digests differ but agree in a part a careless comparison might look at.
// g++ -O2 -std=c++17 -I. tools/find_twins.cpp ref/ref.cpp -o /tmp/twins -lpthread && /tmp/twins > sim/twins.inc
#include "../ref/ref.h"
#include "../sim/rng.h"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <functional>
#include <string>
#include <thread>
#include <vector>
using ref::Bytes;
static ref::Spec specOf(int algo)
{
	// as the simulator makes it from "new x=algo y=32 z=0 w=0"
	ref::Spec s;
	s.algo = algo;
	if (ref::hasLen(algo)) s.digestLen = 32;
	if (algo == ref::SIPHASH) { s.key = Bytes(16); fillContent(s.key.data(), 16, 17); }
	return s;
}
typedef std::function<uint64_t(const uint8_t *, size_t)> Proj;
static std::vector<std::pair<std::string, Proj>> projections(size_t n)
{
	std::vector<std::pair<std::string, Proj>> r;
	auto word = [](const uint8_t *d, size_t k) { return uint64_t(d[4 * k]) << 24 | uint64_t(d[4 * k + 1]) << 16 | uint64_t(d[4 * k + 2]) << 8 | d[4 * k + 3]; };
	for (size_t k = 0; k < n / 4; ++k) r.push_back({"word " + std::to_string(k), [=](const uint8_t *d, size_t) { return word(d, k); }});
	r.push_back({"xor of words", [=](const uint8_t *d, size_t m) { uint64_t x = 0; for (size_t k = 0; k < m / 4; ++k) x ^= word(d, k); return x; }});
	r.push_back({"xor of even words", [=](const uint8_t *d, size_t m) { uint64_t x = 0; for (size_t k = 0; k < m / 4; k += 2) x ^= word(d, k); return x; }});
	r.push_back({"xor of odd words", [=](const uint8_t *d, size_t m) { uint64_t x = 0; for (size_t k = 1; k < m / 4; k += 2) x ^= word(d, k); return x; }});
	if (n >= 8) r.push_back({"first 5 bytes", [=](const uint8_t *d, size_t) { return word(d, 0) << 8 | d[4]; }});
	if (n >= 8) r.push_back({"last 5 bytes", [=](const uint8_t *d, size_t m) { return word(d, m / 4 - 1) << 8 | d[m - 5]; }});
	if (n <= 20 && n > 4)
	{
		r.push_back({"first byte of each word", [=](const uint8_t *d, size_t m) { uint64_t x = 0; for (size_t k = 0; k < m; k += 4) x = x << 8 | d[k]; return x; }});
		r.push_back({"last byte of each word", [=](const uint8_t *d, size_t m) { uint64_t x = 0; for (size_t k = 3; k < m; k += 4) x = x << 8 | d[k]; return x; }});
	}
	if (n >= 24 && n <= 40)
	{
		r.push_back({"first byte of each long word", [=](const uint8_t *d, size_t m) { uint64_t x = 0; for (size_t k = 0; k < m; k += 8) x = x << 8 | d[k]; return x; }});
		r.push_back({"last byte of each long word", [=](const uint8_t *d, size_t m) { uint64_t x = 0; for (size_t k = 7; k < m; k += 8) x = x << 8 | d[k]; return x; }});
	}
	return r;
}
static const uint32_t COUNT = 4000000;
static std::vector<std::string> work(int algo)
{
	std::vector<std::string> out;
	const ref::Spec sp = specOf(algo);
	const size_t n = size_t(ref::digestSize(sp));
	if (n <= 4) return out;      // there the digest is the word
	std::vector<uint8_t> all(size_t(COUNT) * n);
	auto zero = ref::make(sp);
	for (uint32_t i = 0; i < COUNT; ++i)
	{
		auto m = zero->clone();
		const std::string t = std::to_string(i);
		m->update((const uint8_t *)t.data(), t.size());
		const Bytes d = m->digest();
		std::copy(d.begin(), d.end(), all.begin() + long(size_t(i) * n));
	}
	for (auto &p : projections(n))
	{
		// the pair with the smallest second message
		for (uint32_t upto : {uint32_t(150000), uint32_t(400000), COUNT})
		{
			std::vector<std::pair<uint64_t, uint32_t>> v(upto);
			for (uint32_t i = 0; i < upto; ++i) v[i] = {p.second(&all[size_t(i) * n], n), i};
			std::sort(v.begin(), v.end());
			uint32_t a = 0, b = 0;
			for (size_t i = 0; i + 1 < v.size(); ++i)
				if (v[i].first == v[i + 1].first && !std::equal(&all[size_t(v[i].second) * n], &all[size_t(v[i].second) * n] + n, &all[size_t(v[i + 1].second) * n]) && (b == 0 || v[i + 1].second < b)) { a = v[i].second; b = v[i + 1].second; }
			if (b) { out.push_back("\t{ref::" "@" ", " + std::to_string(a) + ", " + std::to_string(b) + "},   // " + p.first); break; }
			if (upto == COUNT) fprintf(stderr, "%s: no pair for %s\n", ref::algoName(algo), p.first.c_str());
		}
	}
	return out;
}
int main()
{
	std::vector<std::vector<std::string>> res(ref::ALGO_COUNT);
	for (int i = 0; i < ref::ALGO_COUNT; ++i) { ref::Spec w = specOf(i); auto m = ref::make(w); m->update((const uint8_t *)"x", 1); m->digest(); }
	std::vector<std::thread> th;
	std::atomic<int> next {0};
	for (int t = 0; t < 6; ++t) th.emplace_back([&] { for (int i; (i = next++) < ref::ALGO_COUNT;) res[size_t(i)] = work(i); });
	for (auto &t : th) t.join();
	printf("// made by tools/find_twins.cpp: {algorithm, message, message}, the messages being decimal numbers\n");
	for (int i = 0; i < ref::ALGO_COUNT; ++i)
		for (std::string l : res[size_t(i)]) { const size_t at = l.find("ref::@"); l.replace(at, 6, std::to_string(i)); printf("%s of %s\n", l.c_str(), ref::algoName(i)); }
	return 0;
}
