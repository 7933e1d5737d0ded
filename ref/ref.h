// Executable reference models of the published algorithms, written from their
// specifications, sharing no code with /repo.  Each model is an incremental
// object so that a checkpoint of it can be frozen (very long streams).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace ref
{
using Bytes = std::vector<uint8_t>;

enum Algo : int
{
	BLAKE1_224, BLAKE1_256, BLAKE1_384, BLAKE1_512,
	BLAKE2B, BLAKE2S,
	CRC32,
	CSHAKE128, CSHAKE256,
	FNV32_0, FNV32_1, FNV32_1A, FNV64_0, FNV64_1, FNV64_1A,
	HAS160,
	MD2, MD4, MD5,
	RMD128, RMD160, RMD256, RMD320,
	SIPHASH,
	SHA1,
	SHA2_224, SHA2_256, SHA2_384, SHA2_512, SHA2_512_224, SHA2_512_256,
	SHA3_224, SHA3_256, SHA3_384, SHA3_512,
	SHAKE128, SHAKE256,
	SM3,
	TIGER1_128, TIGER1_160, TIGER1_192,
	TIGER2_128, TIGER2_160, TIGER2_192,
	TUPLE128, TUPLE256,
	WHIRLPOOL,
	ALGO_COUNT
};

struct Spec
{
	int algo = 0;
	int digestLen = 0;   // SHAKE/cSHAKE/TupleHash: requested length
	Bytes name;          // cSHAKE function name
	Bytes custom;        // cSHAKE/TupleHash customization
	Bytes key;           // SipHash key, 16 bytes
};

class Model
{
	public:
		virtual ~Model() = default;
		virtual void update(const uint8_t *p, size_t n) = 0;  // TupleHash: one element per call
		virtual Bytes digest() const = 0;                     // does not disturb the model
		virtual std::unique_ptr<Model> clone() const = 0;
		// frozen checkpoints: (chaining words, count). Only at block boundaries.
		virtual Bytes save() const = 0;
		virtual void load(const Bytes &b) = 0;
		void update(const Bytes &b) { update(b.data(), b.size()); }
};

std::unique_ptr<Model> make(const Spec &s);
const char *algoName(int a);
int algoByName(const std::string &s);   // -1 when unknown
int blockSize(int a);                   // bytes per compression-function call (1 for CRC/FNV)
int digestSize(const Spec &s);
bool isTuple(int a);
bool hasLen(int a);      // takes a digest length
bool hasCustom(int a);   // takes a customization string
std::string hex(const Bytes &b);
Bytes unhex(const std::string &s);
}
