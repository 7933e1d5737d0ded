// Type-erased view of one hasher class of the library under test.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

struct Params
{
	int digestLen = 0;
	std::string name, custom;
	const uint8_t *key = nullptr;   // 16 bytes, caller memory
	bool defaulted = false;         // leave trailing constructor arguments to their defaults
};

// how one piece is handed to the hasher
enum Entry : int
{
	E_VOID,        // addData(const void *, size_t)
	E_SPAN,        // addData(Span<const Byte>)
	E_BRACE,       // addData({ptr, len})
	E_ARRAY,       // addData(const Byte (&)[N])
	E_TARRAY8,     // addData(const char (&)[N])
	E_TARRAY16, E_TARRAY32, E_TARRAY64,
	E_TSPAN8,      // addData(Span<char>)
	E_TSPAN16, E_TSPAN32, E_TSPAN64,
	E_CSPAN32,     // addData(Span<const uint32_t>)
	E_FIXEDSPAN,   // addData(Span<const Byte, N>)
	E_STRUCTARRAY, // addData(const Pod3 (&)[N])
	E_CONTAINER,   // addData(any contiguous container of bytes)
	E_STDARRAY,    // addData(std::array<Byte, N>)
	E_COUNT
};

struct Ops
{
	const char *name;
	int algo;
	size_t size, align;
	bool hasArray, tuple, heap;
	void (*construct)(void *mem, const Params &p);
	void (*destroy)(void *obj);
	void (*copyCtor)(void *mem, const void *src);
	void (*moveCtor)(void *mem, void *src);
	void (*copyAssign)(void *dst, const void *src);   // null when the type does not offer it
	void (*moveAssign)(void *dst, void *src);         // null when the type does not offer it
	void (*swapObj)(void *a, void *b);                // null when the type does not offer it
	// the same through the type that addData(), finalize() and reset() return, when it is another one (null otherwise)
	void (*copyCtorB)(void *mem, const void *src);
	void (*moveCtorB)(void *mem, void *src);
	void (*copyAssignB)(void *dst, const void *src);
	void (*moveAssignB)(void *dst, void *src);
	bool (*equalB)(const void *a, const void *b);
	size_t (*stdHashB)(const void *obj);
	bool (*feed)(void *obj, int entry, const uint8_t *p, size_t n);   // false: did not return *this
	void (*reset)(void *obj);
	bool (*finalize)(void *obj);
	std::string (*toString)(const void *obj);
	std::vector<uint8_t> (*toVector)(const void *obj);
	size_t (*toArray)(const void *obj, uint8_t *out);  // 0 when the type does not offer it
	uint64_t (*toInt)(const void *obj, int bytes);
	bool (*equal)(const void *a, const void *b);
	bool (*notEqual)(const void *a, const void *b);
	size_t (*stdHash)(const void *obj);
};

// array lengths instantiated for the array overloads (bytes)
extern const int ARRAY_LENS[];
extern const int ARRAY_LEN_COUNT;
// the entry actually usable for a piece of n bytes (falls back to a plain one)
int usableEntry(int entry, size_t n);
size_t entryAlign(int entry);

const Ops *opsFor(int algo);
void registerOps(const Ops *o);
