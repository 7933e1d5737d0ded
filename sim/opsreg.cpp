#include "ops.h"
#include "../ref/ref.h"

const int ARRAY_LENS[] = {1, 2, 3, 4, 5, 8, 12, 13, 16, 24, 48, 56, 63, 64, 65, 72, 96, 120, 128, 136, 168, 192, 255, 264, 1024, 4096, 65664};
const int ARRAY_LEN_COUNT = sizeof(ARRAY_LENS) / sizeof(ARRAY_LENS[0]);

static const Ops *g_ops[ref::ALGO_COUNT];
const Ops *opsFor(int algo) { return (algo >= 0 && algo < ref::ALGO_COUNT) ? g_ops[algo] : nullptr; }
void registerOps(const Ops *o) { g_ops[o->algo] = o; }

static bool inList(size_t n)
{
	for (int i = 0; i < ARRAY_LEN_COUNT; ++i)
		if (size_t(ARRAY_LENS[i]) == n) return true;
	return false;
}
size_t entryAlign(int e)
{
	switch (e)
	{
		case E_TARRAY16: case E_TSPAN16: return 2;
		case E_TARRAY32: case E_TSPAN32: case E_CSPAN32: return 4;
		case E_TARRAY64: case E_TSPAN64: return 8;
		default: return 1;
	}
}
int usableEntry(int e, size_t n)
{
	if (e < 0 || e >= E_COUNT) return E_VOID;
	if (n % entryAlign(e)) return E_VOID;
	switch (e)
	{
		case E_ARRAY: case E_TARRAY8: case E_TARRAY16: case E_TARRAY32: case E_TARRAY64: case E_FIXEDSPAN:
			return inList(n) ? e : int(E_SPAN);
		case E_STDARRAY:
			return inList(n) ? e : int(E_CONTAINER);
		case E_STRUCTARRAY:
			return (n % 3 == 0 && inList(n)) ? e : int(E_BRACE);
		default: return e;
	}
}
