#include "heap.h"
#include <cstdlib>
#include <cstring>
#include <new>
namespace heap
{
bool inLib = false;
long outstanding = 0, allocs = 0, totalAllocs = 0, injected = 0;
uint8_t fill = 0xa5;
bool badFree = false;
static long g_failAt = 0;
static int g_mode = 0;
static uint32_t g_epoch = 1;
struct Head { uint64_t magic; uint32_t tag, epoch; size_t size; void *base; };
static_assert(sizeof(Head) == 32, "");
static const uint64_t MAGIC = 0x5afeb10c5afeb10cull;

void begin(long failAt, int mode) { g_failAt = failAt; g_mode = mode; allocs = 0; injected = 0; inLib = true; }
void end() { inLib = false; g_failAt = 0; }
void forgetOutstanding() { outstanding = 0; ++g_epoch; }

static void *get(size_t n, size_t align)
{
	if (inLib)
	{
		++allocs; ++totalAllocs;
		if (g_failAt && (allocs == g_failAt || (g_mode && allocs > g_failAt))) { ++injected; return nullptr; }
	}
	if (align < 32) align = 32;
	void *b = malloc(n + align + sizeof(Head));
	if (!b) return nullptr;
	uintptr_t u = (uintptr_t)b + sizeof(Head);
	u = (u + align - 1) / align * align;
	Head *h = (Head *)(u - sizeof(Head));
	h->magic = MAGIC; h->tag = inLib; h->epoch = g_epoch; h->size = n; h->base = b;
	if (inLib) ++outstanding;
	memset((void *)u, fill, n);
	return (void *)u;
}
static void put(void *p)
{
	if (!p) return;
	Head *h = (Head *)((uintptr_t)p - sizeof(Head));
	if (h->magic != MAGIC) { badFree = true; abort(); }
	h->magic = 0;
	if (h->tag && h->epoch == g_epoch) --outstanding;
	memset(p, 0xdd, h->size);
	free(h->base);
}
}
static void *getOrThrow(size_t n, size_t a) { void *p = heap::get(n, a); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return getOrThrow(n, 16); }
void *operator new[](size_t n) { return getOrThrow(n, 16); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return heap::get(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return heap::get(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return getOrThrow(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return getOrThrow(n, (size_t)a); }
void operator delete(void *p) noexcept { heap::put(p); }
void operator delete[](void *p) noexcept { heap::put(p); }
void operator delete(void *p, size_t) noexcept { heap::put(p); }
void operator delete[](void *p, size_t) noexcept { heap::put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { heap::put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { heap::put(p); }
void operator delete(void *p, std::align_val_t) noexcept { heap::put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { heap::put(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { heap::put(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { heap::put(p); }
