// The simulated heap: every operator new/delete of the process goes through it.
#pragma once
#include <cstddef>
#include <cstdint>
namespace heap
{
extern bool inLib;          // inside a call into the code under test
extern long outstanding;    // blocks allocated inside such calls and not yet freed
extern long allocs;         // allocations since begin()
extern long totalAllocs;
extern long injected;       // failures delivered since begin()
extern uint8_t fill;        // content of fresh blocks
extern bool badFree;
void begin(long failAt, int mode);   // mode 0: only that one fails, 1: that one and all later ones
void end();
void forgetOutstanding();
}
