/* Counts the basic blocks executed and the bytes allocated while the program runs (see src/meter.rs). */
#include <stdint.h>
static __thread uint64_t steps, heap, limit = UINT64_MAX;
static __thread int on;
static void (*overrun)(void);
void mc_meter_install(void (*f)(void)) { overrun = f; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
    (void)g;
    if (on && ++steps > limit) {
        on = 0;
        if (overrun) overrun();
    }
}
int mc_meter_on(int x) { int o = on; on = x; return o; }
void mc_meter_reset(uint64_t l) { steps = 0; heap = 0; limit = l; }
uint64_t mc_meter_steps(void) { return steps; }
uint64_t mc_meter_heap(void) { return heap; }
void mc_meter_alloc(uint64_t size, uint64_t align) { if (on) heap += (size + align - 1) / align * align; }

/* Division of 128-bit numbers is a library call (of some hundred instructions on the chain) that is not instrumented. */
typedef unsigned __int128 u128;
#define DIVISION 100
static void division(void)
{
    if (on && (steps += DIVISION) > limit) {
        on = 0;
        if (overrun) overrun();
    }
}
#define W(f) u128 __real_##f(u128, u128); u128 __wrap_##f(u128 a, u128 b) { division(); return __real_##f(a, b); }
W(__udivti3)
W(__umodti3)
