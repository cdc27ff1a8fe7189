/* Counts the work of a call: edges executed by the library (compiled with trace-pc-guard) and
 * bytes it asked to be allocated. */
#include "vf.h"
#include <unistd.h>
#ifdef VF_COV
static uint64_t edges, budget;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; ++a) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; if (++edges == budget) _exit(42); }
uint64_t vf_work(void) { return edges; }
void vf_work_budget(uint64_t n) { budget = n ? edges + n : 0; }
#else
uint64_t vf_work(void) { return 0; }
void vf_work_budget(uint64_t n) { (void)n; }
#endif
