// The assertion macros as a debug build sees them.
#undef NDEBUG
#include "virg/nexus/nx_config.h"
#include "virg/nexus/nx_assert.h"
extern "C" void c27_assert(int kind, int v, int lo, int hi, int *evals) {
    switch (kind) {
    case 0: NX_ASSERT((++*evals, v % 7 == lo)); break;
    case 1: NX_ASSERT_PTR(v ? &v : (int *)0); break;
    case 2: NX_ASSERT_CUSTOM("100% custom %s text", v == lo); break;
    case 3: NX_ASSERT_RANGE(v, lo, hi); break;
    default: NX_ASSERT_INDEX(v, hi); break;
    }
}
