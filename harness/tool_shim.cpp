// Linked into the command-line tools when they are run under monitoring: what a tool writes directly
// under /tmp (fixed names) is redirected into the scratch directory of the run.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
extern "C" FILE *__real_fopen(const char *p, const char *m);
extern "C" FILE *__wrap_fopen(const char *p, const char *m)
{
        const char *d = getenv("VT_SCRATCH");
        if (p && d && !strncmp(p, "/tmp/", 5) && !strchr(p + 5, '/')) return __real_fopen((std::string(d) + "/" + (p + 5)).c_str(), m);
        return __real_fopen(p, m);
}
