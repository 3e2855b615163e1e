// C27: whatever is done with the library, and whether it succeeds or is
// refused, everything it acquired is released with the objects that used it.
#include "scen.h"
#include <fcntl.h>
using pbt::Ctx;

// ------------------------------------------------- blocks of memory in use ---
static std::atomic<int64_t> live{0};
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    if (p)
        live.fetch_add(1, std::memory_order_relaxed);
    return p;
}
void* calloc(size_t n, size_t s)
{
    void* p = __libc_calloc(n, s);
    if (p)
        live.fetch_add(1, std::memory_order_relaxed);
    return p;
}
void* realloc(void* o, size_t n)
{
    void* p = __libc_realloc(o, n);
    if (!o && p)
        live.fetch_add(1, std::memory_order_relaxed);
    if (o && n == 0 && !p)
        live.fetch_sub(1, std::memory_order_relaxed);
    return p;
}
void* memalign(size_t a, size_t n)
{
    void* p = __libc_memalign(a, n);
    if (p)
        live.fetch_add(1, std::memory_order_relaxed);
    return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n)
{
    *r = memalign(a, n);
    return *r ? 0 : ENOMEM;
}
void free(void* p)
{
    if (p)
        live.fetch_sub(1, std::memory_order_relaxed);
    __libc_free(p);
}
}

// Descriptors of files in use
static int64_t openFiles()
{
    int64_t n = 0;
    for (int f = 0; f < 256; f++)
        n += fcntl(f, F_GETFD) != -1;
    return n;
}

// Runs the scenario, then again from the same choices. The first run may fill
// tables kept for the whole process; the others must leave nothing behind.
static void measured(Ctx& c, std::string (*scenario)(Ctx&))
{
    Ctx saved = c;
    {
        Ctx x = saved;
        try {
            scenario(x);
        }
        catch (...) {
            c = x;
            throw;
        }
        c = x;
    }
    saved.detached = true;
    const int runs = 4;
    int64_t blocks[runs], files[runs];
    for (int k = 0; k < runs; k++) {
        int64_t f0 = openFiles(), b0 = live.load();
        {
            Ctx x = saved;
            scenario(x);
        }
        blocks[k] = live.load() - b0;
        files[k] = openFiles() - f0;
        if (blocks[k] <= 0 && files[k] <= 0)
            return;
    }
    std::ostringstream o;
    for (int k = 0; k < runs; k++)
        o << " " << blocks[k] << " blocks and " << files[k] << " files;";
    c.fail("left behind by ", runs, " runs of the same operations:", o.str());
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C27";
    cfg.rule = "editions: four operations done and one refused; executions: two executions and a change of the data; pieces: six operations; populations: one population; files: any; trainings: two generations";
    cfg.assumptions = {
        "the first run of a scenario may fill tables kept for the life of the process, the next ones do not",
        "memory is counted in blocks of the allocator, files in open descriptors",
    };
    cfg.subs = {
        {"editions", [](Ctx& c) { measured(c, scen::editions); }, 10000, 200000},
        {"executions", [](Ctx& c) { measured(c, scen::executions); }, 10000, 200000},
        {"pieces", [](Ctx& c) { measured(c, scen::pieces); }, 10000, 200000},
        {"populations", [](Ctx& c) { measured(c, scen::populations); }, 4000, 60000},
        {"files", [](Ctx& c) { measured(c, scen::files); }, 4000, 60000},
        {"trainings", [](Ctx& c) { measured(c, scen::trainings); }, 4000, 60000},
    };
    return pbt::run(argc, argv, cfg);
}
