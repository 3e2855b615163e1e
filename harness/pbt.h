// Minimal property-based testing engine.
//
// Every random decision of a case is drawn from a recorded stream of integers
// ("choices"). A case is therefore a pure function of its choice stream, which
// gives replay (feed the stream back) and generic shrinking (edit the stream)
// for any generator, including operation histories.
//
// Cases run in forked worker processes, so that a crash, a sanitizer report or
// a hang of the code under test is observed, confirmed and shrunk like any
// other failure.
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error {
    using std::runtime_error::runtime_error;
};
// Raised by a case that turns out to be outside of the domain of the property.
struct Discard {};

class Ctx {
  public:
    // --- choices -----------------------------------------------------------
    // Uniform in [0, n-1]; n == 0 means the full 64-bit range. Shrinks to 0.
    uint64_t below(uint64_t n);
    // Uniform in [lo, hi]. Shrinks to lo.
    int64_t in(int64_t lo, int64_t hi)
    {
        return lo + (int64_t)below((uint64_t)(hi - lo) + 1);
    }
    // True with probability num/den. Shrinks to false.
    bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }
    template <class T> const T& pick(const std::vector<T>& v)
    {
        return v.at(below(v.size()));
    }
    // A finite double of varied shape. Shrinks to 0.
    double real();
    // A small double (exactly representable multiple of 1/8 in [-16,16]).
    double smallReal();
    // A probability in [0,1].
    double proba();

    // --- reporting ---------------------------------------------------------
    void label(const std::string& l, uint64_t n = 1) { labels[l] += n; }
    void nontrivial(bool b = true) { isNontrivial = isNontrivial || b; }
    template <class... A> void note(const A&... a)
    {
        if (notes.size() > 6000)
            return;
        std::ostringstream o;
        o.precision(17);
        (o << ... << a);
        o << "\n";
        notes += o.str();
        keep(o.str());
    }
    template <class... A> [[noreturn]] void fail(const A&... a)
    {
        std::ostringstream o;
        o.precision(17);
        (o << ... << a);
        throw Failure(o.str());
    }
    template <class... A> void check(bool cond, const A&... a)
    {
        if (!cond)
            fail(a...);
    }
    template <class X, class Y, class... A>
    void eq(const X& x, const Y& y, const A&... a)
    {
        if (!(x == y)) {
            std::ostringstream o;
            o.precision(17);
            (o << ... << a);
            o << ": got " << x << ", expected " << y;
            throw Failure(o.str());
        }
    }
    [[noreturn]] void discard() { throw Discard{}; }

    bool thorough = false;

    void keep(const std::string& s);

    // --- engine state ------------------------------------------------------
    // The choices and notes of this context are not those of the case.
    bool detached = false;
    bool replay = false;
    std::vector<uint64_t> input;
    size_t pos = 0;
    uint64_t state = 0;
    uint64_t fingerprint = 1469598103934665603ULL;
    std::map<std::string, uint64_t> labels;
    bool isNontrivial = false;
    std::string notes;
};

struct Sub {
    std::string name;
    std::function<void(Ctx&)> fn;
    uint64_t quick;    // number of cases in the quick tier
    uint64_t thorough; // number of cases in the thorough tier
    // Number of confirmation runs needed to fail again, out of `tries`
    int needed = 3;
    int tries = 3;
};

// A recorded genuine defect. `reproduces` runs in a forked child, and returns
// true (or crashes, hangs) as long as the defect is there.
struct Probe {
    std::string key;
    std::string what;
    std::function<bool()> reproduces;
};

struct Config {
    std::string id;
    std::string rule;
    std::vector<std::string> assumptions;
    std::vector<Sub> subs;
    std::vector<Probe> probes;
    double quickCap = 200;     // seconds, soft
    double thoroughCap = 2400; // seconds, soft
    int cpuLimit = 40;         // CPU seconds allowed to one case
    int wallLimit = 200;       // wall seconds allowed to one case
    int workers = 8;
};

// Runs the check; returns the exit code.
int run(int argc, char** argv, Config cfg);

// True when the defect with this key is listed as open in the file of known
// findings. Read once, before any case runs; nothing ever writes that file.
bool known(const std::string& key);

// State of the process that cases depend on and that grows from case to case
// (identifiers given to data sources): read at the start of each case, and
// advanced to the same value when a failure is confirmed, shrunk or replayed.
extern uint64_t (*ambientGet)();
extern void (*ambientSet)(uint64_t);

// Address of the scratch directory of this run (created by the engine, removed
// at its end). Workers share it.
const std::string& scratchDir();

} // namespace pbt
#endif
