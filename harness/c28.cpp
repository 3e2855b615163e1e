// C28: what threads do with objects of their own is what they would do alone.
#include "scen.h"
#include <ctime>
using pbt::Ctx;

#if defined(__SANITIZE_THREAD__)
static const uint64_t SCALE = 8;
// Tables of the standard library, filled by all threads with the same values
extern "C" const char* __tsan_default_suppressions() { return "race:std::ctype<char>::narrow\nrace:std::ctype<char>::widen\nrace:std::ctype<char>::_M_narrow_init\nrace:std::ctype<char>::_M_widen_init\nrace:tzset_internal\n"; }
#else
static const uint64_t SCALE = 1;
#endif

typedef std::string (*Scenario)(Ctx&);

// A succession of scenarios.
struct Work {
    std::vector<std::pair<Scenario, uint64_t>> steps;
    std::string run(bool thorough, bool* nontrivial) const
    {
        std::string r;
        for (auto& s : steps) {
            Ctx x;
            x.detached = true;
            x.thorough = thorough;
            x.state = s.second;
            try {
                r += s.first(x);
                *nontrivial = *nontrivial || x.isNontrivial;
            }
            catch (const pbt::Discard&) {
                r += "(discarded)";
            }
            catch (const std::exception& e) {
                r += std::string("(exception: ") + e.what() + ")";
            }
            r += "\n--------\n";
        }
        return r;
    }
};

static const std::vector<std::pair<const char*, Scenario>> all{{"editions", scen::editions},       {"executions", scen::executions}, {"pieces", scen::pieces},
                                                               {"populations", scen::populations}, {"files", scen::files},           {"trainings", scen::trainings}};

static void together(Ctx& c, bool same)
{
    size_t n = (size_t)c.in(2, 4), kind = c.below(all.size());
    std::vector<Work> works(n);
    std::string text;
    for (auto& w : works) {
        size_t steps = (size_t)c.in(1, 3);
        for (size_t k = 0; k < steps; k++) {
            size_t s = same ? kind : c.below(all.size());
            w.steps.push_back({all[s].second, c.below(0)});
            text += std::string(all[s].first) + " ";
            c.label(all[s].first);
        }
        text += "| ";
    }
    c.note("threads: ", text);
    std::vector<std::string> alone(n), with(n);
    std::vector<char> significant(n, 0);
    // What is done only once may be done by the threads, or before them
    bool before = c.chance(1, 2);
    auto sequential = [&] {
        for (size_t i = 0; i < n; i++) {
            bool nt = false;
            alone[i] = works[i].run(c.thorough, &nt);
            significant[i] = nt;
        }
    };
    if (before)
        sequential();
    {
        std::atomic<size_t> ready{0};
        std::vector<std::thread> threads;
        for (size_t i = 0; i < n; i++)
            threads.emplace_back([&, i] {
                ready++;
                while (ready < n)
                    std::this_thread::yield();
                bool nt = false;
                with[i] = works[i].run(c.thorough, &nt);
            });
        for (auto& t : threads)
            t.join();
    }
    if (!before)
        sequential();
    for (size_t i = 0; i < n; i++)
        if (alone[i] != with[i])
            c.fail("thread ", i, " of ", n, ", alone and with the others: differs ", scen::firstDiff(alone[i], with[i]));
    c.nontrivial(std::count(significant.begin(), significant.end(), 1) >= 2);
}

int main(int argc, char** argv)
{
    // Filled before any thread is started: the catalogue of instructions, and
    // the time zone of the C library.
    gg::catalogue();
    setenv("TZ", "UTC", 1);
    std::time_t now = 0;
    std::localtime(&now);
    pbt::Config cfg;
    cfg.id = "C28";
    cfg.rule = "two threads or more do something significant (see C27)";
    cfg.assumptions = {
        "the threads share no object but the instructions, which are constant",
        "the dates written in files are not compared",
        "the schedules are those chosen by the operating system on the machine running the check",
    };
    cfg.subs = {
        {"same", [](Ctx& c) { together(c, true); }, 2400 / SCALE, 40000 / SCALE, 1, 30},
        {"mixed", [](Ctx& c) { together(c, false); }, 2400 / SCALE, 40000 / SCALE, 1, 30},
    };
    return pbt::run(argc, argv, cfg);
}
