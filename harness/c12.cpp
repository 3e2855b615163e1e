// C12: training in parallel gives the same results as training sequentially.
#include "la.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;

#if defined(__SANITIZE_THREAD__)
static const uint64_t SCALE = 12;
#else
static const uint64_t SCALE = 1;
#endif

enum Kind { PLAIN, CLASSIF, ADVERSARIAL };

static std::vector<std::string> runOne(Setting& s, Kind kind, size_t threads, bool parallelAgent, std::string* err, int* clones)
{
    s.p.nbThreads = threads;
    std::unique_ptr<Learn::LearningEnvironment> le;
    std::unique_ptr<Learn::LearningAgent> la;
    SimCore* core = nullptr;
    if (kind == PLAIN) {
        auto e = std::make_unique<SimEnv>(*s.w, s.dyn);
        core = &e->core;
        if (parallelAgent)
            la = std::make_unique<Learn::ParallelLearningAgent>(*e, s.w->set, s.p);
        else
            la = std::make_unique<Learn::LearningAgent>(*e, s.w->set, s.p);
        le = std::move(e);
    }
    else if (kind == CLASSIF) {
        auto e = std::make_unique<SimClass>(*s.w, s.dyn);
        core = &e->core;
        if (parallelAgent)
            la = std::make_unique<Learn::ClassificationLearningAgent<Learn::ParallelLearningAgent>>(*e, s.w->set, s.p);
        else
            la = std::make_unique<Learn::ClassificationLearningAgent<Learn::LearningAgent>>(*e, s.w->set, s.p);
        le = std::move(e);
    }
    else {
        auto e = std::make_unique<SimAdv>(*s.w, s.dyn);
        core = &e->core;
        la = std::make_unique<Learn::AdversarialLearningAgent>(*e, s.w->set, s.p, s.dyn.players);
        le = std::move(e);
    }
    la->init(s.seed);
    TraceOpts to;
    to.hashes = true;
    auto t = trainTrace(*la, s, 0, s.gens, to);
    if (core->shared->alive != 0)
        *err = std::to_string(core->shared->alive) + " clones of the environment are not destroyed";
    if (core->shared->badAction)
        *err = "an action that does not exist is done";
    if (clones)
        *clones = core->shared->clones;
    return t;
}

static void compareModes(Ctx& c, Kind kind)
{
    SettingOpts o;
    o.maxGens = SCALE > 1 ? 3 : c.thorough ? 8 : 5;
    o.maxThreads = c.thorough ? 8 : 5;
    Setting s = genSetting(c, o);
    size_t threads = s.p.nbThreads < 2 ? 2 : s.p.nbThreads;
    if (kind == CLASSIF) {
        s.dyn.nbClassesUsed = (uint64_t)c.in(1, (int64_t)s.dyn.nbActions);
        s.dyn.horizon = (uint64_t)c.in(1, 12);
        s.p.maxNbActionsPerEval = (uint64_t)c.in(1, 12);
    }
    if (kind == ADVERSARIAL) {
        s.dyn.players = (uint64_t)c.in(1, 3);
        s.p.nbIterationsPerJob = (size_t)c.in(1, 2);
        s.dyn.horizon *= s.dyn.players;
    }
    s.p.nbThreads = threads;
    s.dyn.copyable = !c.chance(1, 10);
    c.note(s.describe());
    std::string err;
    int clones = 0;
    auto first = runOne(s, kind, 1, kind == ADVERSARIAL || c.chance(1, 2), &err, nullptr);
    std::vector<std::string> other;
    try {
        other = runOne(s, kind, threads, true, &err, &clones);
    }
    catch (const std::runtime_error& e) {
        // Documented for adversarial agents
        if (kind == ADVERSARIAL && !s.dyn.copyable)
            c.discard();
        throw;
    }
    for (size_t i = 0; i < std::min(first.size(), other.size()); i++)
        if (first[i] != other[i])
            c.fail("one thread versus ", threads, ": generation ", i, " differs ", firstDiff(first[i], other[i]));
    c.eq(other.size(), first.size(), "number of generations");
    if (!err.empty())
        c.fail(err);
    c.check(s.dyn.copyable || clones == 0, "an environment that is not copyable is cloned");
    bool interrupted = !first.empty() && first.back().find("interrupted") != std::string::npos;
    c.nontrivial(s.dyn.copyable && !interrupted && s.gens >= 2);
    c.label(s.dyn.copyable ? "copyable" : "not copyable");
    c.label("clones", (uint64_t)clones);
    c.label("threads", threads);
}

static void casePlain(Ctx& c) { compareModes(c, PLAIN); }
static void caseClassif(Ctx& c) { compareModes(c, CLASSIF); }
static void caseAdversarial(Ctx& c) { compareModes(c, ADVERSARIAL); }

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C12";
    cfg.rule = "the environment is copyable (hence several threads work) and two generations or more are trained without interruption";
    cfg.assumptions = {
        "clones of the simulated environment are independent of the original and keep the identifiers of its data sources",
        "the schedules are those chosen by the operating system on the machine running the check",
    };
    cfg.subs = {
        {"plain", casePlain, 3000 / SCALE, 40000 / SCALE, 1, 30},
        {"classification", caseClassif, 1500 / SCALE, 20000 / SCALE, 1, 30},
        {"adversarial", caseAdversarial, 1500 / SCALE, 20000 / SCALE, 1, 30},
    };
    return pbt::run(argc, argv, cfg);
}
