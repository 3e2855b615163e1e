// C11: a training is a function of its seed, parameters and environment.
#include "la.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;

// Perturbs the allocations of the process, so that the addresses of what the
// library allocates change.
struct HeapNoise {
    std::vector<void*> kept;
    uint64_t s;
    explicit HeapNoise(uint64_t seed) : s(seed)
    {
        std::vector<void*> freed;
        for (int i = 0; i < 400; i++) {
            s = mix(s, 1);
            void* p = malloc(16 + s % 400);
            if ((s >> 20) & 1)
                kept.push_back(p);
            else
                freed.push_back(p);
        }
        for (size_t i = 0; i < freed.size(); i++)
            std::swap(freed[i], freed[(s = mix(s, 2)) % freed.size()]);
        for (auto p : freed)
            free(p);
    }
    ~HeapNoise()
    {
        for (auto p : kept)
            free(p);
    }
};

static void compare(Ctx& c, const std::vector<std::string>& a, const std::vector<std::string>& b, const std::string& what)
{
    for (size_t i = 0; i < std::min(a.size(), b.size()); i++) {
        if (a[i] != b[i])
            c.fail(what, ": generation ", i, " differs ", firstDiff(a[i], b[i]));
    }
    c.eq(b.size(), a.size(), what, ": number of generations");
}

enum Kind { PLAIN, CLASSIF, ADVERSARIAL };

// A learning agent and its environment.
struct Sys {
    std::unique_ptr<Learn::LearningEnvironment> le;
    std::unique_ptr<Learn::LearningAgent> la;
    Learn::LearningAgent* operator->() { return la.get(); }
    Learn::LearningAgent& operator*() { return *la; }
};

static Sys make(World& w, const Setting& s, Kind kind, bool parallel, const TPG::TPGFactory& f = TPG::TPGFactory())
{
    Sys r;
    if (kind == PLAIN) {
        auto e = std::make_unique<SimEnv>(w, s.dyn);
        if (parallel)
            r.la = std::make_unique<Learn::ParallelLearningAgent>(*e, w.set, s.p, f);
        else
            r.la = std::make_unique<Learn::LearningAgent>(*e, w.set, s.p, f);
        r.le = std::move(e);
    }
    else if (kind == CLASSIF) {
        auto e = std::make_unique<SimClass>(w, s.dyn);
        if (parallel)
            r.la = std::make_unique<Learn::ClassificationLearningAgent<Learn::ParallelLearningAgent>>(*e, w.set, s.p, f);
        else
            r.la = std::make_unique<Learn::ClassificationLearningAgent<Learn::LearningAgent>>(*e, w.set, s.p, f);
        r.le = std::move(e);
    }
    else {
        auto e = std::make_unique<SimAdv>(w, s.dyn);
        r.la = std::make_unique<Learn::AdversarialLearningAgent>(*e, w.set, s.p, s.dyn.players, f);
        r.le = std::move(e);
    }
    return r;
}

// What is trained, by which agent.
static Setting genCase(Ctx& c, uint64_t maxGens, bool adversarial, Kind& kind, bool& parallel)
{
    SettingOpts o;
    o.maxGens = maxGens;
    Setting s = genSetting(c, o);
    switch (c.below(8)) {
    case 0:
    case 1:
        kind = CLASSIF;
        break;
    case 2:
    case 3:
        kind = adversarial ? ADVERSARIAL : PLAIN;
        break;
    default:
        kind = PLAIN;
    }
    parallel = kind == ADVERSARIAL || c.chance(1, 3);
    // Threads are slow to start: few cases have several of them.
    s.p.nbThreads = parallel && c.chance(1, 2) ? (size_t)c.in(2, 4) : 1;
    if (kind == CLASSIF) {
        s.dyn.nbClassesUsed = (uint64_t)c.in(1, (int64_t)s.dyn.nbActions);
        s.dyn.horizon = (uint64_t)c.in(1, 12);
        s.p.maxNbActionsPerEval = (uint64_t)c.in(1, 12);
    }
    if (kind == ADVERSARIAL) {
        s.dyn.players = (uint64_t)c.in(1, 3);
        s.p.nbIterationsPerJob = (size_t)c.in(1, 2);
        s.dyn.horizon *= s.dyn.players;
    }
    const char* names[] = {"plain", "classification", "adversarial"};
    c.label(names[kind]);
    c.label(!parallel ? "sequential agent" : s.p.nbThreads > 1 ? "several threads" : "parallel agent, one thread");
    c.note(s.describe(), "\n ", names[kind], " ", parallel ? "parallel" : "sequential", " agent");
    return s;
}

static void stats(Ctx& c, const std::vector<std::string>& t, const Setting& s)
{
    bool interrupted = !t.empty() && t.back().find("interrupted") != std::string::npos;
    c.label(interrupted ? "interrupted by the known defect" : "complete");
    c.label("generations", t.size());
    c.nontrivial(!interrupted && t.size() >= 2);
    c.label(s.p.archivingProbability > 0 ? "with archive" : "no archive");
}

static void caseRepeat(Ctx& c)
{
    Kind kind;
    bool parallel;
    Setting s = genCase(c, c.thorough ? 10 : 6, true, kind, parallel);
    std::vector<std::string> first;
    uint64_t firstGen = c.chance(1, 4) ? c.below(1000) : 0;
    {
        auto la = make(*s.w, s, kind, parallel);
        la->init(s.seed);
        first = trainTrace(*la, s, firstGen, s.gens);
    }
    stats(c, first, s);
    // Other data sources (hence other identifiers and hashes), other addresses
    size_t times = (size_t)c.in(1, 3);
    for (size_t k = 0; k < times; k++) {
        HeapNoise noise(c.below(1u << 20));
        auto w2 = twin(*s.w);
        auto la = make(*w2, s, kind, parallel);
        la->init(s.seed);
        // the world of the setting describes the twin as well
        auto other = trainTrace(*la, s, firstGen, s.gens);
        compare(c, first, other, "same seed, parameters and environment");
    }
    // Another seed gives something else (the seed is used at all): informative
    {
        auto la = make(*s.w, s, kind, parallel);
        la->init(s.seed + 1);
        auto other = trainTrace(*la, s, firstGen, 1);
        c.label(!other.empty() && !first.empty() && other[0] == first[0] ? "another seed: same generation" : "another seed: other generation");
    }
}

static void caseReinit(Ctx& c)
{
    Kind kind;
    bool parallel;
    Setting s = genCase(c, c.thorough ? 8 : 4, true, kind, parallel);
    TraceOpts to;
    to.hashes = true;
    std::vector<std::string> first;
    {
        auto la = make(*s.w, s, kind, parallel);
        la->init(s.seed);
        first = trainTrace(*la, s, 0, s.gens, to);
    }
    stats(c, first, s);
    auto la = make(*s.w, s, kind, parallel);
    size_t rounds = (size_t)c.in(1, 3);
    std::string history;
    for (size_t k = 0; k < rounds; k++) {
        uint64_t seed = c.chance(1, 2) ? s.seed : c.below(1000);
        la->init(seed);
        uint64_t gens = (uint64_t)c.in(0, 3);
        history += " init(" + std::to_string(seed) + "), " + std::to_string(gens) + " generations;";
        try {
            for (uint64_t g = 0; g < gens; g++)
                la->trainOneGeneration(g);
            switch (gens > 0 ? c.below(4) : 3) {
            case 0:
                la->keepBestPolicy();
                history += " keepBestPolicy;";
                break;
            case 1:
                la->evaluateAllRoots(gens, Learn::LearningMode::VALIDATION);
                history += " validation;";
                break;
            case 2:
                la->evaluateAllRoots(gens, Learn::LearningMode::TRAINING);
                history += " evaluation;";
                break;
            default:
                break;
            }
        }
        catch (const std::exception& e) {
            if (!isKnownDestinationDefect(s, e))
                throw;
        }
    }
    c.note("history:", history);
    la->init(s.seed);
    c.check(la->getBestRoot().first == nullptr && la->getBestRoot().second == nullptr, "init keeps a best root");
    c.eq(la->getArchive().getNbRecordings(), 0u, "init keeps recordings in the archive");
    auto other = trainTrace(*la, s, 0, s.gens, to);
    compare(c, first, other, "new agent versus agent initialised again after" + history);
}

// What does not take part in the training does not change it.
static void caseNeutral(Ctx& c)
{
    Kind kind;
    bool parallel;
    Setting s = genCase(c, c.thorough ? 8 : 4, false, kind, parallel);
    s.p.doValidation = false;
    TraceOpts to;
    to.hashes = true;
    std::vector<std::string> first;
    {
        auto la = make(*s.w, s, kind, parallel);
        la->init(s.seed);
        first = trainTrace(*la, s, 0, s.gens, to);
    }
    stats(c, first, s);
    std::string what;
    static const TPG::TPGFactory usual;
    static const TPG::TPGInstrumentedFactory instrumented;
    const TPG::TPGFactory* factory = &usual;
    switch (c.below(4)) {
    case 0:
        what = "validation at each generation";
        s.p.doValidation = true;
        break;
    case 1:
        what = "instrumented graph and engines";
        factory = &instrumented;
        break;
    case 2:
        what = "evaluations in validation and testing modes between generations";
        break;
    case 3:
        what = "other loggers";
        break;
    }
    c.label(what);
    auto la = make(*s.w, s, kind, parallel, *factory);
    la->init(s.seed);
    std::vector<std::string> other;
    std::ostringstream sink;
    std::unique_ptr<Log::LABasicLogger> basic;
    std::unique_ptr<Log::LAPolicyStatsLogger> stat;
    if (what == "other loggers") {
        // (loggers add themselves to their agent)
        basic = std::make_unique<Log::LABasicLogger>(*la, sink);
        stat = std::make_unique<Log::LAPolicyStatsLogger>(*la, sink);
    }
    if (what.find("evaluations") == 0) {
        // the recorder runs between the generations
        Recorder rec(*la, *s.w);
        rec.onNew = [&](uint64_t g) {
            la->evaluateAllRoots(g, c.chance(1, 2) ? Learn::LearningMode::VALIDATION : Learn::LearningMode::TESTING);
            auto roots = la->getTPGGraph()->getRootVertices();
            la->evaluateOneRoot(g, c.chance(1, 2) ? Learn::LearningMode::VALIDATION : Learn::LearningMode::TESTING, roots.at(c.below(roots.size())));
        };
        other = trainTrace(*la, s, 0, s.gens, to);
    }
    else
        other = trainTrace(*la, s, 0, s.gens, to);
    // The lines about the validation are not part of the training.
    for (auto& t : other) {
        size_t a;
        while ((a = t.find("validated:")) != std::string::npos)
            t.erase(a, t.find('\n', a) - a + 1);
    }
    compare(c, first, other, "training with " + what);
}

// train() is the succession of the generations.
static void caseTrain(Ctx& c)
{
    Kind kind;
    bool parallel;
    Setting s = genCase(c, c.thorough ? 8 : 4, true, kind, parallel);
    s.p.nbGenerations = (uint64_t)c.in(0, 4);
    c.note(s.p.nbGenerations, " generations configured");
    auto a = make(*s.w, s, kind, parallel);
    a->init(s.seed);
    auto b = make(*s.w, s, kind, parallel);
    b->init(s.seed);
    uint64_t alt = c.chance(1, 3) ? (uint64_t)c.in(0, 5) : 1000;
    volatile bool stop = alt == 0;
    Recorder rec(*b, *s.w);
    uint64_t seen = 0;
    std::vector<uint64_t> numbers;
    rec.onNew = [&](uint64_t g) { numbers.push_back(g); };
    rec.onEnd = [&] { stop = ++seen >= alt; };
    uint64_t want = std::min<uint64_t>(alt, s.p.nbGenerations);
    uint64_t got;
    try {
        for (uint64_t g = 0; g < want; g++)
            a->trainOneGeneration(g);
        got = b->train(stop, false);
    }
    catch (const std::exception& e) {
        if (!isKnownDestinationDefect(s, e))
            throw;
        c.label("interrupted by the known defect");
        c.discard();
    }
    c.eq(got, want, "generations reported by train");
    c.eq(numbers.size(), want, "generations trained");
    for (size_t i = 0; i < numbers.size(); i++)
        c.eq(numbers[i], i, "number of the generation");
    std::string ga = canon(*s.w, *a->getTPGGraph()), gb = canon(*s.w, *b->getTPGGraph());
    c.check(ga == gb, "train versus generations one by one ", firstDiff(ga, gb));
    c.eq(canonArchive(b->getArchive(), true), canonArchive(a->getArchive(), true), "archive");
    c.eq(b->getRNG().getUnsignedInt64(0, UINT64_MAX), a->getRNG().getUnsignedInt64(0, UINT64_MAX), "next random number");
    c.nontrivial(want >= 1);
    c.label(want < s.p.nbGenerations ? "stopped before the end" : "all generations");
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C11";
    cfg.rule = "two generations or more are trained without interruption (sub 'train': one generation or more)";
    cfg.assumptions = {
        "the simulated environment is a function of the arguments of reset and of the actions",
        "the content of the archive is compared through the order of the contents and results of its recordings",
    };
    cfg.subs = {
        {"repeat", caseRepeat, 5000, 60000},
        {"reinit", caseReinit, 4000, 50000},
        {"neutral", caseNeutral, 4000, 50000},
        {"train", caseTrain, 2000, 20000},
    };
    return pbt::run(argc, argv, cfg);
}
