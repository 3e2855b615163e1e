// Simulated learning environments, learning settings, and the trace of a
// training, shared by the checks about learning agents.
#ifndef LA_H
#define LA_H
#include "gg.h"
#include <atomic>
#include <mutex>

namespace gg {

// One evaluation of a policy, from a reset to the next one.
struct Episode {
    uint64_t seed;
    int mode;
    uint64_t iter, gen;
    std::vector<uint64_t> actions;
};

// Parameters of the dynamics. Everything is a function of these, of the
// arguments of reset, and of the actions.
struct Dyn {
    uint64_t key = 0;
    uint64_t horizon = 3;    // episodes stop after 0..horizon actions
    bool fixedHorizon = false;
    uint64_t scoreLevels = 9;
    uint64_t nbActions = 2;
    bool copyable = true;
    bool ignoreReset = false; // episodes do not depend on the seed
    bool wild = false;        // contents with large and special values
    uint64_t nbClassesUsed = 2; // classification: the others never appear
    uint64_t players = 2;       // adversarial
    uint64_t nbEval = 1;        // adversarial: evaluations per episode
};

// State shared by an environment and its clones.
struct SimShared {
    std::mutex m;
    std::vector<Episode> others; // episodes of the destroyed clones
    std::atomic<int> clones{0}, alive{0};
    std::atomic<bool> badAction{false};
};

uint64_t mix(uint64_t a, uint64_t b);

// The part of the simulated environments that does not depend on their kind.
class SimCore {
  public:
    SimCore(World& w, const Dyn& d);
    SimCore(const SimCore& o);
    ~SimCore();
    void write();
    void reset(size_t seed, int mode, uint64_t iter, uint64_t gen);
    void act(uint64_t a);
    bool over() const { return step >= limit; }
    double score(uint64_t salt) const;
    Dyn dyn;
    // Episodes run on this object.
    std::vector<Episode> log;
    bool keepLog = false;
    std::shared_ptr<SimShared> shared = std::make_shared<SimShared>();
    std::vector<std::unique_ptr<Src>> own; // sources of a clone
    std::vector<Src*> srcs;
    uint64_t state = 0, step = 0, limit = 0;
    bool isClone = false;
};

template <class Base> class SimT : public Base {
  public:
    SimT(World& w, const Dyn& d) : Base(d.nbActions), core(w, d) {}
    bool isCopyable() const override { return core.dyn.copyable; }
    std::vector<std::reference_wrapper<const Data::DataHandler>>
    getDataSources() override
    {
        std::vector<std::reference_wrapper<const Data::DataHandler>> r;
        for (auto s : core.srcs)
            r.push_back(((const Src*)s)->dh());
        return r;
    }
    bool isTerminal() const override { return core.over(); }
    SimCore core;

  protected:
    SimT(const SimT& o) : Base(o), core(o.core) {}
};

class SimEnv : public SimT<Learn::LearningEnvironment> {
  public:
    using SimT::SimT;
    Learn::LearningEnvironment* clone() const override
    {
        return core.dyn.copyable ? new SimEnv(*this) : nullptr;
    }
    void doAction(uint64_t a) override
    {
        core.act(a);
        LearningEnvironment::doAction(a);
    }
    void reset(size_t seed, Learn::LearningMode mode, uint16_t iter,
               uint64_t gen) override
    {
        core.reset(seed, (int)mode, iter, gen);
    }
    double getScore() const override { return core.score(5); }
};

// One class per action.
class SimClass : public SimT<Learn::ClassificationLearningEnvironment> {
  public:
    using SimT::SimT;
    Learn::LearningEnvironment* clone() const override
    {
        return core.dyn.copyable ? new SimClass(*this) : nullptr;
    }
    void doAction(uint64_t a) override
    {
        if (!isTerminal())
            ClassificationLearningEnvironment::doAction(a);
        core.act(a);
        next();
    }
    void reset(size_t seed, Learn::LearningMode mode, uint16_t iter,
               uint64_t gen) override
    {
        ClassificationLearningEnvironment::reset(seed, mode, iter, gen);
        core.reset(seed, (int)mode, iter, gen);
        next();
    }
    static uint64_t classOf(const SimCore& c)
    {
        return mix(c.state, 99) % c.dyn.nbClassesUsed;
    }

  private:
    void next() { currentClass = classOf(core); }
};

// Players act in turn.
class SimAdv : public SimT<Learn::AdversarialLearningEnvironment> {
  public:
    using SimT::SimT;
    Learn::LearningEnvironment* clone() const override
    {
        return core.dyn.copyable ? new SimAdv(*this) : nullptr;
    }
    void doAction(uint64_t a) override
    {
        core.act(a);
        LearningEnvironment::doAction(a);
    }
    void reset(size_t seed, Learn::LearningMode mode, uint16_t iter,
               uint64_t gen) override
    {
        core.reset(seed, (int)mode, iter, gen);
    }
    static std::vector<double> scores(const SimCore& c)
    {
        std::vector<double> r;
        for (uint64_t i = 0; i < c.dyn.players; i++)
            r.push_back(c.score(100 + i));
        return r;
    }
    std::shared_ptr<Learn::AdversarialEvaluationResult> getScores()
        const override;
};

struct Setting {
    std::unique_ptr<World> w;
    Learn::LearningParameters p;
    Dyn dyn;
    uint64_t seed = 0;
    uint64_t gens = 1;
    // The known defect of mutateEdgeDestination may interrupt the mutations.
    bool mayThrow = false;
    std::string describe() const;
};
struct SettingOpts {
    uint64_t maxGens = 4;
    uint64_t maxRoots = 10, maxActions = 4;
    bool finiteOnly = false;
    size_t maxThreads = 1;
    uint64_t maxIter = 3;
};
Setting genSetting(pbt::Ctx& c, const SettingOpts& o = SettingOpts());

// Text of the vertices, edges and programs of a graph in their order, which
// does not depend on addresses.
std::string canon(const World& w, const TPG::TPGGraph& g);
// Text of the archive: contents are numbered by first appearance, or given by
// their hash. (The programs of the recordings may not exist any longer.)
std::string canonArchive(const Archive& a, bool hashes);
// Same world, with data sources of their own, which have other identifiers.
std::unique_ptr<World> twin(const World& w);
std::string showResults(
    const std::multimap<std::shared_ptr<Learn::EvaluationResult>,
                        const TPG::TPGVertex*>& r,
    const TPG::TPGGraph& g);

// Where two texts first differ.
std::string firstDiff(const std::string& a, const std::string& b);

// Observes a training.
class Recorder : public Log::LALogger {
  public:
    Recorder(Learn::LearningAgent& la, const World& w)
        : Log::LALogger(la, sink), world(w), agent(la)
    {
    }
    typedef std::multimap<std::shared_ptr<Learn::EvaluationResult>,
                          const TPG::TPGVertex*>
        Results;
    std::function<void(uint64_t)> onNew;
    std::function<void()> onPopulate, onDecimate, onEnd;
    std::function<void(Results&)> onEvaluate, onValidate;
    void logHeader() override {}
    void logNewGeneration(uint64_t& g) override
    {
        if (onNew)
            onNew(g);
    }
    void logAfterPopulateTPG() override
    {
        if (onPopulate)
            onPopulate();
    }
    void logAfterEvaluate(Results& r) override
    {
        if (onEvaluate)
            onEvaluate(r);
    }
    void logAfterDecimate() override
    {
        if (onDecimate)
            onDecimate();
    }
    void logAfterValidate(Results& r) override
    {
        if (onValidate)
            onValidate(r);
    }
    void logEndOfTraining() override
    {
        if (onEnd)
            onEnd();
    }

  private:
    std::ostringstream sink;
    const World& world;
    Learn::LearningAgent& agent;
};

// Trains with the agent and describes, generation by generation, everything
// that can be observed. Throws the exceptions of the agent.
struct TraceOpts {
    bool hashes = false;   // identifiers of the data included
    bool archive = true;
    bool logger = true;
};
std::vector<std::string> trainTrace(Learn::LearningAgent& la, const Setting& s,
                                    uint64_t firstGen, uint64_t gens,
                                    const TraceOpts& o = TraceOpts());

// Path of the policy from this vertex according to the documented semantics,
// with the bids of all the evaluated edges.
std::vector<const TPG::TPGVertex*> refPathBids(const World& w,
                                               const TPG::TPGVertex& root,
                                               std::vector<double>* bids);
// Plays an episode with the reference inference. `e` gives the arguments of
// reset and receives the actions. `w` is the world of `core`.
void refEpisode(const World& w, SimCore& core, const TPG::TPGVertex& root,
                Episode& e, uint64_t maxActions, std::vector<double>* bids);
// Text of an episode, to compare sets of them.
std::string text(const Episode& e);
bool near(double a, double b);

// True if this exception is the known defect of the mutations.
bool isKnownDestinationDefect(const Setting& s, const std::exception& e);

} // namespace gg
#endif
