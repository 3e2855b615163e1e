#include "la.h"
#include <algorithm>
#include <limits>

namespace gg {
using pbt::Ctx;

uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ULL + b + 0x632BE59BD9B4E019ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

SimCore::SimCore(World& w, const Dyn& d) : dyn(d)
{
    for (auto& s : w.srcs)
        srcs.push_back(s.get());
    state = mix(dyn.key, 1);
    write();
}

SimCore::SimCore(const SimCore& o)
    : dyn(o.dyn), keepLog(o.keepLog), shared(o.shared), state(o.state),
      step(o.step), limit(o.limit), isClone(true)
{
    for (auto s : o.srcs) {
        own.push_back(s->clone());
        srcs.push_back(own.back().get());
    }
    shared->clones++;
    shared->alive++;
}

SimCore::~SimCore()
{
    if (isClone) {
        shared->alive--;
        if (keepLog) {
            std::lock_guard<std::mutex> l(shared->m);
            for (auto& e : log)
                shared->others.push_back(std::move(e));
        }
    }
}

void SimCore::write()
{
    for (size_t k = 0; k < srcs.size(); k++)
        for (size_t i = 0; i < srcs[k]->size(); i++) {
            uint64_t h = mix(mix(state, k), i);
            bool real = srcs[k]->elem == ED || srcs[k]->elem == EF;
            double v;
            if (dyn.wild && h % 61 == 0)
                v = (h >> 32) & 1 ? 1e300 : -1e300;
            else if (dyn.wild && h % 61 == 1)
                v = 1e-300;
            else if (real)
                v = (double)((int64_t)((h >> 8) % 2001) - 1000) * 0.015625 +
                    (h % 7 == 0 ? 1e-3 * (double)((h >> 40) % 1000) : 0.0);
            else
                v = (double)((int64_t)((h >> 8) % 601) - 300);
            srcs[k]->set(i, v);
        }
}

void SimCore::reset(size_t seed, int mode, uint64_t iter, uint64_t gen)
{
    state = dyn.key;
    state = mix(state, (uint64_t)mode);
    if (!dyn.ignoreReset) {
        state = mix(state, seed);
        state = mix(state, iter);
        state = mix(state, gen);
    }
    step = 0;
    limit = dyn.fixedHorizon ? dyn.horizon : mix(state, 77) % (dyn.horizon + 1);
    if (keepLog)
        log.push_back(Episode{seed, mode, iter, gen, {}});
    write();
}

void SimCore::act(uint64_t a)
{
    if (a >= dyn.nbActions)
        shared->badAction = true;
    if (over())
        return;
    state = mix(state, a);
    step++;
    if (keepLog && !log.empty())
        log.back().actions.push_back(a);
    write();
}

double SimCore::score(uint64_t salt) const
{
    return ((double)(mix(state, salt) % dyn.scoreLevels) -
            (double)(dyn.scoreLevels / 2)) *
           0.125;
}

namespace {
// The size of the result is only known at run time.
class AdvResult : public Learn::AdversarialEvaluationResult {
  public:
    using AdversarialEvaluationResult::AdversarialEvaluationResult;
    void set(const std::vector<double>& v) { scores = v; }
};
} // namespace

std::shared_ptr<Learn::AdversarialEvaluationResult> SimAdv::getScores() const
{
    AdvResult tmp(core.dyn.players, core.dyn.nbEval);
    tmp.set(scores(core));
    return std::make_shared<Learn::AdversarialEvaluationResult>(
        (const Learn::AdversarialEvaluationResult&)tmp);
}

std::unique_ptr<World> twin(const World& w)
{
    auto r = std::make_unique<World>();
    for (auto& s : w.srcs) {
        r->srcs.push_back(makeSrc(s->elem, s->shape, s->w, s->h));
        for (size_t i = 0; i < s->size(); i++)
            r->srcs.back()->set(i, s->values[i]);
    }
    r->nbRegs = w.nbRegs;
    r->nbConst = w.nbConst;
    r->offered = w.offered;
    r->ins = w.ins;
    for (auto i : r->offered)
        r->set.add(*i->lib);
    r->env = std::make_unique<Environment>(r->set, r->refs(), r->nbRegs, r->nbConst);
    return r;
}

std::string Setting::describe() const
{
    std::ostringstream o;
    o << w->describe() << "\n seed " << seed << ", " << gens << " generations, "
      << p.mutation.tpg.nbRoots << " roots, " << dyn.nbActions << " actions, "
      << p.nbThreads << " threads, archive " << p.archiveSize << " (p="
      << p.archivingProbability << "), " << p.nbIterationsPerPolicyEvaluation
      << " iterations of at most " << p.maxNbActionsPerEval << " actions (horizon "
      << dyn.horizon << "), at most " << p.maxNbEvaluationPerPolicy
      << " evaluations, ratio " << p.ratioDeletedRoots << ", validation "
      << p.doValidation << ", score levels " << dyn.scoreLevels
      << ", copyable " << dyn.copyable << ", pProgramMutation "
      << p.mutation.tpg.pProgramMutation << ", destination change "
      << p.mutation.tpg.pEdgeDestinationChange << " (action "
      << p.mutation.tpg.pEdgeDestinationIsAction << "), forced behaviour change "
      << p.mutation.tpg.forceProgramBehaviorChangeOnMutation;
    return o.str();
}

Setting genSetting(Ctx& c, const SettingOpts& o)
{
    Setting s;
    WorldOpts wo;
    wo.rich = true;
    wo.minRegs = 2;
    wo.maxSrc = 2;
    wo.maxDim = 3;
    wo.maxIns = 6;
    wo.finiteOnly = o.finiteOnly || c.chance(1, 2);
    s.w = genWorld(c, wo);
    auto& p = s.p;
    auto& t = p.mutation.tpg;
    auto& g = p.mutation.prog;
    s.dyn.key = c.below(1u << 20);
    s.dyn.nbActions = (uint64_t)c.in(2, (int64_t)o.maxActions);
    s.dyn.horizon = (uint64_t)c.in(0, 5);
    s.dyn.fixedHorizon = c.chance(1, 3);
    s.dyn.scoreLevels = c.pick(std::vector<uint64_t>{1, 2, 9, 1000});
    s.dyn.ignoreReset = c.chance(1, 6);
    s.dyn.wild = !o.finiteOnly && c.chance(1, 3);
    t.nbActions = s.dyn.nbActions;
    t.nbRoots = (uint64_t)c.in((int64_t)2, (int64_t)o.maxRoots);
    t.maxInitOutgoingEdges = (size_t)c.in(2, (int64_t)s.dyn.nbActions);
    t.maxOutgoingEdges = (size_t)c.in(2, 5);
    t.pEdgeDeletion = c.proba();
    t.pEdgeAddition = 0.9 * c.proba();
    t.pProgramMutation = c.pick(std::vector<double>{0.2, 0.5, 1.0});
    t.pEdgeDestinationChange = c.pick(std::vector<double>{0.0, 0.1, 0.3});
    t.forceProgramBehaviorChangeOnMutation = c.chance(1, 2);
    g.maxProgramSize = (size_t)c.in(4, 12);
    g.pDelete = c.proba();
    g.pAdd = 0.3 + 0.7 * c.proba();
    g.pMutate = 0.3 + 0.7 * c.proba();
    g.pSwap = c.proba();
    g.pConstantMutation = c.proba();
    g.minConstValue = -20;
    g.maxConstValue = 20;
    p.archiveSize = (size_t)c.pick(std::vector<int>{1, 4, 20, 60});
    p.archivingProbability = c.pick(std::vector<double>{0.0, 0.1, 0.5, 1.0});
    p.nbIterationsPerPolicyEvaluation = (uint64_t)c.in(1, (int64_t)o.maxIter);
    p.maxNbActionsPerEval = (uint64_t)c.in(1, 6);
    p.ratioDeletedRoots = c.pick(std::vector<double>{0.5, 0.0, 0.1, 0.25, 0.34, 0.7, 0.9});
    p.maxNbEvaluationPerPolicy = (size_t)c.pick(std::vector<int>{1000, 1, 2, 4, 7});
    p.nbRegisters = s.w->nbRegs;
    p.nbProgramConstant = s.w->nbConst;
    p.nbThreads = (size_t)c.in(1, (int64_t)o.maxThreads);
    p.doValidation = c.chance(1, 4);
    s.seed = c.below(1u << 16);
    s.gens = (uint64_t)c.in(1, (int64_t)o.maxGens);
    p.nbGenerations = s.gens;
    t.pEdgeDestinationIsAction = c.pick(std::vector<double>{0.0, 0.5});
    s.mayThrow = t.pEdgeDestinationIsAction > 0 && t.pEdgeDestinationChange > 0;
    // Each team keeps a team below it when all its destinations change: the
    // number of roots may not grow otherwise.
    return s;
}

std::string canon(const World& w, const TPG::TPGGraph& g)
{
    return describe(w, g, true);
}

std::string canonArchive(const Archive& a, bool hashes)
{
    std::ostringstream o;
    std::map<size_t, size_t> hn;
    o << a.getNbRecordings() << " recordings, " << a.getNbDataHandlers()
      << " contents;";
    for (size_t i = 0; i < a.getNbRecordings(); i++) {
        auto& r = a.at(i);
        hn.insert({r.dataHash, hn.size()});
        if (hashes)
            o << " " << r.dataHash;
        else
            o << " D" << hn[r.dataHash];
        o << "=" << show(r.result);
    }
    return o.str();
}

std::string showResults(
    const std::multimap<std::shared_ptr<Learn::EvaluationResult>,
                        const TPG::TPGVertex*>& r,
    const TPG::TPGGraph& g)
{
    std::ostringstream o;
    auto num = numbering(g);
    for (auto& x : r) {
        o << " v";
        if (num.count(x.second))
            o << num[x.second];
        else
            o << "(removed)";
        o << ":" << show(x.first->getResult()) << "/" << x.first->getNbEvaluation();
    }
    return o.str();
}

std::string firstDiff(const std::string& a, const std::string& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        i++;
    size_t from = i > 120 ? i - 120 : 0;
    std::ostringstream o;
    o << "at character " << i << ":\n  ..." << a.substr(from, 300) << "\nversus\n  ..."
      << b.substr(from, 300);
    return o.str();
}

std::vector<std::string> trainTrace(Learn::LearningAgent& la, const Setting& s,
                                    uint64_t firstGen, uint64_t gens,
                                    const TraceOpts& o)
{
    std::vector<std::string> trace;
    std::ostringstream cur;
    // Loggers cannot be removed from an agent: the recorder lives as long.
    auto* rec = o.logger ? new Recorder(la, *s.w) : nullptr;
    if (rec) {
        rec->onPopulate = [&] { cur << "populated: " << canon(*s.w, *la.getTPGGraph()) << "\n"; };
        rec->onEvaluate = [&](Recorder::Results& r) { cur << "evaluated:" << showResults(r, *la.getTPGGraph()) << "\n"; };
        rec->onValidate = [&](Recorder::Results& r) { cur << "validated:" << showResults(r, *la.getTPGGraph()) << "\n"; };
    }
    auto stop = [&] {
        if (rec) {
            rec->onPopulate = nullptr;
            rec->onEvaluate = nullptr;
            rec->onValidate = nullptr;
        }
    };
    try {
        for (uint64_t g = firstGen; g < firstGen + gens; g++) {
            cur.str("");
            la.trainOneGeneration(g);
            cur << "decimated: " << canon(*s.w, *la.getTPGGraph()) << "\n";
            auto best = la.getBestRoot();
            auto num = numbering(*la.getTPGGraph());
            cur << "best: v" << (num.count(best.first) ? (long)num[best.first] : -1L) << " "
                << show(best.second->getResult()) << "/" << best.second->getNbEvaluation()
                << ", best of the generation " << show(la.getBestScoreLastGen()) << "\n";
            if (o.archive)
                cur << "archive: " << canonArchive(la.getArchive(), o.hashes) << "\n";
            trace.push_back(cur.str());
        }
    }
    catch (const std::exception& e) {
        stop();
        if (!isKnownDestinationDefect(s, e))
            throw;
        cur << "interrupted by the known defect of mutateEdgeDestination\n";
        trace.push_back(cur.str());
        return trace;
    }
    stop();
    if (!trace.empty())
        trace.back() += "rng: " + std::to_string(la.getRNG().getUnsignedInt64(0, UINT64_MAX)) + "\n";
    return trace;
}

std::vector<const TPG::TPGVertex*> refPathBids(const World& w,
                                               const TPG::TPGVertex& root,
                                               std::vector<double>* bids)
{
    std::vector<const TPG::TPGVertex*> path{&root};
    while (dynamic_cast<const TPG::TPGAction*>(path.back()) == nullptr) {
        const TPG::TPGEdge* best = nullptr;
        double bestBid = 0;
        for (auto e : path.back()->getOutgoingEdges()) {
            double b = refBid(w, *e);
            if (bids)
                bids->push_back(b);
            if (best == nullptr || b >= bestBid) {
                best = e;
                bestBid = b;
            }
        }
        if (best == nullptr)
            throw pbt::Failure("reference: team without edge");
        path.push_back(best->getDestination());
        if (path.size() > 10000)
            throw pbt::Failure("reference: cyclic graph");
    }
    return path;
}

void refEpisode(const World& w, SimCore& core, const TPG::TPGVertex& root,
                Episode& e, uint64_t maxActions, std::vector<double>* bids)
{
    core.reset(e.seed, e.mode, e.iter, e.gen);
    e.actions.clear();
    for (uint64_t i = 0; i < maxActions && !core.over(); i++) {
        auto a = (const TPG::TPGAction*)refPathBids(w, root, bids).back();
        e.actions.push_back(a->getActionID());
        core.act(a->getActionID());
    }
}

std::string text(const Episode& e)
{
    std::ostringstream o;
    o << "reset(" << e.seed << "," << e.mode << "," << e.iter << "," << e.gen << ") actions";
    for (auto a : e.actions)
        o << " " << a;
    return o.str();
}

bool near(double a, double b)
{
    return sameDouble(a, b) || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b));
}

bool isKnownDestinationDefect(const Setting& s, const std::exception& e)
{
    return s.mayThrow && dynamic_cast<const std::out_of_range*>(&e) != nullptr &&
           pbt::known("destination-action-picks-team");
}

} // namespace gg
