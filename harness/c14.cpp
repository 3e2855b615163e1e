// C14: classification agents score and keep the roots per class.
#include "la.h"
#include <algorithm>
#include <numeric>
using pbt::Ctx;
using namespace gg;

typedef const TPG::TPGVertex* V;

// Confusion table -> F1 score of each class
static std::vector<double> f1(const std::vector<std::vector<uint64_t>>& t)
{
    std::vector<double> r;
    for (size_t k = 0; k < t.size(); k++) {
        double row = 0, col = 0;
        for (size_t j = 0; j < t.size(); j++) {
            row += (double)t[k][j];
            col += (double)t[j][k];
        }
        // harmonic mean of tp/row and tp/col
        r.push_back(t[k][k] == 0 ? 0.0 : 2.0 * (double)t[k][k] / (row + col));
    }
    return r;
}

struct Rec {
    std::vector<double> score;
    std::vector<uint64_t> nb;
    double general() const
    {
        double s = 0;
        for (auto x : score)
            s += x;
        return s / (double)score.size();
    }
    uint64_t total() const { return std::accumulate(nb.begin(), nb.end(), (uint64_t)0); }
};

class Model {
  public:
    Model(Ctx& c, Setting& s, SimClass& le, Learn::LearningAgent& la)
        : c(c), s(s), le(le), la(la), w2(twin(*s.w)), core(*w2, s.dyn), n(s.dyn.nbActions)
    {
        le.core.keepLog = true;
    }
    std::vector<Episode> takeLog()
    {
        std::vector<Episode> r = std::move(le.core.log);
        le.core.log.clear();
        std::lock_guard<std::mutex> l(le.core.shared->m);
        for (auto& e : le.core.shared->others)
            r.push_back(std::move(e));
        le.core.shared->others.clear();
        return r;
    }
    std::map<V, Rec> evaluation(const std::vector<V>& roots, int mode, bool records)
    {
        auto log = takeLog();
        size_t iters = s.p.nbIterationsPerPolicyEvaluation;
        std::map<V, Rec> expected;
        std::vector<V> evaluated;
        for (auto r : roots) {
            auto it = records ? known.find(r) : known.end();
            if (it != known.end() && it->second.total() >= s.p.maxNbEvaluationPerPolicy) {
                expected[r] = it->second;
                skipped++;
            }
            else
                evaluated.push_back(r);
        }
        c.eq(log.size(), evaluated.size() * iters, "number of episodes for ", evaluated.size(), " evaluated roots");
        std::map<std::pair<uint64_t, std::pair<uint64_t, uint64_t>>, size_t> seeds;
        for (auto& e : log) {
            c.eq(e.mode, mode, "mode of an episode");
            seeds[{e.seed, {e.iter, e.gen}}]++;
        }
        for (auto& x : seeds)
            c.eq(x.second, evaluated.size(), "roots evaluated with a seed");
        std::multiset<std::string> want, got;
        for (auto& e : log)
            got.insert(text(e));
        for (auto r : evaluated) {
            Rec x{std::vector<double>(n, 0.0), std::vector<uint64_t>(n, 0)};
            for (auto& sd : seeds) {
                Episode e{sd.first.first, mode, sd.first.second.first, sd.first.second.second, {}};
                core.reset(e.seed, e.mode, e.iter, e.gen);
                std::vector<std::vector<uint64_t>> table(n, std::vector<uint64_t>(n, 0));
                for (uint64_t i = 0; i < s.p.maxNbActionsPerEval && !core.over(); i++) {
                    auto a = ((const TPG::TPGAction*)refPathBids(*w2, *r, nullptr).back())->getActionID();
                    table[SimClass::classOf(core)][a]++;
                    e.actions.push_back(a);
                    core.act(a);
                }
                want.insert(text(e));
                auto f = f1(table);
                for (size_t k = 0; k < n; k++) {
                    x.score[k] += f[k];
                    for (auto v : table[k])
                        x.nb[k] += v;
                }
                good += (uint64_t)std::count_if(f.begin(), f.end(), [](double v) { return v > 0 && v < 1; });
            }
            for (auto& v : x.score)
                v /= (double)iters;
            auto it = records ? known.find(r) : known.end();
            if (it != known.end()) {
                for (size_t k = 0; k < n; k++) {
                    uint64_t t = x.nb[k] + it->second.nb[k];
                    if (t > 0)
                        x.score[k] = (x.score[k] * (double)x.nb[k] + it->second.score[k] * (double)it->second.nb[k]) / (double)t;
                    x.nb[k] = t;
                }
                combined++;
            }
            expected[r] = x;
        }
        for (auto& t : got)
            if (!want.count(t))
                c.fail("an episode is not that of the policy of a root: ", t);
        c.check(got == want, "the episodes are not those of the roots");
        return expected;
    }
    void compare(const Recorder::Results& r, const std::map<V, Rec>& expected, const std::string& what)
    {
        c.eq(r.size(), expected.size(), "number of results of the ", what);
        std::set<V> seen;
        double last = -INFINITY;
        for (auto& x : r) {
            auto it = expected.find(x.second);
            c.check(it != expected.end(), what, ": result for something which is not a root");
            c.check(seen.insert(x.second).second, what, ": two results for a root");
            auto cr = dynamic_cast<const Learn::ClassificationEvaluationResult*>(x.first.get());
            c.check(cr != nullptr, what, ": type of the result");
            c.eq(cr->getScorePerClass().size(), n, what, ": number of classes");
            for (size_t k = 0; k < n; k++) {
                c.check(near(cr->getScorePerClass()[k], it->second.score[k]), what, ": score of class ", k, " is ", cr->getScorePerClass()[k], " instead of ", it->second.score[k]);
                c.eq(cr->getNbEvaluationPerClass()[k], it->second.nb[k], what, ": number of evaluations of class ", k);
            }
            c.check(near(cr->getResult(), it->second.general()), what, ": general result is ", cr->getResult(), " instead of ", it->second.general());
            c.eq(cr->getNbEvaluation(), it->second.total(), what, ": number of evaluations");
            c.check(cr->getResult() >= last, what, ": results are not sorted");
            last = cr->getResult();
        }
    }
    void generation(uint64_t g)
    {
        std::vector<V> before, roots;
        std::map<V, Rec> expected;
        std::map<V, std::pair<double, std::vector<double>>> result;
        double bestScore = 0;
        size_t actionsBefore = 0;
        if (!rec)
            rec = new Recorder(la, *s.w);
        std::string populated;
        rec->onPopulate = [&] {
            auto vs = la.getTPGGraph()->getVertices();
            before.assign(vs.begin(), vs.end());
            auto rs = la.getTPGGraph()->getRootVertices();
            roots.assign(rs.begin(), rs.end());
            for (auto v : roots)
                actionsBefore += dynamic_cast<const TPG::TPGAction*>(v) != nullptr;
            populated = canon(*s.w, *la.getTPGGraph());
        };
        rec->onEvaluate = [&](Recorder::Results& r) {
            c.check(canon(*s.w, *la.getTPGGraph()) == populated, "the evaluation changes the graph");
            expected = evaluation(roots, (int)Learn::LearningMode::TRAINING, true);
            compare(r, expected, "training evaluation");
            for (auto& x : r)
                result[x.second] = {x.first->getResult(), ((const Learn::ClassificationEvaluationResult*)x.first.get())->getScorePerClass()};
            bestScore = (--r.end())->first->getResult();
        };
        rec->onDecimate = [&] {
            auto vs = la.getTPGGraph()->getVertices();
            std::set<V> now(vs.begin(), vs.end());
            c.check(near(la.getBestScoreLastGen(), bestScore), "best score of the generation");
            size_t total = roots.size();
            size_t keep = total - (size_t)std::floor(s.p.ratioDeletedRoots * (double)total);
            size_t perClass = keep / n / 2;
            std::vector<V> removed, kept;
            for (auto v : before)
                if (!now.count(v)) {
                    c.check(result.count(v) > 0, "a vertex that is not a root is removed");
                    removed.push_back(v);
                }
                else if (result.count(v))
                    kept.push_back(v);
            c.eq(now.size() + removed.size(), before.size(), "vertices after the decimation");
            size_t rootActions = 0;
            for (auto v : kept)
                rootActions += dynamic_cast<const TPG::TPGAction*>(v) != nullptr;
            c.eq(rootActions, actionsBefore, "root actions left by the decimation");
            c.check(kept.size() >= keep && kept.size() <= keep + rootActions, "roots kept: ", kept.size(), " of ", total, " instead of ", keep, " (", rootActions, " root actions)");
            auto better = [&](V v, size_t k, bool strict) {
                size_t nb = 0;
                for (auto& x : result)
                    if (x.first != v && (strict ? x.second.second[k] > result[v].second[k] : x.second.second[k] >= result[v].second[k]))
                        nb++;
                return nb;
            };
            for (auto v : removed) {
                for (size_t k = 0; k < n; k++)
                    c.check(better(v, k, false) >= perClass, "one of the ", perClass, " best roots of class ", k, " is removed");
                for (auto x : kept) {
                    if (dynamic_cast<const TPG::TPGAction*>(x))
                        continue;
                    bool forClass = false;
                    for (size_t k = 0; k < n; k++)
                        forClass = forClass || better(x, k, true) < perClass;
                    c.check(forClass || result[x].first >= result[v].first, "a root of general score ", result[v].first, " is removed, and another one of score ",
                            result[x].first, " is kept, which is not among the best ones of a class");
                    rescued += forClass && result[x].first < result[v].first;
                }
            }
            decimated += removed.size();
            if (perClass > 0)
                c.label("decimations with roots kept per class");
            // Records
            for (auto& x : expected)
                if (now.count(x.first))
                    known[x.first] = x.second;
            for (auto it = known.begin(); it != known.end();)
                it = now.count(it->first) ? std::next(it) : known.erase(it);
            // Best root
            if (best != nullptr && expected.count(best))
                bestRec = expected.at(best);
            if (best != nullptr && result.count(best))
                bestLib = result[best].first;
            double top = -INFINITY;
            for (auto v : kept)
                top = std::max(top, result[v].first);
            auto& b = la.getBestRoot();
            if (best == nullptr || !now.count(best) || bestLib < top) {
                c.check(b.first != nullptr && now.count(b.first) && result.count(b.first), "the best root is not a root of the generation");
                c.check(near(result[b.first].first, top), "the best root has a result of ", result[b.first].first, " and another one ", top);
                best = b.first;
                bestRec = expected.at(best);
                bestLib = top;
            }
            checkBest();
        };
        rec->onValidate = [&](Recorder::Results& r) {
            auto rs = la.getTPGGraph()->getRootVertices();
            auto want = evaluation(std::vector<V>(rs.begin(), rs.end()), (int)Learn::LearningMode::VALIDATION, false);
            compare(r, want, "validation");
            checkBest();
        };
        bool anyTeam = false;
        for (auto v : la.getTPGGraph()->getRootVertices())
            anyTeam = anyTeam || dynamic_cast<const TPG::TPGTeam*>(v);
        if (!anyTeam) {
            known.clear();
            best = nullptr;
        }
        la.trainOneGeneration(g);
        rec->onPopulate = rec->onDecimate = nullptr;
        rec->onEvaluate = rec->onValidate = nullptr;
    }
    void checkBest()
    {
        auto& b = la.getBestRoot();
        c.check(b.first == best, "wrong best root");
        c.check(near(b.second->getResult(), bestRec.general()), "result of the best root is ", b.second->getResult(), " instead of ", bestRec.general());
        c.eq(b.second->getNbEvaluation(), bestRec.total(), "number of evaluations of the best root");
    }

    Ctx& c;
    Setting& s;
    SimClass& le;
    Learn::LearningAgent& la;
    std::unique_ptr<World> w2;
    SimCore core;
    size_t n;
    std::map<V, Rec> known;
    V best = nullptr;
    Rec bestRec;
    double bestLib = 0; // its exact result, already checked
    Recorder* rec = nullptr;
    uint64_t skipped = 0, combined = 0, decimated = 0, good = 0, rescued = 0;
};

static void caseTrain(Ctx& c)
{
    SettingOpts o;
    o.maxGens = c.thorough ? 8 : 4;
    o.maxThreads = 2;
    o.maxRoots = 16;
    o.maxActions = 3;
    Setting s = genSetting(c, o);
    if (c.chance(1, 2))
        s.p.mutation.tpg.nbRoots = (uint64_t)c.in(8, 24);
    s.dyn.nbClassesUsed = c.chance(1, 3) ? (uint64_t)c.in(1, (int64_t)s.dyn.nbActions) : s.dyn.nbActions;
    s.dyn.horizon = (uint64_t)c.in(0, 16);
    s.p.maxNbActionsPerEval = (uint64_t)c.in(1, 16);
    s.p.maxNbEvaluationPerPolicy = (size_t)c.pick(std::vector<int>{1000, 1, 5, 20, 40});
    c.note(s.describe());
    c.note("classes used: ", s.dyn.nbClassesUsed);
    SimClass le(*s.w, s.dyn);
    std::unique_ptr<Learn::LearningAgent> la;
    if (s.p.nbThreads > 1)
        la = std::make_unique<Learn::ClassificationLearningAgent<Learn::ParallelLearningAgent>>(le, s.w->set, s.p);
    else
        la = std::make_unique<Learn::ClassificationLearningAgent<Learn::LearningAgent>>(le, s.w->set, s.p);
    la->init(s.seed);
    Model m(c, s, le, *la);
    uint64_t gens = 0;
    try {
        for (uint64_t g = 0; g < s.gens; g++) {
            c.note("generation ", g);
            m.generation(g);
            gens++;
            if (c.chance(1, 10)) {
                c.note("forgetPreviousResults");
                la->forgetPreviousResults();
                m.known.clear();
                m.best = nullptr;
            }
        }
    }
    catch (const std::exception& e) {
        if (!isKnownDestinationDefect(s, e))
            throw;
        c.label("interrupted by the known defect");
    }
    c.nontrivial(gens >= 2 && m.decimated > 0 && m.good > 0);
    c.label("generations", gens);
    c.label("removed roots", m.decimated);
    c.label("skipped evaluations", m.skipped);
    c.label("combined results", m.combined);
    c.label("roots kept for a class rather than a better one", m.rescued);
}

// The environment itself.
class Direct : public Learn::ClassificationLearningEnvironment {
  public:
    Direct(uint64_t n) : ClassificationLearningEnvironment(n), data(1) {}
    void doAction(uint64_t a) override { ClassificationLearningEnvironment::doAction(a); }
    void reset(size_t seed, Learn::LearningMode m, uint16_t i, uint64_t g) override { ClassificationLearningEnvironment::reset(seed, m, i, g); }
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return {data}; }
    bool isTerminal() const override { return false; }
    void setClass(uint64_t k) { currentClass = k; }
    Data::PrimitiveTypeArray<double> data;
};

static void caseEnvironment(Ctx& c)
{
    uint64_t n = (uint64_t)c.in(1, 6);
    Direct e(n);
    std::vector<std::vector<uint64_t>> t(n, std::vector<uint64_t>(n, 0));
    size_t nb = (size_t)c.in(0, 40), done = 0;
    for (size_t i = 0; i < nb; i++) {
        if (c.chance(1, 25)) {
            e.reset(c.below(100), Learn::LearningMode::TRAINING, 0, 0);
            for (auto& r : t)
                std::fill(r.begin(), r.end(), 0);
            continue;
        }
        uint64_t k = c.below(n), a = c.chance(1, 2) ? k : c.below(n);
        e.setClass(k);
        if (c.chance(1, 20)) {
            bool thrown = false;
            try {
                e.doAction(n + c.below(3));
            }
            catch (const std::runtime_error&) {
                thrown = true;
            }
            c.check(thrown, "an action that does not exist is accepted");
        }
        else {
            e.doAction(a);
            t[k][a]++;
            done++;
        }
        c.check(e.getClassificationTable() == t, "classification table after ", i, " actions");
        auto f = f1(t);
        double mean = std::accumulate(f.begin(), f.end(), 0.0) / (double)n;
        c.check(near(e.getScore(), mean), "score ", e.getScore(), " instead of ", mean);
    }
    c.nontrivial(done > 5 && n > 1);
    c.label("actions", done);
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C14";
    cfg.rule = "training: two generations or more, with removed roots and F1 scores strictly between 0 and 1; environment: more than 5 actions and several classes";
    cfg.assumptions = {
        "the simulated environment is a function of the arguments of reset and of the actions",
        "scores are compared within a relative tolerance of 1e-9",
    };
    cfg.subs = {
        {"train", caseTrain, 5000, 60000},
        {"environment", caseEnvironment, 8000, 100000},
    };
    return pbt::run(argc, argv, cfg);
}
