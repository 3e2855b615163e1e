// C13: each generation evaluates, records and removes the roots as configured.
#include "la.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;

#if defined(__SANITIZE_ADDRESS__)
static const uint64_t SCALE = 15;
#else
static const uint64_t SCALE = 1;
#endif

typedef const TPG::TPGVertex* V;

struct Rec {
    double result;
    uint64_t nb;
};

// Everything expected of an agent, computed by simulation.
class Model {
  public:
    Model(Ctx& c, Setting& s, SimEnv& le, Learn::LearningAgent& la, bool parallel)
        : c(c), s(s), le(le), la(la), parallel(parallel), w2(twin(*s.w)), core(*w2, s.dyn)
    {
        le.core.keepLog = true;
    }

    // The episodes played since the last call.
    std::vector<Episode> takeLog()
    {
        std::vector<Episode> r = std::move(le.core.log);
        le.core.log.clear();
        std::lock_guard<std::mutex> l(le.core.shared->m);
        for (auto& e : le.core.shared->others)
            r.push_back(std::move(e));
        le.core.shared->others.clear();
        return r;
    }

    // Checks the evaluation of these roots, and gives the expected results.
    std::map<V, Rec> evaluation(const std::vector<V>& roots, int mode, uint64_t gen, bool records)
    {
        auto log = takeLog();
        size_t n = s.p.nbIterationsPerPolicyEvaluation;
        std::map<V, Rec> expected;
        std::vector<V> evaluated;
        for (auto r : roots) {
            auto it = records ? known.find(r) : known.end();
            if (it != known.end() && it->second.nb >= s.p.maxNbEvaluationPerPolicy) {
                expected[r] = it->second;
                skipped++;
            }
            else
                evaluated.push_back(r);
        }
        c.eq(log.size(), evaluated.size() * n, "number of episodes for ", evaluated.size(), " evaluated roots");
        // The same seeds for all the roots
        std::map<uint64_t, uint64_t> seeds;
        for (auto& e : log) {
            c.eq(e.mode, mode, "mode of an episode");
            c.eq(e.gen, gen, "generation given to reset");
            c.check(e.iter < n, "iteration ", e.iter, " given to reset");
            auto ins = seeds.insert({e.iter, e.seed});
            c.eq(e.seed, ins.first->second, "seed of iteration ", e.iter, " for another root");
        }
        std::set<uint64_t> distinct;
        for (auto& x : seeds)
            distinct.insert(x.second);
        c.eq(distinct.size(), seeds.size(), "different seeds for the iterations");
        std::multiset<std::string> want, got;
        for (auto& e : log)
            got.insert(text(e));
        for (auto r : evaluated) {
            double sum = 0;
            for (uint64_t i = 0; i < n; i++) {
                Episode e{seeds.count(i) ? seeds[i] : 0, mode, i, gen, {}};
                std::vector<double> b;
                refEpisode(*w2, core, *r, e, s.p.maxNbActionsPerEval, &b);
                if (mode == (int)Learn::LearningMode::TRAINING)
                    bids.insert(bids.end(), b.begin(), b.end());
                sum += core.score(5);
                want.insert(text(e));
                actions += e.actions.size();
            }
            Rec x{sum / (double)n, n};
            auto it = records ? known.find(r) : known.end();
            if (it != known.end()) {
                x.result = (x.result * (double)x.nb + it->second.result * (double)it->second.nb) / (double)(x.nb + it->second.nb);
                x.nb += it->second.nb;
                combined++;
            }
            expected[r] = x;
        }
        for (auto& t : got)
            if (!want.count(t))
                c.fail("an episode is not that of the policy of a root: ", t, "\nexpected for instance: ", want.empty() ? "none" : *want.begin());
        c.check(got == want, "the episodes are not those of the roots");
        return expected;
    }

    void compare(const Recorder::Results& r, const std::map<V, Rec>& expected, const std::string& what)
    {
        c.eq(r.size(), expected.size(), "number of results of the ", what);
        std::set<V> seen;
        double last = -INFINITY;
        for (auto& x : r) {
            auto it = expected.find(x.second);
            c.check(it != expected.end(), what, ": result for something which is not a root");
            c.check(seen.insert(x.second).second, what, ": two results for a root");
            c.check(near(x.first->getResult(), it->second.result), what, ": result ", x.first->getResult(), " instead of ", it->second.result);
            c.eq(x.first->getNbEvaluation(), it->second.nb, what, ": number of evaluations of a root");
            c.check(x.first->getResult() >= last, what, ": results are not sorted");
            last = x.first->getResult();
        }
    }

    void checkArchive()
    {
        auto& a = la.getArchive();
        if (s.p.archivingProbability == 1.0) {
            size_t want = std::min(bids.size(), s.p.archiveSize);
            c.eq(a.getNbRecordings(), want, "recordings, of ", bids.size(), " executions of programs");
            if (!parallel && exactOrder)
                for (size_t i = 0; i < want; i++)
                    c.check(sameDouble(a.at(i).result, bids[bids.size() - want + i]), "recording ", i, " is ", a.at(i).result, " instead of ",
                            bids[bids.size() - want + i]);
        }
        else if (s.p.archivingProbability == 0.0)
            c.eq(a.getNbRecordings(), 0u, "recordings with a null probability");
        else
            c.check(a.getNbRecordings() <= std::min(bids.size(), s.p.archiveSize), "too many recordings");
    }

    void checkBest(const std::string& when)
    {
        auto& b = la.getBestRoot();
        if (best == nullptr) {
            c.check(b.first == nullptr && b.second == nullptr, when, ": there should be no best root");
            return;
        }
        c.check(b.first == best, when, ": wrong best root");
        c.check(b.second != nullptr && near(b.second->getResult(), bestRec.result), when, ": result of the best root is ", b.second->getResult(), " instead of ", bestRec.result);
        c.eq(b.second->getNbEvaluation(), bestRec.nb, when, ": number of evaluations of the best root");
    }

    void generation(uint64_t g)
    {
        std::string events;
        std::vector<V> before, roots;
        std::string populated;
        std::map<V, Rec> expected;
        // Loggers cannot be removed: this one lives as long as the agent.
        if (!rec)
            rec = new Recorder(la, *s.w);
        rec->onNew = [&](uint64_t n) {
            events += "n";
            c.eq(n, g, "generation given to the loggers");
        };
        rec->onPopulate = [&] {
            events += "p";
            auto vs = la.getTPGGraph()->getVertices();
            before.assign(vs.begin(), vs.end());
            nbActionsBefore = 0;
            for (auto v : before)
                nbActionsBefore += dynamic_cast<const TPG::TPGAction*>(v) != nullptr;
            auto rs = la.getTPGGraph()->getRootVertices();
            roots.assign(rs.begin(), rs.end());
            populated = canon(*s.w, *la.getTPGGraph());
            c.check(takeLog().empty(), "episodes played during the population");
        };
        rec->onEvaluate = [&](Recorder::Results& r) {
            events += "e";
            c.check(canon(*s.w, *la.getTPGGraph()) == populated, "the evaluation changes the graph");
            expected = evaluation(roots, (int)Learn::LearningMode::TRAINING, g, true);
            compare(r, expected, "training evaluation");
            evaluated = r;
        };
        rec->onDecimate = [&] {
            events += "d";
            checkDecimation(before, roots, expected);
            checkBest("after the decimation");
        };
        rec->onValidate = [&](Recorder::Results& r) {
            events += "v";
            auto rs = la.getTPGGraph()->getRootVertices();
            auto want = evaluation(std::vector<V>(rs.begin(), rs.end()), (int)Learn::LearningMode::VALIDATION, g, false);
            compare(r, want, "validation");
            checkBest("after the validation");
        };
        rec->onEnd = [&] { events += "z"; };
        // The graph is replaced when no root team is left
        bool anyTeam = false;
        for (auto v : la.getTPGGraph()->getRootVertices())
            anyTeam = anyTeam || dynamic_cast<const TPG::TPGTeam*>(v);
        if (!anyTeam) {
            known.clear();
            best = nullptr;
            replaced++;
        }
        la.trainOneGeneration(g);
        c.eq(events, std::string(s.p.doValidation ? "npedvz" : "npedz"), "order of the calls of the loggers");
        c.check(takeLog().empty(), "episodes played after the generation");
        checkArchive();
        rec->onNew = nullptr;
        rec->onPopulate = rec->onDecimate = rec->onEnd = nullptr;
        rec->onEvaluate = rec->onValidate = nullptr;
    }

    void checkDecimation(const std::vector<V>& before, const std::vector<V>& roots, const std::map<V, Rec>& expected)
    {
        auto vs = la.getTPGGraph()->getVertices();
        std::set<V> now(vs.begin(), vs.end()), was(before.begin(), before.end());
        c.check(near(la.getBestScoreLastGen(), (--evaluated.end())->first->getResult()), "best score of the generation is ", la.getBestScoreLastGen(), " instead of ",
                (--evaluated.end())->first->getResult());
        for (auto v : now)
            c.check(was.count(v), "a vertex appears during the decimation");
        std::map<V, double> result;
        for (auto& x : evaluated)
            result[x.second] = x.first->getResult();
        double worstKept = INFINITY, bestRemoved = -INFINITY;
        size_t removed = 0, teams = 0;
        for (auto v : before) {
            bool gone = !now.count(v);
            bool isRoot = result.count(v) > 0;
            if (!isRoot) {
                c.check(!gone, "a vertex that is not a root is removed");
                continue;
            }
            if (roots.end() == std::find(roots.begin(), roots.end(), v))
                c.fail("result for a vertex that is not a root");
            bool action = !gone && dynamic_cast<const TPG::TPGAction*>(v);
            if (gone) {
                removed++;
                teams++;
                bestRemoved = std::max(bestRemoved, result[v]);
            }
            else if (!action) {
                teams++;
                worstKept = std::min(worstKept, result[v]);
            }
        }
        size_t want = std::min(teams, (size_t)std::floor(s.p.ratioDeletedRoots * (double)s.p.mutation.tpg.nbRoots));
        // (removed actions are counted as teams above, and detected here)
        c.eq(la.getTPGGraph()->getNbVertices(), before.size() - want, "vertices left by the decimation of ", before.size(), " with ", teams, " root teams");
        c.eq(removed, want, "removed roots");
        size_t nbActions = 0;
        for (auto v : now)
            nbActions += dynamic_cast<const TPG::TPGAction*>(v) != nullptr;
        c.eq(nbActions, nbActionsBefore, "actions left");
        c.check(bestRemoved <= worstKept, "a root team of result ", bestRemoved, " is removed and another one of result ", worstKept, " kept");
        decimated += removed;
        for (auto& x : expected)
            if (now.count(x.first))
                known[x.first] = x.second;
        for (auto it = known.begin(); it != known.end();)
            it = now.count(it->first) ? std::next(it) : known.erase(it);
        // Best root
        if (best != nullptr && expected.count(best))
            bestRec = expected.at(best);
        if (best != nullptr && result.count(best))
            bestLib = result[best];
        double top = -INFINITY;
        for (auto& x : result)
            if (now.count(x.first))
                top = std::max(top, x.second);
        auto& b = la.getBestRoot();
        bool any = top > -INFINITY;
        if (any && (best == nullptr || !now.count(best) || bestLib < top)) {
            c.check(b.first != nullptr && now.count(b.first), "the best root is not in the graph");
            c.check(expected.count(b.first) > 0, "the best root is not a root of the generation");
            c.check(near(result[b.first], top), "the best root has a result of ", result[b.first], " and another one ", top);
            best = b.first;
            bestRec = expected.at(best);
            bestLib = top;
            newBest++;
        }
        else if (best != nullptr && !now.count(best))
            best = nullptr;
    }

    void keepBest()
    {
        auto g = la.getTPGGraph();
        std::set<V> keep;
        std::vector<V> todo;
        std::map<V, std::string> paths;
        if (best != nullptr)
            todo.push_back(best);
        while (!todo.empty()) {
            V v = todo.back();
            todo.pop_back();
            if (keep.insert(v).second)
                for (auto e : v->getOutgoingEdges())
                    todo.push_back(e->getDestination());
        }
        auto path = [&] {
            std::string t;
            if (best != nullptr)
                for (auto v : refPathBids(*w2, *best, nullptr))
                    t += std::to_string((uintptr_t)v) + " ";
            return t;
        };
        auto vs = g->getVertices();
        std::string p = path();
        la.keepBestPolicy();
        if (best == nullptr)
            c.check(g->getVertices() == vs, "keepBestPolicy without best root changes the graph");
        else {
            auto now = g->getVertices();
            c.check(std::set<V>(now.begin(), now.end()) == keep, "keepBestPolicy keeps ", now.size(), " vertices, the best policy has ", keep.size());
            auto r = g->getRootVertices();
            c.check(r.size() == 1 && r[0] == best, "the best root is not the only root");
            c.check(path() == p, "keepBestPolicy changes the best policy");
            for (auto it = known.begin(); it != known.end();)
                it = keep.count(it->first) ? std::next(it) : known.erase(it);
            kept++;
        }
        checkBest("after keepBestPolicy");
    }

    void evaluateOne()
    {
        auto vs = la.getTPGGraph()->getVertices();
        std::vector<V> cand(vs.begin(), vs.end());
        auto rs = la.getTPGGraph()->getRootVertices();
        if (c.chance(2, 3) && !rs.empty())
            cand.assign(rs.begin(), rs.end());
        if (cand.empty())
            return;
        V v = c.pick(cand);
        int mode = (int)c.below(3);
        uint64_t gen = c.below(20);
        takeLog();
        if (la.getTPGGraph()->getNbRootVertices() == 0)
            return;
        auto r = la.evaluateOneRoot(gen, (Learn::LearningMode)mode, v);
        auto want = evaluation({v}, mode, gen, mode == (int)Learn::LearningMode::TRAINING);
        Recorder::Results one;
        one.insert({r, v});
        compare(one, want, "evaluation of one root");
        checkArchive();
        checkBest("after the evaluation of one root");
    }

    void evaluateAll()
    {
        int mode = (int)c.below(3);
        uint64_t gen = c.below(20);
        auto rs = la.getTPGGraph()->getRootVertices();
        takeLog();
        auto r = la.evaluateAllRoots(gen, (Learn::LearningMode)mode);
        auto want = evaluation(std::vector<V>(rs.begin(), rs.end()), mode, gen, mode == (int)Learn::LearningMode::TRAINING);
        compare(r, want, "evaluation of all roots");
        checkArchive();
        checkBest("after an evaluation of all roots");
    }

    void reset()
    {
        known.clear();
        best = nullptr;
    }

    Ctx& c;
    Setting& s;
    SimEnv& le;
    Learn::LearningAgent& la;
    bool parallel, exactOrder = true;
    std::unique_ptr<World> w2;
    SimCore core;
    std::map<V, Rec> known;
    V best = nullptr;
    Rec bestRec{};
    double bestLib = 0; // its exact result, already checked
    std::vector<double> bids;
    Recorder::Results evaluated;
    Recorder* rec = nullptr;
    size_t nbActionsBefore = 0;
    uint64_t skipped = 0, combined = 0, decimated = 0, actions = 0, newBest = 0, replaced = 0, kept = 0;
};

static void caseHistory(Ctx& c)
{
    SettingOpts o;
    o.maxGens = c.thorough ? 12 : 6;
    o.maxThreads = 3;
    Setting s = genSetting(c, o);
    if (c.chance(1, 12))
        s.p.ratioDeletedRoots = 1.0;
    if (c.chance(1, 3))
        s.p.archiveSize = 5000;
    c.note(s.describe());
    bool parallel = s.p.nbThreads > 1;
    SimEnv le(*s.w, s.dyn);
    std::unique_ptr<Learn::LearningAgent> la;
    if (parallel || c.chance(1, 4))
        la = std::make_unique<Learn::ParallelLearningAgent>(le, s.w->set, s.p);
    else
        la = std::make_unique<Learn::LearningAgent>(le, s.w->set, s.p);
    la->init(s.seed);
    Model m(c, s, le, *la, parallel);
    uint64_t gens = 0;
    bool plain = c.chance(1, 2);
    std::string history;
    try {
        for (uint64_t g = 0; g < s.gens; g++) {
            history = "generation " + std::to_string(g);
            c.note(history);
            m.generation(g);
            gens++;
            if (plain || !c.chance(1, 2))
                continue;
            switch (c.below(6)) {
            case 0:
                c.note("keepBestPolicy");
                m.keepBest();
                break;
            case 1:
                c.note("forgetPreviousResults");
                la->forgetPreviousResults();
                m.reset();
                m.checkBest("after forgetPreviousResults");
                break;
            case 2:
                c.note("init");
                la->init(c.below(1000));
                m.reset();
                m.bids.clear();
                m.checkBest("after init");
                m.checkArchive();
                break;
            case 3:
            case 4:
                c.note("evaluateOneRoot");
                m.evaluateOne();
                break;
            default:
                c.note("evaluateAllRoots");
                m.evaluateAll();
                break;
            }
        }
        if (c.chance(1, 3)) {
            c.note("keepBestPolicy");
            m.keepBest();
        }
    }
    catch (const std::exception& e) {
        if (!isKnownDestinationDefect(s, e))
            throw;
        c.label("interrupted by the known defect");
    }
    c.check(!le.core.shared->badAction, "an action that does not exist is done");
    c.nontrivial(gens >= 2 && m.decimated > 0 && m.actions > 0);
    c.label(parallel ? "parallel" : "sequential");
    c.label("generations", gens);
    c.label("removed roots", m.decimated);
    c.label("skipped evaluations", m.skipped);
    c.label("combined results", m.combined);
    c.label("best root replaced", m.newBest);
    c.label("graph replaced", m.replaced);
    c.label("best policy kept", m.kept);
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C13";
    cfg.rule = "two generations or more, in which roots are removed and actions done";
    cfg.assumptions = {
        "the simulated environment is a function of the arguments of reset and of the actions",
        "results are compared within a relative tolerance of 1e-9",
    };
    cfg.subs = {
        {"history", caseHistory, 12000 / SCALE, 150000 / SCALE},
    };
    return pbt::run(argc, argv, cfg);
}
