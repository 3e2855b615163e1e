// C16: adversarial agents give each root the mean of its own scores against
// the champions.
#include "la.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;

#if defined(__SANITIZE_ADDRESS__)
static const uint64_t SCALE = 10;
#else
static const uint64_t SCALE = 1;
#endif

typedef const TPG::TPGVertex* V;

// Gives access to the jobs and champions; the jobs may be replaced.
class Probe : public Learn::AdversarialLearningAgent {
  public:
    using AdversarialLearningAgent::AdversarialLearningAgent;
    struct J {
        std::vector<V> roots;
        int pos;
        uint64_t idx;
    };
    std::vector<J> jobs;
    std::vector<V> championsBefore;
    std::function<std::queue<std::shared_ptr<Learn::Job>>(TPG::TPGGraph&)> custom;
    const std::vector<V>& champs() const { return champions; }
    std::queue<std::shared_ptr<Learn::Job>> makeJobs(Learn::LearningMode mode, TPG::TPGGraph* g) override
    {
        championsBefore = champions;
        auto q = custom ? custom(*tpg) : AdversarialLearningAgent::makeJobs(mode, g);
        if (championsBefore.empty() && !custom)
            championsBefore = champions;
        jobs.clear();
        auto copy = q;
        while (!copy.empty()) {
            auto j = std::dynamic_pointer_cast<Learn::AdversarialJob>(copy.front());
            jobs.push_back({j->getRoots(), j->getPosOfStudiedRoot(), j->getIdx()});
            copy.pop();
        }
        return q;
    }
};

struct Acc {
    double sum = 0;
    uint64_t nb = 0;
};

class Model {
  public:
    Model(Ctx& c, Setting& s, SimAdv& le, Probe& la)
        : c(c), s(s), le(le), la(la), w2(twin(*s.w)), core(*w2, s.dyn), n(s.dyn.players)
    {
        le.core.keepLog = true;
    }
    std::vector<Episode> takeLog()
    {
        std::vector<Episode> r = std::move(le.core.log);
        le.core.log.clear();
        std::lock_guard<std::mutex> l(le.core.shared->m);
        for (auto& e : le.core.shared->others)
            r.push_back(std::move(e));
        le.core.shared->others.clear();
        return r;
    }
    size_t teamsOfChampions() const
    {
        size_t d = n * s.p.nbIterationsPerJob;
        return (s.p.nbIterationsPerPolicyEvaluation + d - 1) / d;
    }
    // The jobs oppose each root to the same opponents, at each position.
    void checkJobs(const std::vector<V>& roots)
    {
        size_t t = teamsOfChampions();
        c.eq(la.jobs.size(), roots.size() * t * n, "number of jobs for ", roots.size(), " roots");
        std::set<V> champs(la.championsBefore.begin(), la.championsBefore.end());
        std::map<V, std::multiset<std::vector<size_t>>> faced;
        std::map<V, std::vector<size_t>> positions;
        std::set<uint64_t> idx;
        auto num = numbering(*la.getTPGGraph());
        for (auto& j : la.jobs) {
            c.check(idx.insert(j.idx).second, "two jobs with the same index");
            c.eq(j.roots.size(), n, "size of a job");
            c.check(j.pos >= 0 && (size_t)j.pos < n, "position of the studied root");
            V r = j.roots[(size_t)j.pos];
            positions[r].resize(n, 0);
            positions[r][(size_t)j.pos]++;
            std::vector<size_t> others{(size_t)j.pos};
            for (size_t i = 0; i < n; i++) {
                c.check(num.count(j.roots[i]) > 0, "a job uses a vertex that is not in the graph");
                if (i == (size_t)j.pos)
                    continue;
                c.check(champs.count(j.roots[i]) > 0, "an opponent is not a champion");
                others.push_back(num[j.roots[i]]);
            }
            faced[r].insert(others);
        }
        for (auto r : roots) {
            c.check(faced.count(r) > 0, "a root is in no job");
            for (auto p : positions[r])
                c.eq(p, t, "jobs of a root at a position");
            c.check(faced[r] == faced[roots[0]], "two roots do not face the same opponents");
        }
    }
    std::map<V, Acc> evaluation(const std::vector<V>& roots, int mode)
    {
        auto log = takeLog();
        size_t iters = s.p.nbIterationsPerJob;
        c.eq(log.size(), la.jobs.size() * iters, "number of episodes for ", la.jobs.size(), " jobs");
        std::map<uint64_t, size_t> seeds;
        for (auto& e : log) {
            c.eq(e.mode, mode, "mode of an episode");
            seeds[e.seed]++;
        }
        c.check(log.empty() || seeds.size() == iters, "number of different seeds: ", seeds.size(), " for ", iters, " iterations");
        for (auto& x : seeds)
            c.eq(x.second, la.jobs.size(), "jobs evaluated with a seed");
        std::multiset<std::string> want, got;
        for (auto& e : log)
            got.insert(text(e));
        std::map<V, Acc> acc;
        for (auto& j : la.jobs) {
            std::vector<double> sum(n, 0.0);
            for (auto& sd : seeds) {
                Episode e{sd.first, mode, log[0].iter, log[0].gen, {}};
                core.reset(e.seed, e.mode, e.iter, e.gen);
                uint64_t played = 0;
                while (!core.over() && played < s.p.maxNbActionsPerEval * n) {
                    auto a = ((const TPG::TPGAction*)refPathBids(*w2, *j.roots[played % n], nullptr).back())->getActionID();
                    e.actions.push_back(a);
                    core.act(a);
                    played++;
                }
                actions += played;
                want.insert(text(e));
                auto sc = SimAdv::scores(core);
                for (size_t i = 0; i < n; i++)
                    sum[i] += sc[i];
            }
            for (size_t i = 0; i < n; i++)
                if (j.pos < 0 || (size_t)j.pos == i) {
                    // mean of the job, weighted by its evaluations
                    acc[j.roots[i]].sum += sum[i] * (double)s.dyn.nbEval;
                    acc[j.roots[i]].nb += iters * s.dyn.nbEval;
                }
        }
        for (auto& t : got)
            if (!want.count(t))
                c.fail("an episode is not that of a job: ", t);
        c.check(got == want, "the episodes are not those of the jobs");
        return acc;
    }
    void compare(const Recorder::Results& r, const std::vector<V>& roots, const std::map<V, Acc>& acc, const std::string& what)
    {
        c.eq(r.size(), roots.size(), "number of results of the ", what);
        std::set<V> seen;
        double last = -INFINITY;
        for (auto& x : r) {
            c.check(std::find(roots.begin(), roots.end(), x.second) != roots.end(), what, ": result for something which is not a root");
            c.check(seen.insert(x.second).second, what, ": two results for a root");
            auto& a = acc.at(x.second);
            c.check(near(x.first->getResult(), a.sum / (double)a.nb), what, ": result ", x.first->getResult(), " instead of ", a.sum / (double)a.nb);
            c.eq(x.first->getNbEvaluation(), a.nb, what, ": number of evaluations of a root");
            c.check(x.first->getResult() >= last, what, ": results are not sorted");
            last = x.first->getResult();
        }
        // The champions are the best roots
        double x = (1.0 - s.p.ratioDeletedRoots) * (double)roots.size();
        size_t nb = la.champs().size();
        c.check((double)nb >= std::floor(x - 1e-6) && (double)nb <= std::max(0.0, std::floor(x + 1e-6)), what, ": ", nb, " champions for ", roots.size(), " roots");
        std::map<V, double> result;
        for (auto& y : r)
            result[y.second] = y.first->getResult();
        std::set<V> ch(la.champs().begin(), la.champs().end());
        c.eq(ch.size(), nb, what, ": a champion appears twice");
        double worst = INFINITY;
        for (auto v : ch) {
            c.check(result.count(v) > 0, what, ": a champion is not a root");
            worst = std::min(worst, result[v]);
        }
        for (auto& y : result)
            if (!ch.count(y.first) && nb > 0)
                c.check(y.second <= worst, what, ": a root of result ", y.second, " is not a champion and one of result ", worst, " is");
    }
    void generation(uint64_t g)
    {
        std::vector<V> before, roots;
        std::map<V, double> result;
        std::map<V, uint64_t> nbEval;
        if (!rec)
            rec = new Recorder(la, *s.w);
        std::string populated;
        rec->onPopulate = [&] {
            auto vs = la.getTPGGraph()->getVertices();
            before.assign(vs.begin(), vs.end());
            auto rs = la.getTPGGraph()->getRootVertices();
            roots.assign(rs.begin(), rs.end());
            populated = canon(*s.w, *la.getTPGGraph());
        };
        rec->onEvaluate = [&](Recorder::Results& r) {
            c.check(canon(*s.w, *la.getTPGGraph()) == populated, "the evaluation changes the graph");
            if (!la.custom)
                checkJobs(roots);
            compare(r, roots, evaluation(roots, (int)Learn::LearningMode::TRAINING), "training evaluation");
            for (auto& x : r) {
                result[x.second] = x.first->getResult();
                nbEval[x.second] = x.first->getNbEvaluation();
            }
        };
        rec->onDecimate = [&] {
            auto vs = la.getTPGGraph()->getVertices();
            std::set<V> now(vs.begin(), vs.end());
            double worstKept = INFINITY, bestRemoved = -INFINITY, top = -INFINITY;
            size_t removed = 0, teams = 0;
            for (auto v : before) {
                bool gone = !now.count(v);
                c.check(!gone || result.count(v), "a vertex that is not a root is removed");
                if (!result.count(v))
                    continue;
                if (gone) {
                    removed++;
                    teams++;
                    bestRemoved = std::max(bestRemoved, result[v]);
                    continue;
                }
                top = std::max(top, result[v]);
                if (dynamic_cast<const TPG::TPGTeam*>(v)) {
                    teams++;
                    worstKept = std::min(worstKept, result[v]);
                }
            }
            c.eq(removed, std::min(teams, (size_t)std::floor(s.p.ratioDeletedRoots * (double)s.p.mutation.tpg.nbRoots)), "removed roots");
            c.check(bestRemoved <= worstKept, "a better root team is removed");
            decimated += removed;
            size_t lost = 0;
            for (auto v : la.champs())
                c.check(now.count(v) > 0, "a champion was removed from the graph");
            (void)lost;
            if (best && result.count(best) && now.count(best))
                bestResult = result[best];
            auto& b = la.getBestRoot();
            bool any = top > -INFINITY;
            if (any && (!best || !now.count(best) || bestResult < top)) {
                c.check(b.first && now.count(b.first) && result.count(b.first), "the best root is not a root of the generation");
                c.eq(result[b.first], top, "result of the best root");
                best = b.first;
                bestResult = top;
            }
            else if (best && !now.count(best))
                best = nullptr;
            c.check(b.first == best, "wrong best root");
            if (best)
                c.eq(b.second->getResult(), bestResult, "recorded result of the best root");
        };
        rec->onValidate = [&](Recorder::Results& r) {
            auto rs = la.getTPGGraph()->getRootVertices();
            std::vector<V> roots2(rs.begin(), rs.end());
            if (!la.custom && !roots2.empty())
                checkJobs(roots2);
            compare(r, roots2, evaluation(roots2, (int)Learn::LearningMode::VALIDATION), "validation");
        };
        bool anyTeam = false;
        for (auto v : la.getTPGGraph()->getRootVertices())
            anyTeam = anyTeam || dynamic_cast<const TPG::TPGTeam*>(v);
        if (!anyTeam)
            best = nullptr;
        la.trainOneGeneration(g);
        rec->onPopulate = rec->onDecimate = nullptr;
        rec->onEvaluate = rec->onValidate = nullptr;
    }

    Ctx& c;
    Setting& s;
    SimAdv& le;
    Probe& la;
    std::unique_ptr<World> w2;
    SimCore core;
    size_t n;
    V best = nullptr;
    double bestResult = 0;
    Recorder* rec = nullptr;
    uint64_t decimated = 0, actions = 0;
};

static void history(Ctx& c, bool custom)
{
    SettingOpts o;
    o.maxGens = c.thorough ? 10 : 5;
    o.maxThreads = 2;
    o.maxRoots = 8;
    Setting s = genSetting(c, o);
    if (c.chance(1, 12))
        s.p.ratioDeletedRoots = 1.0;
    s.dyn.players = (uint64_t)c.in(1, 4);
    s.dyn.nbEval = (uint64_t)c.pick(std::vector<int>{1, 1, 3});
    s.dyn.horizon *= s.dyn.players;
    s.p.nbIterationsPerJob = (size_t)c.in(1, 3);
    s.p.nbIterationsPerPolicyEvaluation = (uint64_t)c.in(1, 8);
    c.note(s.describe());
    c.note(s.dyn.players, " players, ", s.p.nbIterationsPerJob, " iterations per job, ", s.dyn.nbEval, " evaluations per episode");
    SimAdv le(*s.w, s.dyn);
    Probe la(le, s.w->set, s.p, s.dyn.players);
    la.init(s.seed);
    if (custom)
        la.custom = [&](TPG::TPGGraph& g) {
            // Any jobs, as long as each root is in one of them
            std::queue<std::shared_ptr<Learn::Job>> q;
            auto roots = g.getRootVertices();
            uint64_t idx = 0;
            size_t extra = roots.empty() ? 0 : (size_t)c.in(0, 4);
            for (size_t i = 0; i < roots.size() + extra; i++) {
                V r = i < roots.size() ? roots[i] : roots[c.below(roots.size())];
                size_t pos = c.below(s.dyn.players);
                bool all = c.chance(1, 2);
                auto j = std::make_shared<Learn::AdversarialJob>(std::initializer_list<V>{}, c.below(1000), idx++, all ? (int16_t)-1 : (int16_t)pos);
                for (size_t k = 0; k < s.dyn.players; k++)
                    j->addRoot(k == pos ? r : roots[c.below(roots.size())]);
                q.push(j);
            }
            return q;
        };
    Model m(c, s, le, la);
    uint64_t gens = 0;
    try {
        for (uint64_t g = 0; g < s.gens; g++) {
            c.note("generation ", g);
            m.generation(g);
            gens++;
            switch (c.below(12)) {
            case 0:
                c.note("keepBestPolicy");
                la.keepBestPolicy();
                if (m.best) {
                    auto r = la.getTPGGraph()->getRootVertices();
                    c.check(r.size() == 1 && r[0] == m.best, "keepBestPolicy: the best root is not the only root");
                }
                for (auto v : la.champs())
                    c.check(la.getTPGGraph()->hasVertex(*v), "keepBestPolicy: a champion was removed from the graph");
                break;
            case 1:
                c.note("init");
                la.init(c.below(1000));
                m.best = nullptr;
                for (auto v : la.champs())
                    c.check(la.getTPGGraph()->hasVertex(*v), "init: a champion is not in the graph");
                break;
            case 2: {
                c.note("testing");
                auto r = la.evaluateAllRoots(c.below(10), Learn::LearningMode::TESTING);
                auto rs = la.getTPGGraph()->getRootVertices();
                std::vector<V> roots(rs.begin(), rs.end());
                if (!custom && !roots.empty())
                    m.checkJobs(roots);
                m.compare(r, roots, m.evaluation(roots, (int)Learn::LearningMode::TESTING), "testing");
                break;
            }
            default:
                break;
            }
        }
    }
    catch (const std::exception& e) {
        if (!isKnownDestinationDefect(s, e))
            throw;
        c.label("interrupted by the known defect");
    }
    c.check(!le.core.shared->badAction, "an action that does not exist is done");
    c.nontrivial(gens >= 2 && m.decimated > 0 && m.actions > 0 && s.dyn.players > 1);
    c.label("generations", gens);
    c.label("removed roots", m.decimated);
    c.label("players", s.dyn.players);
}

static void caseTrain(Ctx& c) { history(c, false); }
static void caseCustom(Ctx& c) { history(c, true); }

// An environment that cannot be copied is refused for several threads.
static void caseRefused(Ctx& c)
{
    SettingOpts o;
    o.maxRoots = 4;
    Setting s = genSetting(c, o);
    s.dyn.copyable = c.chance(1, 2);
    s.p.nbThreads = (size_t)c.in(1, 3);
    c.note(s.describe());
    SimAdv le(*s.w, s.dyn);
    Probe la(le, s.w->set, s.p, s.dyn.players);
    la.init(s.seed);
    bool thrown = false;
    try {
        la.evaluateAllRoots(0, Learn::LearningMode::TESTING);
    }
    catch (const std::runtime_error&) {
        thrown = true;
    }
    c.eq(thrown, !s.dyn.copyable && s.p.nbThreads > 1, "refusal of an environment that cannot be copied");
    c.nontrivial(thrown);
    bool single = false;
    try {
        la.evaluateOneRoot(0, Learn::LearningMode::TESTING, la.getTPGGraph()->getRootVertices().at(0));
    }
    catch (const std::runtime_error&) {
        single = true;
    }
    c.check(single, "evaluateOneRoot is documented not to be supported");
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C16";
    cfg.rule = "training: several players, two generations or more, removed roots and actions done; refusal: an environment that cannot be copied";
    cfg.assumptions = {
        "the simulated environment is a function of the arguments of reset and of the actions",
        "results are compared within a relative tolerance of 1e-9",
    };
    cfg.subs = {
        {"train", caseTrain, 5000 / SCALE, 60000 / SCALE},
        {"custom jobs", caseCustom, 3000 / SCALE, 40000 / SCALE},
        {"refused", caseRefused, 300, 2000},
    };
    return pbt::run(argc, argv, cfg);
}
