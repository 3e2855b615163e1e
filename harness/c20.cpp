// C20: the instrumentation of a graph counts exactly what was executed, and the
// statistics of the executions are computed from all of it.
#include "la.h"
#include <algorithm>
#include <fstream>
#include <json.h>
#include <thread>
#include <tpg/instrumented/executionStats.h>
#include <tpg/instrumented/tpgActionInstrumented.h>
#include <tpg/instrumented/tpgEdgeInstrumented.h>
#include <tpg/instrumented/tpgInstrumentedFactory.h>
#include <tpg/instrumented/tpgTeamInstrumented.h>
#include <unistd.h>
using pbt::Ctx;
using namespace gg;

typedef std::vector<const TPG::TPGVertex*> Path;

struct Counts {
    std::map<const TPG::TPGVertex*, uint64_t> visits;
    std::map<const TPG::TPGEdge*, uint64_t> evaluated, traversed;
    // The edge taken out of each team is part of the path of the reference.
    void add(const World& w, const Path& p, uint64_t n = 1)
    {
        for (size_t i = 0; i < p.size(); i++) {
            visits[p[i]] += n;
            if (i + 1 == p.size())
                continue;
            const TPG::TPGEdge* best = nullptr;
            double bid = 0;
            for (auto e : p[i]->getOutgoingEdges()) {
                evaluated[e] += n;
                double b = refBid(w, *e);
                if (!best || b >= bid) {
                    best = e;
                    bid = b;
                }
            }
            traversed[best] += n;
        }
    }
};

static uint64_t visitsOf(const TPG::TPGVertex& v)
{
    return dynamic_cast<const TPG::TPGVertexInstrumentation&>(v).getNbVisits();
}

static void checkCounts(Ctx& c, const TPG::TPGGraph& g, Counts& m)
{
    auto num = numbering(g);
    for (auto v : g.getVertices()) {
        c.eq(visitsOf(*v), m.visits[v], "visits of vertex ", num[v]);
        size_t k = 0;
        for (auto e : v->getOutgoingEdges()) {
            auto& ei = dynamic_cast<const TPG::TPGEdgeInstrumented&>(*e);
            c.eq(ei.getNbVisits(), m.evaluated[e], "visits of edge ", k, " of vertex ", num[v]);
            c.eq(ei.getNbTraversal(), m.traversed[e], "traversals of edge ", k, " of vertex ", num[v]);
            k++;
        }
    }
}

// Statistics of a set of executions.
struct Numbers {
    uint64_t teams = 0, programs = 0, lines = 0;
    std::map<size_t, uint64_t> instructions;
};
static Numbers numbersOf(const World& w, const Path& p)
{
    Numbers n;
    for (size_t i = 0; i + 1 < p.size(); i++) {
        n.teams++;
        for (auto e : p[i]->getOutgoingEdges()) {
            n.programs++;
            MProg m = readProg(w, e->getProgram());
            n.lines += m.lines.size();
            for (auto& l : m.lines)
                n.instructions[l.ins]++;
        }
    }
    return n;
}

template <class K> static std::string text(const std::map<K, size_t>& m)
{
    std::ostringstream o;
    for (auto& x : m)
        o << x.first << ":" << x.second << " ";
    return o.str();
}

static void checkStats(Ctx& c, const World& w, TPG::TPGGraph& g, const TPG::TPGExecutionEngineInstrumented& engine, const std::vector<Path>& history,
                       const std::vector<Path>& all, TPG::ExecutionStats& s)
{
    s.analyzeExecution(engine, &g);
    // Averages: over all the executions of the graph since the last reset
    Numbers t;
    for (auto& p : all) {
        Numbers n = numbersOf(w, p);
        t.teams += n.teams;
        t.programs += n.programs;
        t.lines += n.lines;
        for (auto& x : n.instructions)
            t.instructions[x.first] += x.second;
    }
    double k = (double)all.size();
    c.check(near(s.getAvgEvaluatedTeams(), (double)t.teams / k), "average number of teams ", s.getAvgEvaluatedTeams(), ", expected ", (double)t.teams / k);
    c.check(near(s.getAvgEvaluatedPrograms(), (double)t.programs / k), "average number of programs ", s.getAvgEvaluatedPrograms(), ", expected ", (double)t.programs / k);
    c.check(near(s.getAvgExecutedLines(), (double)t.lines / k), "average number of lines ", s.getAvgExecutedLines(), ", expected ", (double)t.lines / k);
    auto& ai = s.getAvgNbExecutionPerInstruction();
    for (size_t i = 0; i < w.ins.size(); i++) {
        double got = ai.count(i) ? ai.at(i) : 0.0;
        c.check(near(got, (double)t.instructions[i] / k), "average number of executions of instruction ", i, ": ", got, ", expected ", (double)t.instructions[i] / k);
    }
    for (auto& x : ai)
        c.check(x.first < w.ins.size(), "statistics of an instruction that does not exist");
    // Distributions: over the history of the engine
    std::map<size_t, size_t> dt, dp, dl;
    std::map<size_t, std::map<size_t, size_t>> di;
    std::map<const TPG::TPGVertex*, size_t> dv;
    auto& traces = s.getInferenceTracesStats();
    c.eq(traces.size(), history.size(), "number of traces analysed");
    for (size_t i = 0; i < history.size(); i++) {
        Numbers n = numbersOf(w, history[i]);
        dt[n.teams]++;
        dp[n.programs]++;
        dl[n.lines]++;
        for (auto& x : n.instructions)
            di[x.first][x.second]++;
        for (auto v : history[i])
            dv[v]++;
        c.check(traces[i].trace == history[i], "trace ", i, " is not the one executed");
        c.eq(traces[i].nbEvaluatedTeams, n.teams, "teams of trace ", i);
        c.eq(traces[i].nbEvaluatedPrograms, n.programs, "programs of trace ", i);
        c.eq(traces[i].nbExecutedLines, n.lines, "lines of trace ", i);
        for (size_t k = 0; k < w.ins.size(); k++) {
            auto it = traces[i].nbExecutionPerInstruction.find(k);
            c.eq(it == traces[i].nbExecutionPerInstruction.end() ? 0 : it->second, n.instructions[k], "executions of instruction ", k, " in trace ", i);
        }
    }
    c.eq(text(s.getDistribEvaluatedTeams()), text(dt), "distribution of the teams");
    c.eq(text(s.getDistribEvaluatedPrograms()), text(dp), "distribution of the programs");
    c.eq(text(s.getDistribExecutedLines()), text(dl), "distribution of the lines");
    c.check(s.getDistribNbExecutionPerInstruction() == di, "distribution of the executions per instruction");
    c.check(s.getDistribUsedVertices() == dv, "distribution of the used vertices");
    // The file
    std::string f = pbt::scratchDir() + "/s" + std::to_string(getpid()) + ".json";
    s.writeStatsToJson(f.c_str(), c.chance(1, 2));
    Json::Value j;
    {
        std::ifstream i(f);
        Json::CharReaderBuilder b;
        std::string err;
        c.check(Json::parseFromStream(b, i, &j, &err), "the file of the statistics is ill-formed: ", err);
    }
    ::unlink(f.c_str());
    auto& e = j["ExecutionStats"];
    auto close = [](double a, double b) { return std::abs(a - b) <= 1e-5 * std::max(1.0, std::abs(b)); };
    c.check(close(e["avgEvaluatedTeams"].asDouble(), (double)t.teams / k) && close(e["avgEvaluatedPrograms"].asDouble(), (double)t.programs / k) &&
                close(e["avgExecutedLines"].asDouble(), (double)t.lines / k),
            "averages in the file: ", e["avgEvaluatedTeams"].asDouble(), " ", e["avgEvaluatedPrograms"].asDouble(), " ", e["avgExecutedLines"].asDouble());
    for (auto& x : ai)
        c.check(close(e["avgNbExecutionPerInstruction"][std::to_string(x.first)].asDouble(), x.second), "average of instruction ", x.first, " in the file");
    auto distribution = [&](const Json::Value& v, const std::map<size_t, size_t>& m, const char* what) {
        c.eq((size_t)v.size(), m.size(), what, " in the file, size");
        for (auto& x : m)
            c.eq(v[std::to_string(x.first)].asUInt64(), x.second, what, " in the file, at ", x.first);
    };
    distribution(e["distributionEvaluatedTeams"], dt, "distribution of the teams");
    distribution(e["distributionEvaluatedPrograms"], dp, "distribution of the programs");
    distribution(e["distributionExecutedLines"], dl, "distribution of the lines");
    c.eq((size_t)e["distributionNbExecutionPerInstruction"].size(), di.size(), "instructions in the file");
    for (auto& x : di)
        distribution(e["distributionNbExecutionPerInstruction"][std::to_string(x.first)], x.second, "distribution of an instruction");
    auto num = numbering(g);
    std::map<size_t, size_t> used;
    for (auto& x : dv)
        used[num.at(x.first)] = x.second;
    distribution(e["distributionUsedVertices"], used, "distribution of the vertices");
    c.eq((size_t)j["TracesStats"].size(), history.size(), "traces in the file");
    for (size_t i = 0; i < history.size(); i++) {
        auto& o = j["TracesStats"][std::to_string(i)];
        Numbers n = numbersOf(w, history[i]);
        c.eq(o["nbEvaluatedTeams"].asUInt64(), n.teams, "teams of trace ", i, " in the file");
        c.eq(o["nbEvaluatedPrograms"].asUInt64(), n.programs, "programs of trace ", i, " in the file");
        c.eq(o["nbExecutedLines"].asUInt64(), n.lines, "lines of trace ", i, " in the file");
        c.eq((size_t)o["nbExecutionPerInstruction"].size(), n.instructions.size(), "instructions of trace ", i, " in the file");
        for (auto& x : n.instructions)
            c.eq(o["nbExecutionPerInstruction"][std::to_string(x.first)].asUInt64(), x.second, "instruction ", x.first, " of trace ", i, " in the file");
        c.eq((size_t)o["trace"].size(), history[i].size(), "length of trace ", i, " in the file");
        for (size_t k = 0; k < history[i].size(); k++)
            c.eq(o["trace"][(int)k].asUInt64(), num.at(history[i][k]), "vertex ", k, " of trace ", i, " in the file");
    }
}

static std::unique_ptr<TPG::TPGExecutionEngineInstrumented> newEngine(Ctx& c, const TPG::TPGGraph& g, const World& w, Archive* a)
{
    auto e = g.getFactory().createTPGExecutionEngine(*w.env, a);
    auto p = dynamic_cast<TPG::TPGExecutionEngineInstrumented*>(e.get());
    c.check(p, "the factory of an instrumented graph creates an engine that is not instrumented");
    e.release();
    return std::unique_ptr<TPG::TPGExecutionEngineInstrumented>(p);
}

static void counts(Ctx& c)
{
    WorldOpts wo;
    wo.rich = c.chance(1, 2);
    auto w = genWorld(c, wo);
    c.note(w->describe());
    TPG::TPGInstrumentedFactory factory;
    auto gp = factory.createTPGGraph(*w->env);
    TPG::TPGGraph& g = *gp;
    genGraph(c, *w, g, GraphOpts());
    if (c.chance(1, 3))
        for (auto v : g.getVertices())
            for (auto e : v->getOutgoingEdges())
                e->getProgram().identifyIntrons();
    c.note(describe(*w, g));
    Archive archive(20, 0.5);
    struct Eng {
        std::unique_ptr<TPG::TPGExecutionEngineInstrumented> e;
        std::vector<Path> history;
    };
    std::vector<Eng> engines(1 + c.below(2));
    for (auto& e : engines)
        e.e = newEngine(c, g, *w, c.chance(1, 3) ? &archive : nullptr);
    Counts m;
    std::vector<Path> all; // since the last reset
    bool fromRoots = true;
    TPG::ExecutionStats stats;
    size_t steps = (size_t)c.in(1, 30), executions = 0, analyses = 0;
    std::set<Path> distinct;
    for (size_t i = 0; i < steps; i++) {
        Eng& e = engines[c.below(engines.size())];
        switch (c.pick(std::vector<int>{0, 0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 6, 6})) {
        case 0: {
            auto roots = g.getRootVertices();
            bool any = c.chance(1, 20);
            auto v = any ? c.pick(g.getVertices()) : c.pick(roots);
            if (any && std::find(roots.begin(), roots.end(), v) == roots.end())
                fromRoots = false;
            Path expected = refPath(*w, *v);
            Path got = e.e->executeFromRoot(*v);
            c.check(got == expected, "step ", i, ": the instrumented engine does not follow the path of the reference");
            e.history.push_back(expected);
            all.push_back(expected);
            m.add(*w, expected);
            distinct.insert(expected);
            executions++;
            break;
        }
        case 1:
            refill(c, *w);
            break;
        case 2:
            factory.resetTPGGraphCounters(g);
            m = Counts();
            all.clear();
            fromRoots = true;
            break;
        case 3:
            e.e->clearTraceHistory();
            e.history.clear();
            break;
        case 4: { // not counted
            TPG::TPGExecutionEngine plain(*w->env);
            auto v = c.pick(g.getRootVertices());
            c.check(Path(plain.executeFromRoot(*v)) == refPath(*w, *v), "step ", i, ": path of an engine that is not instrumented");
            break;
        }
        case 5: { // another team
            auto vs = g.getVertices();
            const TPG::TPGTeam& t = g.addNewTeam();
            size_t n = (size_t)c.in(1, 3);
            for (size_t k = 0; k < n; k++) {
                auto dest = c.pick(vs);
                g.addNewEdge(t, *dest, build(*w, genProg(c, *w, 4)));
                // it may not be a root any longer
                for (auto& p : all)
                    if (p.front() == dest)
                        fromRoots = false;
            }
            break;
        }
        case 6:
            if (fromRoots && !all.empty()) {
                checkStats(c, *w, g, *e.e, e.history, all, stats);
                analyses++;
            }
            break;
        }
        checkCounts(c, g, m);
        for (size_t k = 0; k < engines.size(); k++)
            c.check(engines[k].e->getTraceHistory() == engines[k].history, "step ", i, ": history of engine ", k);
    }
    c.nontrivial(distinct.size() > 1);
    c.label("executions", executions);
    c.label("analyses", analyses);
}

// Several engines execute one graph at the same time.
static void threads(Ctx& c)
{
    WorldOpts wo;
    wo.rich = true;
    auto w = genWorld(c, wo);
    TPG::TPGInstrumentedFactory factory;
    auto gp = factory.createTPGGraph(*w->env);
    TPG::TPGGraph& g = *gp;
    GraphOpts go;
    go.maxLines = 2;
    genGraph(c, *w, g, go);
    c.note(w->describe());
    c.note(describe(*w, g));
    size_t n = (size_t)c.in(2, 6);
#if defined(__SANITIZE_THREAD__)
    size_t each = (size_t)c.in(3, 20);
#else
    size_t each = (size_t)c.in(100, 1500);
#endif
    Counts m;
    auto roots = g.getRootVertices();
    std::vector<Path> paths;
    for (auto r : roots)
        paths.push_back(refPath(*w, *r));
    std::vector<std::unique_ptr<TPG::TPGExecutionEngineInstrumented>> engines;
    std::vector<std::vector<size_t>> plan(n);
    std::vector<int> bad(n, 0);
    for (size_t t = 0; t < n; t++) {
        engines.push_back(newEngine(c, g, *w, nullptr));
        size_t first = c.below(roots.size());
        size_t stride = c.below(roots.size());
        std::vector<uint64_t> times(roots.size());
        for (size_t k = 0; k < each; k++) {
            plan[t].push_back((first + k * stride) % roots.size());
            times[plan[t].back()]++;
        }
        for (size_t r = 0; r < roots.size(); r++)
            if (times[r] > 0)
                m.add(*w, paths[r], times[r]);
    }
    std::vector<std::thread> th;
    for (size_t t = 0; t < n; t++)
        th.emplace_back([&, t] {
            for (size_t r : plan[t])
                bad[t] += Path(engines[t]->executeFromRoot(*roots[r])) != paths[r];
        });
    for (auto& t : th)
        t.join();
    for (size_t t = 0; t < n; t++) {
        c.eq(bad[t], 0, "executions of thread ", t, " on another path");
        c.eq(engines[t]->getTraceHistory().size(), plan[t].size(), "history of thread ", t);
        for (size_t k = 0; k < plan[t].size(); k++)
            c.check(engines[t]->getTraceHistory()[k] == paths[plan[t][k]], "trace ", k, " of thread ", t);
    }
    checkCounts(c, g, m);
    size_t longest = 0;
    for (auto& p : paths)
        longest = std::max(longest, p.size());
    c.nontrivial(longest > 1);
    c.label("threads", n);
}

static std::string counters(const TPG::TPGGraph& g)
{
    std::ostringstream o;
    for (auto v : g.getVertices()) {
        o << visitsOf(*v) << "(";
        for (auto e : v->getOutgoingEdges()) {
            auto& ei = dynamic_cast<const TPG::TPGEdgeInstrumented&>(*e);
            o << ei.getNbVisits() << "/" << ei.getNbTraversal() << " ";
        }
        o << ") ";
    }
    return o.str();
}

// Training an instrumented graph is training a graph, whatever the agent.
static void training(Ctx& c)
{
    SettingOpts o;
    o.maxGens = 4;
    o.maxThreads = 4;
    Setting s = genSetting(c, o);
    size_t n = std::max<size_t>(2, s.p.nbThreads);
    c.note(s.describe());
    std::vector<std::vector<std::string>> traces;
    std::vector<std::string> counted;
    uint64_t total = 0;
    for (int k = 0; k < 3; k++) {
        SimEnv env(*s.w, s.dyn);
        Learn::LearningParameters p = s.p;
        p.nbThreads = k == 2 ? n : 1;
        std::unique_ptr<Learn::LearningAgent> la;
        if (k == 0)
            la = std::make_unique<Learn::LearningAgent>(env, s.w->set, p);
        else if (k == 1)
            la = std::make_unique<Learn::LearningAgent>(env, s.w->set, p, TPG::TPGInstrumentedFactory());
        else
            la = std::make_unique<Learn::ParallelLearningAgent>(env, s.w->set, p, TPG::TPGInstrumentedFactory());
        la->init(s.seed);
        TraceOpts to;
        to.hashes = true;
        traces.push_back(trainTrace(*la, s, 0, s.gens, to));
        if (k > 0) {
            counted.push_back(counters(*la->getTPGGraph()));
            for (auto v : la->getTPGGraph()->getVertices())
                total += visitsOf(*v);
        }
    }
    for (int k = 1; k < 3; k++) {
        for (size_t i = 0; i < std::min(traces[0].size(), traces[k].size()); i++)
            if (traces[0][i] != traces[k][i])
                c.fail(k == 1 ? "instrumented: " : "instrumented, in parallel: ", "generation ", i, " differs ", firstDiff(traces[0][i], traces[k][i]));
        c.eq(traces[k].size(), traces[0].size(), "generations");
    }
    c.eq(counted[1], counted[0], "counters with ", n, " threads");
    c.nontrivial(total > 0 && s.gens >= 2);
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C20";
    cfg.rule = "counts: two executions or more follow different paths; threads: a root is a team; training: two generations or more, and something is counted";
    cfg.assumptions = {"the averages are checked when all executions since the last reset started from vertices that are still roots, as documented",
                       "the lines of a program are all its lines, introns included",
                       "the schedules are those chosen by the operating system on the machine running the check"};
#if defined(__SANITIZE_THREAD__)
    cfg.subs = {{"threads", threads, 150, 2000, 1, 30}, {"training", training, 100, 1500, 1, 30}};
#else
    cfg.subs = {{"counts", counts, 25000, 400000}, {"threads", threads, 1500, 20000, 1, 30}, {"training", training, 1500, 15000, 1, 30}};
#endif
    return pbt::run(argc, argv, cfg);
}
