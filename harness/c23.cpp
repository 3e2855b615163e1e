// C23: the loggers report what happens during the training and do not change it.
#include "la.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;

#if defined(__SANITIZE_ADDRESS__)
static const uint64_t SCALE = 6;
#else
static const uint64_t SCALE = 1;
#endif

static std::vector<std::string> tokens(const std::string& l)
{
    std::vector<std::string> r;
    std::istringstream i(l);
    std::string t;
    while (i >> t)
        r.push_back(t);
    return r;
}

struct Summary {
    double min = 0, avg = 0, max = 0;
    Summary() = default;
    explicit Summary(const Recorder::Results& r)
    {
        bool first = true;
        double sum = 0;
        for (auto& x : r) {
            double v = x.first->getResult();
            min = first || v < min ? v : min;
            max = first || v > max ? v : max;
            sum += v;
            first = false;
        }
        avg = sum / (double)r.size();
    }
};

static void training(Ctx& c)
{
    SettingOpts o;
    o.maxGens = 6;
    o.maxThreads = 3;
    Setting s = genSetting(c, o);
    bool parallel = s.p.nbThreads > 1;
    s.p.doValidation = c.chance(1, 2);
    c.note(s.describe());
    std::vector<std::vector<std::string>> traces;
    // What the loggers write, and what they should report
    std::ostringstream basic, stats, cycles;
    int order = (int)c.below(6);
    bool logOnSuccess = c.chance(1, 2);
    struct Row {
        uint64_t gen;
        size_t vertices = 0;
        Summary train, valid;
        bool complete = false;
    };
    std::vector<Row> rows;
    std::string expectedStats;
    size_t populated = 0, newBest = 0;
    bool strange = false;
    for (int k = 0; k < 2; k++) {
        SimEnv env(*s.w, s.dyn);
        std::unique_ptr<Learn::LearningAgent> la;
        if (parallel)
            la = std::make_unique<Learn::ParallelLearningAgent>(env, s.w->set, s.p);
        else
            la = std::make_unique<Learn::LearningAgent>(env, s.w->set, s.p);
        std::vector<std::unique_ptr<Log::LALogger>> loggers;
        const TPG::TPGVertex* lastBest = nullptr;
        if (k == 1) {
            auto addOne = [&](int which) {
                if (which == 0)
                    loggers.push_back(std::make_unique<Log::LABasicLogger>(*la, basic));
                else if (which == 1)
                    loggers.push_back(std::make_unique<Log::LAPolicyStatsLogger>(*la, stats));
                else
                    loggers.push_back(std::make_unique<Log::CycleDetectionLALogger>(*la, cycles, logOnSuccess));
            };
            int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
            for (int x : perm[order])
                addOne(x);
            auto rec = std::make_unique<Recorder>(*la, *s.w);
            auto agent = la.get();
            rec->onNew = [&](uint64_t g) { rows.push_back(Row{g}); };
            rec->onPopulate = [&, agent] {
                rows.back().vertices = agent->getTPGGraph()->getNbVertices();
                populated++;
            };
            rec->onEvaluate = [&](Recorder::Results& r) {
                rows.back().train = Summary(r);
                strange = strange || r.empty();
            };
            rec->onDecimate = [&, agent] {
                auto best = agent->getBestRoot();
                if (best.first == lastBest)
                    return;
                lastBest = best.first;
                newBest++;
                TPG::PolicyStats ps;
                ps.setEnvironment(agent->getTPGGraph()->getEnvironment());
                ps.analyzePolicy(best.first);
                std::ostringstream t;
                t << "Generation " << rows.back().gen << " - Score " << best.second->getResult() << "\n" << ps << "\n==========\n";
                expectedStats += t.str();
            };
            rec->onValidate = [&](Recorder::Results& r) {
                rows.back().valid = Summary(r);
                strange = strange || r.empty();
            };
            rec->onEnd = [&] { rows.back().complete = true; };
            loggers.push_back(std::move(rec));
        }
        la->init(s.seed);
        TraceOpts to;
        to.hashes = true;
        traces.push_back(trainTrace(*la, s, 0, s.gens, to));
    }
    for (size_t i = 0; i < std::min(traces[0].size(), traces[1].size()); i++)
        if (traces[0][i] != traces[1][i])
            c.fail("with loggers: generation ", i, " differs ", firstDiff(traces[0][i], traces[1][i]));
    c.eq(traces[1].size(), traces[0].size(), "generations with loggers");
    if (strange)
        c.discard();
    // The table
    std::vector<std::string> lines;
    {
        std::istringstream i(basic.str());
        std::string l;
        while (std::getline(i, l))
            lines.push_back(l);
    }
    size_t done = 0;
    for (auto& r : rows)
        done += r.complete;
    c.check(lines.size() >= 2 + done, "the table has ", lines.size(), " lines for ", done, " generations");
    auto head = tokens(lines[1]);
    std::vector<std::string> expectedHead{"Gen", "NbVert", "Min", "Avg", "Max"};
    if (s.p.doValidation)
        expectedHead.insert(expectedHead.end(), {"Min", "Avg", "Max"});
    expectedHead.insert(expectedHead.end(), {"T_mutat", "T_eval"});
    if (s.p.doValidation)
        expectedHead.push_back("T_valid");
    expectedHead.push_back("T_total");
    c.check(head == expectedHead, "columns of the table: ", lines[1]);
    double lastTotal = 0;
    for (size_t i = 0; i < done; i++) {
        auto t = tokens(lines[2 + i]);
        const Row& r = rows[i];
        bool wide = false;
        for (double v : {r.train.min, r.train.avg, r.train.max, r.valid.min, r.valid.avg, r.valid.max})
            wide = wide || !(std::abs(v) < 10000);
        if (wide)
            continue;
        c.eq(t.size(), head.size(), "number of columns in the line of generation ", i);
        c.eq(t[0], std::to_string(r.gen), "generation in the table");
        c.eq(t[1], std::to_string(r.vertices), "vertices in the table");
        auto value = [&](size_t k, double v, const char* what) {
            double got = atof(t[k].c_str());
            c.check(std::abs(got - v) <= 0.0051, what, " of generation ", i, " in the table is ", t[k], ", expected ", v);
        };
        value(2, r.train.min, "minimum");
        value(3, r.train.avg, "average");
        value(4, r.train.max, "maximum");
        size_t k = 5;
        if (s.p.doValidation) {
            value(5, r.valid.min, "validation minimum");
            value(6, r.valid.avg, "validation average");
            value(7, r.valid.max, "validation maximum");
            k = 8;
        }
        double total = atof(t.back().c_str()), parts = 0;
        for (; k + 1 < t.size(); k++) {
            c.check(atof(t[k].c_str()) >= 0, "negative duration");
            parts += atof(t[k].c_str());
        }
        c.check(total + 0.05 >= lastTotal + parts - 0.01, "the total duration of generation ", i, " is ", total, ", after ", lastTotal, " and ", parts);
        lastTotal = total;
    }
    // The statistics of the successive best policies
    auto squeeze = [](const std::string& x) {
        std::string r;
        for (char ch : x)
            if (ch != '\n' || (!r.empty() && r.back() != '\n'))
                r += ch;
        return r;
    };
    if (done == rows.size())
        c.check(squeeze(stats.str()) == squeeze(expectedStats), "statistics of the best policies: differ ", firstDiff(squeeze(expectedStats), squeeze(stats.str())));
    std::string ok;
    for (size_t i = 0; i < populated && logOnSuccess; i++)
        ok += "No cycle detected in this TPG.";
    c.eq(cycles.str(), ok, "output of the cycle detection");
    c.nontrivial(done >= 2);
    c.label("generations", done);
    c.label("new best policies", newBest);
}

static void cycles(Ctx& c)
{
    WorldOpts wo;
    wo.maxSrc = 1;
    wo.maxDim = 2;
    auto w = genWorld(c, wo);
    Dyn d;
    SimEnv env(*w, d);
    Learn::LearningParameters p;
    p.mutation.tpg.nbActions = d.nbActions;
    p.nbRegisters = w->nbRegs;
    p.nbProgramConstant = w->nbConst;
    Learn::LearningAgent la(env, w->set, p);
    auto& g = *la.getTPGGraph();
    g.clear();
    auto prog = std::make_shared<Program::Program>(la.getEnvironment());
    std::vector<const TPG::TPGTeam*> teams;
    std::vector<std::pair<size_t, size_t>> edges;
    auto action = &g.addNewAction(0);
    bool ladder = c.chance(1, 10);
    size_t n = (size_t)(ladder ? c.in(2, 60) : c.in(0, 12));
    for (size_t i = 0; i < n; i++) {
        teams.push_back(&g.addNewTeam());
        g.addNewEdge(*teams[i], *action, prog);
    }
    std::vector<size_t> rank;
    for (size_t i = 0; i < n; i++)
        rank.insert(rank.begin() + (long)c.below(rank.size() + 1), i);
    auto edge = [&](size_t a, size_t b) {
        g.addNewEdge(*teams[a], *teams[b], prog);
        edges.push_back({a, b});
    };
    if (ladder) // many paths
        for (size_t i = 0; i + 1 < n; i++)
            for (size_t k = 0; k < 2; k++)
                edge(i, std::min(n - 1, i + 1 + c.below(2)));
    else if (n > 0) {
        size_t m = (size_t)c.in(0, (int64_t)(2 * n));
        for (size_t i = 0; i < m; i++) {
            size_t a = c.below(n), b = c.below(n);
            if (a != b && rank[a] > rank[b])
                std::swap(a, b);
            if (a != b)
                edge(a, b);
        }
    }
    size_t back = n > 0 && c.chance(1, 2) ? c.below(3) : 0;
    for (size_t i = 0; i < back; i++)
        edge(c.below(n), c.below(n));
    // Repeated removal of what has no successor
    std::vector<size_t> outDeg(n, 0);
    std::vector<bool> gone(n, false);
    for (bool again = true; again;) {
        again = false;
        for (size_t i = 0; i < n; i++) {
            if (gone[i])
                continue;
            bool leaf = true;
            for (auto& e : edges)
                leaf = leaf && !(e.first == i && !gone[e.second]);
            if (leaf) {
                gone[i] = true;
                again = true;
            }
        }
    }
    bool cyclic = std::find(gone.begin(), gone.end(), false) != gone.end();
    std::ostringstream t;
    for (auto& e : edges)
        t << e.first << "->" << e.second << " ";
    c.note(n, " teams: ", t.str());
    bool logOnSuccess = c.chance(1, 2);
    std::ostringstream out;
    Log::CycleDetectionLALogger l(la, out, logOnSuccess);
    size_t calls = (size_t)c.in(1, 2);
    std::string expected;
    for (size_t i = 0; i < calls; i++) {
        l.logAfterPopulateTPG();
        expected += cyclic ? "A cycle was detected in the TPG." : logOnSuccess ? "No cycle detected in this TPG." : "";
    }
    c.eq(out.str(), expected, "output of the cycle detection");
    c.nontrivial(edges.size() > 2);
    c.label(cyclic ? "cyclic" : "acyclic");
    if (ladder && n > 40)
        c.label("more than 2^20 paths");
    bool rooted = g.getNbRootVertices() > 0;
    if (cyclic && !rooted)
        c.label("no root");
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C23";
    cfg.cpuLimit = 10;
    cfg.rule = "training: two generations or more are logged; cycles: the graph has more than two edges between teams";
    cfg.assumptions = {"values of ten thousand and more, which do not fit the columns of the table, are not checked"};
    cfg.subs = {{"training", training, 6000 / SCALE, 80000 / SCALE}, {"cycles", cycles, 30000 / SCALE, 400000 / SCALE}};
    return pbt::run(argc, argv, cfg);
}
