// C21: removing the unused parts of a graph keeps what was used, and nothing
// else.
#include "gg.h"
#include <algorithm>
#include <tpg/instrumented/tpgActionInstrumented.h>
#include <tpg/instrumented/tpgEdgeInstrumented.h>
#include <tpg/instrumented/tpgInstrumentedFactory.h>
#include <tpg/instrumented/tpgTeamInstrumented.h>
using pbt::Ctx;
using namespace gg;

#if defined(__SANITIZE_ADDRESS__)
static const uint64_t SCALE = 8;
#else
static const uint64_t SCALE = 1;
#endif
typedef std::vector<const TPG::TPGVertex*> Path;
typedef std::vector<std::vector<double>> Content;

static Content contentOf(const World& w)
{
    Content r;
    for (auto& s : w.srcs)
        r.push_back(s->values);
    return r;
}
static void restore(World& w, const Content& x)
{
    for (size_t i = 0; i < x.size(); i++)
        for (size_t k = 0; k < x[i].size(); k++)
            w.srcs[i]->set(k, x[i][k]);
}

struct Used {
    std::set<const TPG::TPGVertex*> vertices;
    std::set<const TPG::TPGEdge*> edges;
    void add(const World& w, const Path& p)
    {
        for (size_t i = 0; i < p.size(); i++) {
            vertices.insert(p[i]);
            if (i + 1 == p.size())
                continue;
            const TPG::TPGEdge* best = nullptr;
            double bid = 0;
            for (auto e : p[i]->getOutgoingEdges()) {
                double b = refBid(w, *e);
                if (!best || b >= bid) {
                    best = e;
                    bid = b;
                }
            }
            edges.insert(best);
        }
    }
};

struct Shot {
    Content content;
    const TPG::TPGVertex* root;
    Path path;
    uint64_t action;
};

// Everything about a graph, by identity.
struct EdgeState {
    const TPG::TPGEdge* e;
    const TPG::TPGVertex *src, *dest;
    const Program::Program* p;
    MProg m;
    bool operator==(const EdgeState& o) const { return e == o.e && src == o.src && dest == o.dest && p == o.p && m == o.m; }
};
struct State {
    std::vector<const TPG::TPGVertex*> vertices;
    std::map<const TPG::TPGVertex*, std::vector<EdgeState>> out;
};
static State stateOf(const World& w, const TPG::TPGGraph& g)
{
    State s;
    for (auto v : g.getVertices()) {
        s.vertices.push_back(v);
        for (auto e : v->getOutgoingEdges())
            s.out[v].push_back({e, e->getSource(), e->getDestination(), &e->getProgram(), readProg(w, e->getProgram())});
    }
    return s;
}

static void prune(Ctx& c, bool instrumented)
{
    WorldOpts wo;
    wo.rich = c.chance(1, 2);
    auto w = genWorld(c, wo);
    TPG::TPGInstrumentedFactory factory;
    std::shared_ptr<TPG::TPGGraph> gp = instrumented ? factory.createTPGGraph(*w->env) : std::make_shared<TPG::TPGGraph>(*w->env);
    TPG::TPGGraph& g = *gp;
    GraphOpts go;
    go.maxTeams = 9;
    genGraph(c, *w, g, go);
    c.note(w->describe());
    c.note(describe(*w, g));
    auto engine = factory.createTPGExecutionEngine(*w->env);
    TPG::TPGExecutionEngine plain(*w->env);
    Used used;
    std::vector<Shot> shots;
    size_t steps = (size_t)c.in(0, 25);
    for (size_t i = 0; i < steps; i++) {
        switch (c.pick(std::vector<int>{0, 0, 0, 1, 1, 1, 2})) {
        case 0:
            refill(c, *w);
            break;
        case 1: {
            auto root = c.chance(1, 12) ? c.pick(g.getVertices()) : c.pick(g.getRootVertices());
            Path p = refPath(*w, *root);
            Path got = instrumented ? engine->executeFromRoot(*root) : plain.executeFromRoot(*root);
            c.check(got == p, "step ", i, ": execution before the removal is not on the path of the reference");
            used.add(*w, p);
            shots.push_back({contentOf(*w), root, p, dynamic_cast<const TPG::TPGAction*>(p.back())->getActionID()});
            break;
        }
        case 2:
            if (c.chance(1, 2)) {
                factory.resetTPGGraphCounters(g);
                used = Used();
                shots.clear();
            }
            break;
        }
    }
    State before = stateOf(*w, g), expected;
    size_t edges = 0, kept = 0;
    for (auto v : before.vertices) {
        if (instrumented && !used.vertices.count(v))
            continue;
        expected.vertices.push_back(v);
        for (auto& e : before.out[v]) {
            edges++;
            if (!instrumented || used.edges.count(e.e)) {
                expected.out[v].push_back(e);
                kept++;
            }
        }
    }
    // A path is a property of a content: what is removed was never on one.
    size_t rounds = (size_t)c.in(1, 3);
    for (size_t r = 0; r < rounds; r++) {
        factory.clearUnusedTPGGraphElements(g);
        c.check(graphProblem(g).empty(), "after the removal: ", graphProblem(g));
        State s = stateOf(*w, g);
        c.eq(s.vertices.size(), expected.vertices.size(), "number of vertices after the removal");
        std::set<const TPG::TPGVertex*> a(s.vertices.begin(), s.vertices.end()), b(expected.vertices.begin(), expected.vertices.end());
        c.check(a == b, "the vertices kept are not those used");
        for (auto v : expected.vertices) {
            c.eq(s.out[v].size(), expected.out[v].size(), "number of edges of a vertex after the removal");
            c.check(s.out[v] == expected.out[v], "the edges kept are not those used, in the same order");
        }
        c.eq(g.getEdges().size(), instrumented ? kept : edges, "number of edges after the removal");
        // What was executed is executed in the same way.
        for (size_t i = 0; i < shots.size(); i++) {
            restore(*w, shots[i].content);
            Path got = c.chance(1, 2) && instrumented ? engine->executeFromRoot(*shots[i].root) : plain.executeFromRoot(*shots[i].root);
            c.check(got == shots[i].path, "execution ", i, " follows another path after the removal");
            c.eq(dynamic_cast<const TPG::TPGAction*>(got.back())->getActionID(), shots[i].action, "action of execution ", i);
        }
        // Other contents still lead to an action.
        if (!shots.empty()) {
            refill(c, *w);
            Path p = plain.executeFromRoot(*shots[0].root);
            c.check(dynamic_cast<const TPG::TPGAction*>(p.back()), "an execution does not end with an action after the removal");
            c.check(p == refPath(*w, *shots[0].root), "execution on another content after the removal");
        }
    }
    c.nontrivial(!shots.empty() && (expected.vertices.size() < before.vertices.size() || kept < edges || !instrumented));
    c.label("vertices removed", before.vertices.size() - expected.vertices.size());
    if (kept < edges)
        c.label("edges between kept vertices removed", edges - kept);
}

static void instrumentedGraphs(Ctx& c) { prune(c, true); }
static void otherGraphs(Ctx& c) { prune(c, false); }

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C21";
    cfg.rule = "something was executed and (on an instrumented graph) something is removed";
    cfg.subs = {{"instrumented", instrumentedGraphs, 30000 / SCALE, 400000 / SCALE}, {"other", otherGraphs, 4000 / SCALE, 40000 / SCALE}};
    return pbt::run(argc, argv, cfg);
}
