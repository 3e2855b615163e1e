// C03: inference follows, from a root, the edge with the highest bid down to
// an action.
#include "gg.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;

static std::string pathStr(std::map<const TPG::TPGVertex*, size_t>& num, const std::vector<const TPG::TPGVertex*>& p)
{
    std::ostringstream o;
    for (auto v : p)
        o << " v" << (num.count(v) ? num[v] : 999999);
    return o.str();
}

static void infer(Ctx& c)
{
    WorldOpts o;
    o.doubleOnly = c.chance(1, 2);
    auto w = genWorld(c, o);
    bool instrumented = c.chance(1, 3);
    std::shared_ptr<TPG::TPGGraph> g;
    if (instrumented)
        g = TPG::TPGInstrumentedFactory().createTPGGraph(*w->env);
    else
        g = TPG::TPGFactory().createTPGGraph(*w->env);
    GraphOpts go;
    go.maxTeams = c.thorough ? 12 : 6;
    go.maxEdges = c.thorough ? 8 : 5;
    go.maxLines = c.chance(1, 3) ? 2 : 6; // short programs: ties
    genGraph(c, *w, *g, go);
    if (c.chance(1, 3))
        for (auto& e : g->getEdges())
            e->getProgram().identifyIntrons();
    c.note(w->describe());
    c.note(describe(*w, *g));
    auto num = numbering(*g);
    std::unique_ptr<TPG::TPGExecutionEngine> eng = g->getFactory().createTPGExecutionEngine(*w->env);
    size_t runs = (size_t)c.in(1, 4);
    for (size_t r = 0; r < runs; r++) {
        if (r > 0) {
            refill(c, *w);
            c.note("new data: ", w->describe());
        }
        for (auto v : g->getVertices()) {
            // any vertex may be the start of an inference, roots or not
            if (!v->getIncomingEdges().empty() && !c.chance(1, 4))
                continue;
            auto expected = refPath(*w, *v);
            auto got = eng->executeFromRoot(*v);
            c.check(got == expected, "inference from v", num[v], " visited", pathStr(num, got), ", expected", pathStr(num, expected));
            if (got.size() > 2) {
                c.nontrivial();
                c.label("paths of two teams or more");
            }
            for (auto x : got) {
                double best = 0;
                size_t nb = 0, at = 0;
                for (auto e : x->getOutgoingEdges()) {
                    double b = refBid(*w, *e);
                    at = nb == 0 || b > best ? 1 : at + (b == best);
                    best = nb == 0 || b > best ? b : best;
                    nb++;
                }
                if (at > 1)
                    c.label("winning bid reached by several edges");
                if (nb > 0 && best == -std::numeric_limits<double>::infinity())
                    c.label("all bids are -inf");
            }
        }
        // Single evaluations
        for (auto v : g->getVertices()) {
            if (v->getOutgoingEdges().empty() || !c.chance(1, 3))
                continue;
            for (auto e : v->getOutgoingEdges()) {
                double b = eng->evaluateEdge(*e), x = refBid(*w, *e);
                c.check(b == x, "evaluateEdge returned ", show(b), ", expected ", show(x));
                if (b == -std::numeric_limits<double>::infinity())
                    c.label("bid of -inf");
            }
            const TPG::TPGEdge& e = eng->evaluateTeam(*(const TPG::TPGTeam*)v);
            c.check(e.getSource() == v, "evaluateTeam returned an edge of another team");
            c.check(e.getDestination() == refPath(*w, *v).at(1), "evaluateTeam returned another edge than the winning one");
        }
        c.check(graphProblem(*g).empty(), "inference altered the graph: ", graphProblem(*g));
    }
}

// A team without edge cannot be evaluated.
static void noEdge(Ctx& c)
{
    auto w = genWorld(c);
    bool instrumented = c.chance(1, 2);
    std::shared_ptr<TPG::TPGGraph> g;
    if (instrumented)
        g = TPG::TPGInstrumentedFactory().createTPGGraph(*w->env);
    else
        g = TPG::TPGFactory().createTPGGraph(*w->env);
    auto& root = g->addNewTeam();
    const TPG::TPGVertex* last = &root;
    size_t depth = (size_t)c.in(0, 3);
    for (size_t i = 0; i < depth; i++) {
        auto& next = g->addNewTeam();
        g->addNewEdge(*last, next, build(*w, genProg(c, *w, 3)));
        last = &next;
    }
    c.note("chain of ", depth + 1, " teams, the last one without edge", instrumented ? ", instrumented" : "");
    auto eng = g->getFactory().createTPGExecutionEngine(*w->env);
    bool thrown = false;
    try {
        eng->executeFromRoot(root);
    }
    catch (std::runtime_error&) {
        thrown = true;
    }
    c.nontrivial();
    c.check(thrown, "the evaluation of a team without edge did not throw std::runtime_error");
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C03";
    cfg.rule = "Random environments and acyclic graphs (0-12 teams, 1-8 edges each, shared programs, short programs so that bids tie, instructions producing NaN and infinities), plain and instrumented, several sets of data per graph; oracle: reference interpreter for bids, argmax with the last edge winning ties, NaN as -inf. Non-trivial: at least one inference visits two teams or more.";
    cfg.subs = {{"infer", infer, 12000, 250000}, {"noEdge", noEdge, 400, 4000}};
    return pbt::run(argc, argv, cfg);
}
