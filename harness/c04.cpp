// C04: a graph stays consistent whatever the history of its modifications.
#include "gg.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;

struct MV {
    const TPG::TPGVertex* v;
    bool action;
    uint64_t id;
    std::vector<int> out; // edges, in order
};
struct ME {
    const TPG::TPGEdge* e;
    int src, dst, prog;
};
struct Model {
    std::map<int, MV> vs; // by number of creation
    std::map<int, ME> es;
    int nv = 0, ne = 0;
    int vertexOf(const TPG::TPGVertex* p)
    {
        for (auto& x : vs)
            if (x.second.v == p)
                return x.first;
        return -1;
    }
};

static void compare(Ctx& c, const TPG::TPGGraph& g, Model& m, const std::vector<std::shared_ptr<Program::Program>>& progs, bool instrumented)
{
    std::string p = graphProblem(g);
    c.check(p.empty(), p);
    auto vs = g.getVertices();
    c.eq(vs.size(), m.vs.size(), "number of vertices");
    c.eq(g.getEdges().size(), m.es.size(), "number of edges");
    size_t i = 0;
    for (auto& x : m.vs) { // vertices are listed by order of creation
        MV& mv = x.second;
        c.check(vs[i++] == mv.v, "the vertices are not those expected, or not in their order of creation");
        auto a = dynamic_cast<const TPG::TPGAction*>(mv.v);
        c.check((a != nullptr) == mv.action, "type of vertex ", x.first);
        if (a)
            c.eq(a->getActionID(), mv.id, "action ID of vertex ", x.first);
        c.check((dynamic_cast<const TPG::TPGVertexInstrumentation*>(mv.v) != nullptr) == instrumented, "vertex ", x.first, " is not of the kind its factory makes");
        std::vector<const TPG::TPGEdge*> out(mv.v->getOutgoingEdges().begin(), mv.v->getOutgoingEdges().end()), mout;
        for (int e : mv.out)
            mout.push_back(m.es.at(e).e);
        c.check(out == mout, "outgoing edges of vertex ", x.first, " differ from the model (", out.size(), " edges, ", mout.size(), " expected)");
        size_t in = 0;
        for (auto& e : m.es)
            in += e.second.dst == x.first;
        c.eq(mv.v->getIncomingEdges().size(), in, "number of incoming edges of vertex ", x.first);
    }
    std::vector<long> uses(progs.size(), 0);
    for (auto& x : m.es) {
        ME& me = x.second;
        c.check(me.e->getSource() == m.vs.at(me.src).v, "source of edge ", x.first);
        c.check(me.e->getDestination() == m.vs.at(me.dst).v, "destination of edge ", x.first);
        c.check(&me.e->getProgram() == progs[me.prog].get(), "program of edge ", x.first);
        uses[me.prog]++;
    }
    for (size_t k = 0; k < progs.size(); k++)
        c.eq(progs[k].use_count(), uses[k] + 1, "owners of program ", k);
}

static void history(Ctx& c)
{
    WorldOpts o;
    o.maxSrc = 1;
    o.maxIns = 3;
    auto w = genWorld(c, o);
    bool instrumented = c.chance(1, 3);
    auto make = [&]() {
        return instrumented ? TPG::TPGInstrumentedFactory().createTPGGraph(*w->env) : TPG::TPGFactory().createTPGGraph(*w->env);
    };
    std::shared_ptr<TPG::TPGGraph> g = make(), foreign = make();
    const TPG::TPGVertex& fTeam = foreign->addNewTeam();
    const TPG::TPGVertex& fAction = foreign->addNewAction(3);
    std::vector<std::shared_ptr<Program::Program>> progs;
    for (int i = 0; i < 4; i++)
        progs.push_back(build(*w, genProg(c, *w, 3)));
    auto fProg = build(*w, genProg(c, *w, 3));
    const TPG::TPGEdge& fEdge = foreign->addNewEdge(fTeam, fAction, fProg);

    Model m;
    auto addVertex = [&](const TPG::TPGVertex& v, bool action, uint64_t id) {
        m.vs[m.nv++] = MV{&v, action, id, {}};
    };
    auto addEdge = [&](const TPG::TPGEdge& e, int s, int d, int p) {
        m.es[m.ne] = ME{&e, s, d, p};
        m.vs.at(s).out.push_back(m.ne++);
    };
    auto dropEdge = [&](int e) {
        auto& out = m.vs.at(m.es.at(e).src).out;
        out.erase(std::find(out.begin(), out.end(), e));
        m.es.erase(e);
    };
    auto anyV = [&]() { return std::next(m.vs.begin(), (long)c.below(m.vs.size()))->first; };
    auto anyTeam = [&]() {
        std::vector<int> t;
        for (auto& x : m.vs)
            if (!x.second.action)
                t.push_back(x.first);
        return t.empty() ? -1 : c.pick(t);
    };
    auto anyE = [&]() { return std::next(m.es.begin(), (long)c.below(m.es.size()))->first; };
    addVertex(g->addNewTeam(), false, 0);
    addVertex(g->addNewAction(0), true, 0);
    size_t n = (size_t)c.in(1, c.thorough ? 60 : 30);
    size_t removals = 0, moves = 0;
    for (size_t step = 0; step < n; step++) {
        int op = (int)c.below(22);
        if (m.vs.empty())
            op = (int)c.below(2);
        switch (op) {
        case 0:
            addVertex(g->addNewTeam(), false, 0);
            c.note("add team ", m.nv - 1);
            break;
        case 1: {
            uint64_t id = c.below(5);
            addVertex(g->addNewAction(id), true, id);
            c.note("add action ", m.nv - 1, " (", id, ")");
            break;
        }
        case 2: case 3: case 4: case 5: case 6: case 7: {
            int s = anyTeam(), d = anyV(), p = (int)c.below(progs.size());
            if (s < 0)
                break;
            c.note("edge ", m.ne, ": ", s, " -> ", d, " program ", p);
            addEdge(g->addNewEdge(*m.vs.at(s).v, *m.vs.at(d).v, progs[p]), s, d, p);
            break;
        }
        case 8: { // refused edges
            const TPG::TPGVertex* s = m.vs.at(anyV()).v;
            const TPG::TPGVertex* d = m.vs.at(anyV()).v;
            bool mustThrow = true;
            switch (c.below(3)) {
            case 0: s = &fTeam; break;
            case 1: d = c.below(2) ? &fTeam : &fAction; break;
            default: {
                std::vector<int> a;
                for (auto& x : m.vs)
                    if (x.second.action)
                        a.push_back(x.first);
                if (a.empty())
                    mustThrow = false;
                else
                    s = m.vs.at(c.pick(a)).v;
            }
            }
            if (!mustThrow)
                break;
            bool thrown = false;
            try {
                g->addNewEdge(*s, *d, progs[0]);
            }
            catch (std::runtime_error&) {
                thrown = true;
            }
            c.note("refused edge");
            c.check(thrown, "an edge from an action, or between graphs, was accepted");
            break;
        }
        case 9: { // remove a vertex
            int v = anyV();
            c.note("remove vertex ", v);
            g->removeVertex(*m.vs.at(v).v);
            std::vector<int> es;
            for (auto& e : m.es)
                if (e.second.src == v || e.second.dst == v)
                    es.push_back(e.first);
            for (int e : es)
                dropEdge(e);
            m.vs.erase(v);
            removals++;
            break;
        }
        case 10:
            g->removeVertex(fTeam);
            c.check(foreign->getNbVertices() == 2 && foreign->getEdges().size() == 1, "removing a vertex of another graph altered that graph");
            c.note("remove a vertex of another graph");
            break;
        case 11: case 12:
            if (!m.es.empty()) {
                int e = anyE();
                c.note("remove edge ", e);
                g->removeEdge(*m.es.at(e).e);
                dropEdge(e);
                removals++;
            }
            break;
        case 13: { // operations with foreign elements
            int thrown = 0;
            try { g->removeEdge(fEdge); } catch (std::runtime_error&) { thrown++; }
            try { g->cloneEdge(fEdge); } catch (std::runtime_error&) { thrown++; }
            try { g->cloneVertex(fTeam); } catch (std::runtime_error&) { thrown++; }
            c.eq(thrown, 3, "operations refused on elements of another graph");
            c.check(!g->setEdgeDestination(fEdge, *m.vs.at(anyV()).v), "setEdgeDestination on an edge of another graph");
            c.check(!g->setEdgeSource(fEdge, *m.vs.at(anyV()).v), "setEdgeSource on an edge of another graph");
            if (!m.es.empty()) {
                int e = anyE();
                c.check(!g->setEdgeDestination(*m.es.at(e).e, fAction), "setEdgeDestination to another graph");
                c.check(!g->setEdgeSource(*m.es.at(e).e, fTeam), "setEdgeSource to another graph");
            }
            c.check(!g->hasVertex(fTeam), "hasVertex accepts a vertex of another graph");
            c.note("operations on another graph");
            break;
        }
        case 14: { // clone a vertex
            int v = anyV();
            const TPG::TPGVertex& nv = g->cloneVertex(*m.vs.at(v).v);
            int k = m.nv;
            addVertex(nv, m.vs.at(v).action, m.vs.at(v).id);
            auto outs = m.vs.at(v).out;
            c.note("clone vertex ", v, " as ", k);
            auto it = nv.getOutgoingEdges().begin();
            c.eq(nv.getOutgoingEdges().size(), outs.size(), "edges of a cloned vertex");
            for (int e : outs)
                addEdge(**it++, k, m.es.at(e).dst, m.es.at(e).prog);
            break;
        }
        case 15:
            if (!m.es.empty()) {
                int e = anyE();
                c.note("clone edge ", e);
                ME me = m.es.at(e);
                addEdge(g->cloneEdge(*me.e), me.src, me.dst, me.prog);
            }
            break;
        case 16: case 17:
            if (!m.es.empty()) {
                int e = anyE(), d = anyV();
                c.note("destination of edge ", e, " = ", d);
                c.check(g->setEdgeDestination(*m.es.at(e).e, *m.vs.at(d).v), "setEdgeDestination returned false");
                m.es.at(e).dst = d;
                moves++;
            }
            break;
        case 18: case 19:
            if (!m.es.empty()) {
                int e = anyE(), s = anyV();
                c.note("source of edge ", e, " = ", s);
                bool thrown = false;
                try {
                    c.check(g->setEdgeSource(*m.es.at(e).e, *m.vs.at(s).v), "setEdgeSource returned false");
                }
                catch (std::runtime_error&) {
                    thrown = true;
                }
                c.eq(thrown, m.vs.at(s).action, "setEdgeSource refused");
                if (thrown)
                    c.label("edge source set to an action: refused");
                if (!thrown && m.es.at(e).src != s) {
                    auto& out = m.vs.at(m.es.at(e).src).out;
                    out.erase(std::find(out.begin(), out.end(), e));
                    m.vs.at(s).out.push_back(e);
                    m.es.at(e).src = s;
                    moves++;
                }
                else if (!thrown) {
                    // the place of the edge among those of its source is free
                    std::vector<int> now;
                    for (auto oe : m.vs.at(s).v->getOutgoingEdges())
                        for (auto& x : m.es)
                            if (x.second.e == oe)
                                now.push_back(x.first);
                    auto a = now, b = m.vs.at(s).out;
                    a.erase(std::remove(a.begin(), a.end(), e), a.end());
                    b.erase(std::remove(b.begin(), b.end(), e), b.end());
                    c.check(a == b && now.size() == m.vs.at(s).out.size(), "setEdgeSource to its current source lost edges");
                    m.vs.at(s).out = now;
                }
            }
            break;
        case 20: { // the graph changes hands
            c.label("graph moved");
            if (c.chance(1, 2)) {
                auto h = std::make_shared<TPG::TPGGraph>(std::move(*g));
                g = h;
                c.note("move construction");
            }
            else {
                auto h = make();
                h->addNewTeam();
                *h = std::move(*g);
                g = h;
                c.note("move assignment");
            }
            c.check(&g->getEnvironment() == w->env.get(), "environment of a moved graph");
            break;
        }
        default:
            if (c.chance(1, 6)) {
                g->clear();
                m.vs.clear();
                m.es.clear();
                c.note("clear");
            }
            else {
                g->clearProgramIntrons();
                c.note("clearProgramIntrons");
            }
        }
        compare(c, *g, m, progs, instrumented);
    }
    if (removals > 0 && moves > 0 && m.es.size() > 1)
        c.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C04";
    cfg.rule = "Random histories (1-60 operations) over a graph, plain or instrumented: additions, removals, clones, changes of source and destination, moves of the graph, clearing, operations given elements of another graph or invalid ones; after each operation the graph is compared with a list model (vertices, order of outgoing edges, incoming edges, roots, owners of the programs). Compiled with AddressSanitizer. Non-trivial: the history removes something, redirects an edge, and ends with at least two edges.";
    cfg.subs = {{"history", history, 12000, 250000}};
    return pbt::run(argc, argv, cfg);
}
