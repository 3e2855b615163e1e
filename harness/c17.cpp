// C17: a graph exported in a dot file and imported back is the same graph.
#include "gg.h"
#include <algorithm>
#include <fstream>
#include <unistd.h>
using pbt::Ctx;
using namespace gg;

static std::string fileName(const char* suffix = "")
{
    return pbt::scratchDir() + "/g" + std::to_string(getpid()) + suffix + ".dot";
}
static std::string slurp(const std::string& f)
{
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
static std::string undated(const std::string& t)
{
    std::istringstream i(t);
    std::string l, r;
    while (std::getline(i, l))
        if (l.rfind("// On the ", 0) != 0)
            r += l + "\n";
    return r;
}

struct Sig {
    std::string structure; // teams, edges in order, programs (numbered) and their sharing
    std::vector<MProg> programs;
    std::multiset<std::string> roots;
    std::multiset<uint64_t> actions;
    std::vector<const TPG::TPGVertex*> teams;
};

// What must survive: the teams in this order with their edges in order.
static Sig signature(const World& w, const TPG::TPGGraph& g, const std::vector<const TPG::TPGVertex*>& vertices, bool mergeActions)
{
    Sig s;
    std::map<const TPG::TPGVertex*, std::string> name;
    std::map<const Program::Program*, size_t> pn;
    std::set<uint64_t> ids;
    for (auto v : vertices) {
        if (auto a = dynamic_cast<const TPG::TPGAction*>(v)) {
            name[v] = "A" + std::to_string(a->getActionID());
            if (!mergeActions || ids.insert(a->getActionID()).second)
                s.actions.insert(a->getActionID());
        }
        else {
            name[v] = "T" + std::to_string(s.teams.size());
            s.teams.push_back(v);
        }
    }
    std::ostringstream o;
    for (auto t : s.teams) {
        o << name[t] << ":";
        for (auto e : t->getOutgoingEdges()) {
            auto p = &e->getProgram();
            if (!pn.count(p)) {
                size_t k = pn.size();
                pn[p] = k;
                s.programs.push_back(readProg(w, *p));
            }
            o << " P" << pn[p] << ">" << (name.count(e->getDestination()) ? name[e->getDestination()] : "outside");
        }
        o << "\n";
    }
    s.structure = o.str();
    for (auto v : g.getRootVertices())
        if (name.count(v))
            s.roots.insert(name[v]);
    return s;
}

static void same(Ctx& c, const World& w, const Sig& want, const Sig& got, const char* what)
{
    c.check(got.structure == want.structure, what, ": the graph is\n", got.structure, "instead of\n", want.structure);
    c.eq(got.programs.size(), want.programs.size(), what, ": number of programs");
    for (size_t i = 0; i < want.programs.size(); i++)
        c.check(got.programs[i] == want.programs[i], what, ": program P", i, " is ", describe(w, got.programs[i]), " instead of ", describe(w, want.programs[i]));
    auto str = [](const auto& s) {
        std::ostringstream o;
        for (auto& x : s)
            o << x << " ";
        return o.str();
    };
    c.check(got.actions == want.actions, what, ": the actions are ", str(got.actions), "instead of ", str(want.actions));
    c.check(got.roots == want.roots, what, ": the roots are ", str(got.roots), "instead of ", str(want.roots));
}

static uint64_t decide(TPG::TPGExecutionEngine& e, const TPG::TPGVertex* v)
{
    return ((const TPG::TPGAction*)e.executeFromRoot(*v).back())->getActionID();
}

// Exports with the exporter, and imports in a graph which already has some
// content.
static void throughFile(Ctx& c, World& w, const TPG::TPGGraph& g, const Sig& before)
{
    std::string f = fileName(), f2 = fileName("b");
    {
        File::TPGGraphDotExporter ex(c.chance(1, 4) ? f2.c_str() : f.c_str(), g);
        if (c.chance(1, 3)) {
            ex.print();
            c.label("exporter used twice");
        }
        ex.setNewFilePath(f.c_str());
        ex.print();
    }
    std::string text = slurp(f);
    std::vector<const TPG::TPGVertex*> vs;
    for (auto v : g.getVertices())
        vs.push_back(v);
    same(c, w, before, signature(w, g, vs, false), "the graph after its export");

    TPG::TPGGraph h(*w.env);
    if (c.chance(1, 3)) {
        GraphOpts go;
        genGraph(c, w, h, go);
        c.label("imported over another graph");
    }
    File::TPGGraphDotImporter im(f.c_str(), *w.env, h);
    if (c.chance(1, 4)) {
        im.importGraph();
        c.label("imported twice");
    }
    c.check(graphProblem(h).empty(), "imported graph: ", graphProblem(h));
    auto hv = h.getVertices();
    Sig got = signature(w, h, std::vector<const TPG::TPGVertex*>(hv.begin(), hv.end()), false);
    same(c, w, before, got, "imported graph");
    for (auto& e : h.getEdges()) {
        auto useful = refUseful(w, readProg(w, e->getProgram()));
        for (size_t i = 0; i < useful.size(); i++)
            c.check(e->getProgram().isIntron(i) == !useful[i], "wrong intron flag in an imported program");
    }

    // The same decisions
    TPG::TPGExecutionEngine a(*w.env), b(*w.env);
    for (int k = 0; k < 3; k++) {
        for (size_t i = 0; i < before.teams.size(); i++)
            c.eq(decide(b, got.teams[i]), decide(a, before.teams[i]), "action decided by imported team ", i);
        refill(c, w);
    }
    // and the same file again
    {
        File::TPGGraphDotExporter ex(f2.c_str(), h);
        ex.print();
    }
    Sig again;
    {
        TPG::TPGGraph k(*w.env);
        File::TPGGraphDotImporter im2(f2.c_str(), *w.env, k);
        auto kv = k.getVertices();
        same(c, w, before, signature(w, k, std::vector<const TPG::TPGVertex*>(kv.begin(), kv.end()), false), "graph imported, exported and imported");
    }
    unlink(f.c_str());
    unlink(f2.c_str());
}

static Sig whole(const World& w, const TPG::TPGGraph& g)
{
    auto v = g.getVertices();
    return signature(w, g, std::vector<const TPG::TPGVertex*>(v.begin(), v.end()), false);
}

static std::unique_ptr<World> world(Ctx& c)
{
    WorldOpts o;
    o.maxSrc = 3;
    o.maxIns = 6;
    o.maxConst = 6;
    if (c.chance(1, 10))
        o.large = 20000;
    return genWorld(c, o);
}
static GraphOpts graphOpts(Ctx& c)
{
    GraphOpts go;
    go.uniqueActions = true;
    go.maxTeams = 7;
    if (c.chance(1, 12)) {
        go.maxTeams = 2;
        go.maxEdges = 3;
        go.maxLines = c.chance(1, 3) ? 3000 : 400;
    }
    return go;
}

static void built(Ctx& c)
{
    auto w = world(c);
    c.note(w->describe());
    TPG::TPGGraph g(*w->env);
    GraphOpts go = graphOpts(c);
    genGraph(c, *w, g, go);
    // large identifiers of actions
    if (c.chance(1, 10))
        g.addNewAction(c.chance(1, 2) ? 3000000000ull : 100 + c.below(1ull << 62));
    // edges moved from a team to another
    if (c.chance(1, 3)) {
        std::vector<const TPG::TPGEdge*> es;
        for (auto& e : g.getEdges())
            es.push_back(e.get());
        for (size_t k = 0; k < 3 && !es.empty(); k++) {
            const TPG::TPGEdge* e = c.pick(es);
            std::vector<const TPG::TPGVertex*> to;
            auto num = numbering(g);
            if (e->getSource()->getOutgoingEdges().size() < 2)
                continue;
            for (auto v : g.getVertices())
                if (dynamic_cast<const TPG::TPGTeam*>(v) && num[v] > num[e->getDestination()])
                    to.push_back(v);
            if (!to.empty()) {
                g.setEdgeSource(*e, *c.pick(to));
                c.label("edge moved");
            }
        }
    }
    Sig s = whole(*w, g);
    c.note(s.structure);
    size_t longest = 0;
    for (auto& p : s.programs)
        longest = std::max(longest, p.lines.size());
    if (longest > 150)
        c.label("long program");
    throughFile(c, *w, g, s);
    c.nontrivial(g.getEdges().size() > 1);
}

static void evolved(Ctx& c)
{
    auto w = world(c);
    c.note(w->describe());
    Mutator::MutationParameters p;
    p.tpg.nbActions = (size_t)c.in(2, 6);
    p.tpg.maxInitOutgoingEdges = (size_t)c.in(2, (int64_t)p.tpg.nbActions);
    p.tpg.nbRoots = (size_t)c.in(2, 12);
    p.tpg.maxOutgoingEdges = (size_t)c.in(2, 6);
    p.prog.maxProgramSize = (size_t)c.in(2, 12);
    p.tpg.pEdgeDestinationChange = c.proba();
    p.tpg.pEdgeDestinationIsAction = c.proba();
    p.tpg.pProgramMutation = 0.05 + 0.95 * c.proba();
    Mutator::RNG rng(c.below(0));
    Archive archive(20, 0.5);
    auto gp = TPG::TPGFactory().createTPGGraph(*w->env);
    TPG::TPGGraph& g = *gp;
    Mutator::TPGMutator::initRandomTPG(g, p, rng);
    size_t rounds = (size_t)c.in(0, 5);
    for (size_t r = 0; r < rounds; r++) {
        if (r > 0)
            for (auto v : g.getRootVertices())
                if (dynamic_cast<const TPG::TPGTeam*>(v) && g.getNbRootVertices() > 2 && c.chance(1, 2))
                    g.removeVertex(*v);
        try {
            Mutator::TPGMutator::populateTPG(g, archive, p, rng);
        }
        catch (std::out_of_range&) {
            c.discard(); // C06
        }
    }
    Sig s = whole(*w, g);
    c.note(s.structure);
    throughFile(c, *w, g, s);
    c.label("generations", rounds);
    c.nontrivial(rounds > 0);
}

// What is reachable from a root, in breadth-first order.
static void subgraph(Ctx& c)
{
    auto w = world(c);
    c.note(w->describe());
    TPG::TPGGraph g(*w->env);
    genGraph(c, *w, g, graphOpts(c));
    c.note(whole(*w, g).structure);
    std::string f = fileName();
    File::TPGGraphDotExporter ex(f.c_str(), g);
    for (auto root : g.getVertices()) {
        if (!root->getIncomingEdges().empty() && !c.chance(1, 4))
            continue;
        std::vector<const TPG::TPGVertex*> order{root};
        std::set<const TPG::TPGVertex*> seen{root};
        for (size_t i = 0; i < order.size(); i++)
            for (auto e : order[i]->getOutgoingEdges())
                if (seen.insert(e->getDestination()).second)
                    order.push_back(e->getDestination());
        Sig want = signature(*w, g, order, false);
        want.roots.clear();
        want.roots.insert(want.teams.empty() ? "A" + std::to_string(((const TPG::TPGAction*)root)->getActionID()) : "T0");
        ex.setNewFilePath(f.c_str());
        ex.printSubGraph(root);
        TPG::TPGGraph h(*w->env);
        File::TPGGraphDotImporter im(f.c_str(), *w->env, h);
        c.check(graphProblem(h).empty(), "imported graph: ", graphProblem(h));
        Sig got = whole(*w, h);
        same(c, *w, want, got, "graph exported from a vertex");
        TPG::TPGExecutionEngine a(*w->env), b(*w->env);
        for (int k = 0; k < 2; k++) {
            for (size_t i = 0; i < want.teams.size(); i++)
                c.eq(decide(b, got.teams[i]), decide(a, want.teams[i]), "action decided by imported team ", i);
            refill(c, *w);
        }
        c.nontrivial(want.teams.size() > 1);
        c.label(want.teams.empty() ? "action" : "team");
    }
    unlink(f.c_str());
}

// A file that was damaged is rejected by an exception, or read: it never
// corrupts anything. The content of the programs is left alone, as nothing is
// promised about files describing programs that cannot be executed.
static bool content(const std::string& l)
{
    return l.find("shape=box style=invis label") != std::string::npos;
}
static void damaged(Ctx& c)
{
    auto w = world(c);
    TPG::TPGGraph g(*w->env);
    GraphOpts go = graphOpts(c);
    genGraph(c, *w, g, go);
    std::string f = fileName();
    {
        File::TPGGraphDotExporter ex(f.c_str(), g);
        ex.print();
    }
    std::string t = slurp(f);
    std::vector<std::string> ls;
    std::istringstream is(t);
    for (std::string l; std::getline(is, l);)
        ls.push_back(l);
    std::string what;
    size_t n = (size_t)c.in(1, 4);
    for (size_t k = 0; k < n; k++) {
        size_t i = c.below(ls.size());
        switch (c.below(6)) {
        case 0: // cut
            t.resize(c.below(t.size() + 1));
            what = "cut";
            k = n;
            break;
        case 1:
            ls.erase(ls.begin() + (long)i);
            what += "line erased ";
            break;
        case 2:
            std::swap(ls[i], ls[c.below(ls.size())]);
            what += "lines swapped ";
            break;
        case 3:
            ls.insert(ls.begin() + (long)i, ls[c.below(ls.size())]);
            what += "line copied ";
            break;
        case 4: {
            std::string& l = ls[i];
            if (!l.empty() && !content(l)) {
                static const std::string chars = "0123456789|&#-T PAI[]\"=>x";
                l[c.below(l.size())] = chars[c.below(chars.size())];
            }
            what += "character ";
            break;
        }
        default: {
            std::string& l = ls[i];
            size_t a = c.below(l.size() + 1);
            if (!content(l))
                l.erase(a, c.below(l.size() - a + 1));
            what += "part erased ";
        }
        }
        if (ls.empty())
            break;
        if (what != "cut") {
            t.clear();
            for (auto& l : ls)
                t += l + "\n";
        }
    }
    c.note(what, "\n", t);
    {
        std::ofstream o(f, std::ios::binary);
        o << t;
    }
    TPG::TPGGraph h(*w->env);
    if (c.chance(1, 3))
        genGraph(c, *w, h, go);
    try {
        File::TPGGraphDotImporter im(f.c_str(), *w->env, h);
        c.label("read");
    }
    catch (std::exception& e) {
        c.label("rejected");
    }
    c.check(graphProblem(h).empty(), "graph after the import of a damaged file: ", graphProblem(h));
    unlink(f.c_str());
    c.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C17";
    cfg.rule = "built / evolved: a random graph (programs shared between edges of different destinations, edges moved, long programs, isolated actions) or an evolved population is exported in a dot file and imported (possibly over another graph, or twice): same teams and edges in the same order, same programs and sharing, same constants, actions, roots, same decisions on random data, and the same after a second round trip. subgraph: for each root (and some other vertices), exactly what it reaches. damaged: files cut or edited at random. Non-trivial: several edges, evolved graph, several teams, any damaged file.";
    cfg.subs = {{"built", built, 1600, 40000}, {"evolved", evolved, 700, 20000}, {"subgraph", subgraph, 900, 20000}, {"damaged", damaged, 2500, 80000}};
#ifdef __SANITIZE_ADDRESS__
    // The regular expressions are very slow with this instrumentation
    cfg.subs = {{"damaged", damaged, 1500, 40000}};
#endif
    return pbt::run(argc, argv, cfg);
}
