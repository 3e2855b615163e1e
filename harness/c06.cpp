// C06: initialisation and population of TPGs.
#include "gg.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;
using namespace Mutator;

static MutationParameters genParams(Ctx& c, const World& w, size_t nbActions)
{
    MutationParameters p;
    p.tpg.nbActions = nbActions;
    p.tpg.maxInitOutgoingEdges = (size_t)c.in(2, (int64_t)nbActions);
    p.tpg.nbRoots = (size_t)c.in(1, 14);
    p.tpg.maxOutgoingEdges = (size_t)c.in(2, 7);
    p.tpg.pEdgeDeletion = c.proba();
    p.tpg.pEdgeAddition = c.proba();
    p.tpg.pProgramMutation = 0.05 + 0.95 * c.proba();
    p.tpg.pEdgeDestinationChange = c.proba();
    p.tpg.pEdgeDestinationIsAction = c.proba();
    p.tpg.forceProgramBehaviorChangeOnMutation = c.chance(1, 3);
    p.prog.maxProgramSize = (size_t)c.in(2, 12);
    p.prog.pDelete = c.proba();
    p.prog.pAdd = 0.2 + 0.8 * c.proba();
    p.prog.pMutate = 0.2 + 0.8 * c.proba();
    p.prog.pSwap = c.proba();
    p.prog.pConstantMutation = c.proba();
    p.prog.minConstValue = (int32_t)c.in(-50, 5);
    p.prog.maxConstValue = p.prog.minConstValue + (int32_t)c.in(0, 60);
    return p;
}
static std::string str(const MutationParameters& p)
{
    std::ostringstream o;
    o << "params: nbActions=" << p.tpg.nbActions << " maxInitOutgoingEdges=" << p.tpg.maxInitOutgoingEdges << " nbRoots=" << p.tpg.nbRoots
      << " maxOutgoingEdges=" << p.tpg.maxOutgoingEdges << " pEdgeDeletion=" << p.tpg.pEdgeDeletion << " pEdgeAddition=" << p.tpg.pEdgeAddition
      << " pProgramMutation=" << p.tpg.pProgramMutation << " force=" << p.tpg.forceProgramBehaviorChangeOnMutation << " pEdgeDestinationChange="
      << p.tpg.pEdgeDestinationChange << " pEdgeDestinationIsAction=" << p.tpg.pEdgeDestinationIsAction << " maxProgramSize=" << p.prog.maxProgramSize
      << " pDelete=" << p.prog.pDelete << " pAdd=" << p.prog.pAdd << " pMutate=" << p.prog.pMutate << " pSwap=" << p.prog.pSwap
      << " pConstantMutation=" << p.prog.pConstantMutation << " constants in [" << p.prog.minConstValue << "," << p.prog.maxConstValue << "]";
    return o.str();
}

static std::shared_ptr<TPG::TPGGraph> newGraph(Ctx& c, const World& w)
{
    if (c.chance(1, 3))
        return TPG::TPGInstrumentedFactory().createTPGGraph(*w.env);
    return TPG::TPGFactory().createTPGGraph(*w.env);
}

// Structure of a graph that was just initialised.
static void checkInit(Ctx& c, const World& w, const TPG::TPGGraph& g, const MutationParameters& p)
{
    size_t n = p.tpg.nbActions;
    c.check(graphProblem(g).empty(), "after the initialisation: ", graphProblem(g));
    std::set<uint64_t> ids;
    size_t actions = 0, teams = 0;
    std::set<const Program::Program*> progs;
    std::map<const Program::Program*, const TPG::TPGVertex*> to;
    for (auto v : g.getVertices()) {
        if (auto a = dynamic_cast<const TPG::TPGAction*>(v)) {
            ids.insert(a->getActionID());
            actions++;
            continue;
        }
        teams++;
        size_t ne = v->getOutgoingEdges().size();
        c.check(ne >= 2 && ne <= p.tpg.maxInitOutgoingEdges, "a team has ", ne, " edges");
        std::set<const TPG::TPGVertex*> dest;
        std::set<const Program::Program*> mine;
        for (auto e : v->getOutgoingEdges()) {
            c.check(dynamic_cast<const TPG::TPGAction*>(e->getDestination()), "an initial edge does not lead to an action");
            dest.insert(e->getDestination());
            c.check(mine.insert(&e->getProgram()).second, "a team uses a program twice");
            progs.insert(&e->getProgram());
            auto r = to.insert({&e->getProgram(), e->getDestination()});
            c.check(r.first->second == e->getDestination(), "a program leads to two actions");
        }
        c.check(dest.size() >= 2, "a team leads to a single action");
        c.check(v->getIncomingEdges().empty(), "an initial team is not a root");
    }
    c.eq(actions, n, "number of actions");
    c.eq(teams, n, "number of teams");
    c.check(ids.size() == n && *ids.rbegin() == n - 1, "actions are not numbered from 0 to n-1");
    c.eq(progs.size(), 2 * n, "number of programs");
    for (auto v : g.getVertices())
        if (dynamic_cast<const TPG::TPGAction*>(v))
            c.check(!v->getIncomingEdges().empty(), "an action is not reachable");
    for (auto x : progs) {
        c.check(x->getNbLines() >= 1 && x->getNbLines() <= p.prog.maxProgramSize, "an initial program has ", x->getNbLines(), " lines");
        MProg m = readProg(w, *x);
        for (auto& l : m.lines)
            c.check(invalidity(w, l).empty(), "initial program: ", invalidity(w, l));
        for (auto k : m.consts)
            c.check(k >= p.prog.minConstValue && k <= p.prog.maxConstValue, "initial constant ", k, " out of bounds");
        Program::ProgramExecutionEngine e(*x);
        double a = e.executeProgram(true), b = refRun(w, m);
        c.check(sameDouble(a, b), "initial program returned ", show(a), ", expected ", show(b));
    }
}

static void init(Ctx& c)
{
    auto w = genWorld(c);
    auto g = newGraph(c, *w);
    bool dirty = c.chance(1, 2);
    if (dirty)
        genGraph(c, *w, *g, GraphOpts());
    MutationParameters p = genParams(c, *w, (size_t)c.in(2, c.thorough ? 12 : 7));
    c.note(w->describe());
    c.note(str(p), dirty ? ", graph not empty" : "");
    RNG rng(c.below(0));
    if (c.chance(1, 8)) {
        // rejected parameters
        if (c.chance(1, 2))
            p.tpg.maxInitOutgoingEdges = p.tpg.nbActions + 1 + c.below(3);
        else {
            p.tpg.nbActions = c.below(2);
            p.tpg.maxInitOutgoingEdges = c.below(2);
        }
        bool thrown = false;
        try {
            TPGMutator::initRandomTPG(*g, p, rng);
        }
        catch (std::runtime_error&) {
            thrown = true;
        }
        c.check(thrown, "invalid parameters accepted");
        c.label("rejected parameters");
        c.nontrivial();
        return;
    }
    size_t most = 0, least = 1000;
    bool cover = c.chance(1, 6);
    for (size_t k = 0; k < (cover ? 40 : 1); k++) {
        TPGMutator::initRandomTPG(*g, p, rng);
        checkInit(c, *w, *g, p);
        for (auto v : g->getVertices())
            if (!v->getOutgoingEdges().empty()) {
                most = std::max(most, v->getOutgoingEdges().size());
                least = std::min(least, v->getOutgoingEdges().size());
            }
    }
    if (cover && p.tpg.maxInitOutgoingEdges <= 6) {
        c.eq(most, p.tpg.maxInitOutgoingEdges, "most edges of a team, over 40 initialisations");
        c.eq(least, (size_t)2, "fewest edges of a team, over 40 initialisations");
        c.label("distribution of the number of edges");
    }
    if (p.tpg.maxInitOutgoingEdges > 2)
        c.nontrivial();
}

// ------------------------------------------------------------ population ---
struct Snap {
    std::vector<const TPG::TPGVertex*> vertices;
    std::map<const TPG::TPGVertex*, std::list<TPG::TPGEdge*>> out;
    struct E {
        const TPG::TPGVertex *src, *dst;
        const Program::Program* prog;
    };
    std::map<const TPG::TPGEdge*, E> edges;
    std::map<const Program::Program*, MProg> progs;
    std::map<const TPG::TPGVertex*, uint64_t> ids;
    std::set<const TPG::TPGVertex*> roots;
};
static Snap snap(const World& w, const TPG::TPGGraph& g)
{
    Snap s;
    for (auto v : g.getVertices())
        s.vertices.push_back(v);
    for (auto v : s.vertices) {
        s.out[v] = v->getOutgoingEdges();
        if (auto a = dynamic_cast<const TPG::TPGAction*>(v))
            s.ids[v] = a->getActionID();
        if (v->getIncomingEdges().empty())
            s.roots.insert(v);
    }
    for (auto& e : g.getEdges()) {
        s.edges[e.get()] = {e->getSource(), e->getDestination(), &e->getProgram()};
        if (!s.progs.count(&e->getProgram()))
            s.progs[&e->getProgram()] = readProg(w, e->getProgram());
    }
    return s;
}

static void checkPopulation(Ctx& c, const World& w, const TPG::TPGGraph& g, const Snap& s, const MutationParameters& p)
{
    std::string pb = graphProblem(g);
    c.check(pb.empty(), "after the population: ", pb);
    c.check(!hasCycle(g), "the population created a cycle");
    size_t roots = g.getNbRootVertices();
    if (s.roots.size() >= p.tpg.nbRoots) {
        c.eq(g.getNbVertices(), s.vertices.size(), "vertices, although there were enough roots");
        c.eq(g.getEdges().size(), s.edges.size(), "edges, although there were enough roots");
    }
    else
        c.eq(roots, p.tpg.nbRoots, "roots after the population");
    // What was there is untouched
    std::set<const TPG::TPGVertex*> now;
    for (auto v : g.getVertices())
        now.insert(v);
    std::set<const TPG::TPGVertex*> old(s.vertices.begin(), s.vertices.end());
    size_t maxOut = 0;
    for (auto v : s.vertices) {
        c.check(now.count(v), "a vertex disappeared");
        c.check(v->getOutgoingEdges() == s.out.at(v), "the edges of an existing team changed");
        if (auto a = dynamic_cast<const TPG::TPGAction*>(v))
            c.eq(a->getActionID(), s.ids.at(v), "identifier of an existing action");
        if (s.roots.count(v))
            maxOut = std::max(maxOut, s.out.at(v).size());
    }
    std::set<const TPG::TPGEdge*> es;
    for (auto& e : g.getEdges())
        es.insert(e.get());
    std::map<const Program::Program*, std::set<const TPG::TPGVertex*>> oldDest;
    for (auto& e : s.edges) {
        c.check(es.count(e.first), "an edge disappeared");
        c.check(e.first->getSource() == e.second.src && e.first->getDestination() == e.second.dst, "an existing edge was redirected");
        c.check(&e.first->getProgram() == e.second.prog, "the program of an existing edge was replaced");
        oldDest[e.second.prog].insert(e.second.dst);
    }
    for (auto& x : s.progs)
        c.check(readProg(w, *x.first) == x.second, "an existing program was modified");
    // What is new
    bool empty = false; // programs without lines exist in hand-made graphs only
    for (auto& x : s.progs)
        empty |= x.second.lines.empty();
    std::map<const Program::Program*, size_t> fresh;
    size_t nbNew = 0;
    for (auto v : g.getVertices()) {
        if (old.count(v))
            continue;
        nbNew++;
        c.check(dynamic_cast<const TPG::TPGTeam*>(v), "the population created an action");
        size_t ne = v->getOutgoingEdges().size();
        size_t minParent = 1000;
        for (auto r : s.roots)
            if (!s.out.at(r).empty())
                minParent = std::min(minParent, s.out.at(r).size());
        c.check(ne >= std::min(minParent, (size_t)2), "a new team has ", ne, " edges");
        c.check(ne <= std::max(p.tpg.maxOutgoingEdges, std::max(maxOut, (size_t)3) - 1), "a new team has ", ne, " edges, over the maximum");
        size_t mutated = 0;
        for (auto e : v->getOutgoingEdges()) {
            auto d = e->getDestination();
            c.check(old.count(d), "a new team leads to another new team");
            auto prog = &e->getProgram();
            if (s.progs.count(prog)) {
                c.check(oldDest[prog].count(d), "a new edge with an unchanged program leads elsewhere");
                continue;
            }
            mutated++;
            fresh[prog]++;
            if (p.tpg.pEdgeDestinationChange == 0.0) {
                bool some = false;
                for (auto& x : s.edges)
                    some |= x.second.dst == d;
                c.check(some, "the destination of an edge changed, with a probability of 0");
            }
            MProg m = readProg(w, *prog);
            c.check((m.lines.size() >= 1 || empty) && m.lines.size() <= std::max(p.prog.maxProgramSize, (size_t)1), "a new program has ", m.lines.size(), " lines");
            for (auto& l : m.lines)
                c.check(invalidity(w, l).empty(), "new program: ", invalidity(w, l));
            Program::ProgramExecutionEngine eng(*prog);
            double a = eng.executeProgram(true), b = refRun(w, m);
            c.check(sameDouble(a, b), "new program returned ", show(a), " without introns, expected ", show(b));
        }
        c.check(mutated > 0, "a new team has no mutated program");
        c.label("mutated edges", mutated);
    }
    for (auto& f : fresh)
        c.check(f.second == 1, "a new program is shared by ", f.second, " edges");
    c.label("new teams", nbNew);
    if (nbNew > 0)
        c.nontrivial();
}

static bool excusedOutOfRange(const MutationParameters& p, const TPG::TPGGraph& g)
{
    if (!pbt::known("destination-action-picks-team") || p.tpg.pEdgeDestinationChange == 0 || p.tpg.pEdgeDestinationIsAction == 0)
        return false;
    size_t a = 0, t = 0;
    for (auto v : g.getVertices())
        (dynamic_cast<const TPG::TPGAction*>(v) ? a : t)++;
    return a > t;
}

static void populate(Ctx& c)
{
    WorldOpts wo;
    wo.finiteOnly = c.chance(1, 2);
    auto w = genWorld(c, wo);
    auto g = newGraph(c, *w);
    size_t n = (size_t)c.in(2, 6);
    MutationParameters p = genParams(c, *w, n);
    RNG rng(c.below(0));
    Archive archive(10, 0.5, c.below(0));
    c.note(w->describe());
    int start = (int)c.below(3);
    if (start == 0) {
        c.note("graph: initialised");
        TPGMutator::initRandomTPG(*g, p, rng);
    }
    else if (start == 1) {
        GraphOpts go;
        go.maxLines = p.prog.maxProgramSize;
        go.maxEdges = 7;
        genGraph(c, *w, *g, go);
        for (auto& e : g->getEdges())
            e->getProgram().identifyIntrons();
        c.note("graph: ", describe(*w, *g, false));
    }
    size_t rounds = (size_t)c.in(1, 5);
    for (size_t r = 0; r < rounds; r++) {
        if (r > 0 && c.chance(1, 3)) {
            size_t size = p.prog.maxProgramSize;
            p = genParams(c, *w, n);
            p.prog.maxProgramSize = size;
        }
        c.note("populate ", str(p));
        bool rootTeam = false;
        for (auto v : g->getRootVertices())
            rootTeam |= dynamic_cast<const TPG::TPGTeam*>(v) != nullptr;
        uint64_t threads = c.chance(1, 6) ? 3 : 1;
        bool excused = rootTeam && excusedOutOfRange(p, *g);
        try {
            if (!rootTeam) {
                TPGMutator::populateTPG(*g, archive, p, rng, threads);
                c.check(graphProblem(*g).empty(), "after the population: ", graphProblem(*g));
                c.check(!hasCycle(*g), "cycle");
                size_t want = std::max(p.tpg.nbRoots, n);
                c.check(g->getNbRootVertices() == want, "roots: ", g->getNbRootVertices(), ", expected ", want);
                c.label("population of a graph without root team");
            }
            else {
                Snap s = snap(*w, *g);
                TPGMutator::populateTPG(*g, archive, p, rng, threads);
                checkPopulation(c, *w, *g, s, p);
            }
        }
        catch (std::out_of_range&) {
            if (excused)
                c.discard();
            throw;
        }
        // selection
        auto roots = g->getRootVertices();
        for (auto v : roots)
            if (c.chance(1, 2) && dynamic_cast<const TPG::TPGTeam*>(v))
                g->removeVertex(*v);
    }
    if (c.chance(1, 3))
        c.note("final graph: ", describe(*w, *g, false));
}

// Direct mutation of teams: all the choices are possible, none is illegal.
static void destination(Ctx& c)
{
    auto w = genWorld(c);
    auto g = newGraph(c, *w);
    size_t na = (size_t)c.in(1, 5), nt = (size_t)c.in(2, 6);
    std::vector<const TPG::TPGAction*> actions;
    std::vector<const TPG::TPGTeam*> teams;
    for (size_t i = 0; i < na; i++)
        actions.push_back(&g->addNewAction(i));
    for (size_t i = 0; i < nt; i++)
        teams.push_back(&g->addNewTeam());
    const TPG::TPGTeam& team = g->addNewTeam();
    const TPG::TPGEdge& e = g->addNewEdge(team, *actions[0], build(*w, genProg(c, *w, 2)));
    MutationParameters p;
    double probas[] = {0.0, 0.5, 1.0};
    p.tpg.pEdgeDestinationIsAction = probas[c.below(3)];
    c.note(na, " actions, ", nt, " teams, pEdgeDestinationIsAction=", p.tpg.pEdgeDestinationIsAction);
    RNG rng(c.below(0));
    std::set<const TPG::TPGVertex*> seen;
    bool tolerated = false;
    size_t n = 40 * (na + nt), nbActions = 0;
    for (size_t i = 0; i < n; i++) {
        try {
            TPGMutator::mutateEdgeDestination(*g, &e, teams, actions, p, rng);
        }
        catch (std::out_of_range&) {
            if (pbt::known("destination-action-picks-team") && na > nt && p.tpg.pEdgeDestinationIsAction > 0) {
                tolerated = true;
                continue;
            }
            throw;
        }
        const TPG::TPGVertex* d = e.getDestination();
        c.check(d != &team, "the edge leads to its own team");
        bool isAction = std::find(actions.begin(), actions.end(), d) != actions.end();
        auto it = std::find(teams.begin(), teams.end(), d);
        c.check(isAction || it != teams.end(), "the destination is not one of the candidates");
        nbActions += isAction;
        if (p.tpg.pEdgeDestinationIsAction == 0)
            c.check(!isAction, "an action was chosen with a probability of 0");
        if (p.tpg.pEdgeDestinationIsAction == 1.0 && !isAction) {
            if (pbt::known("destination-action-picks-team") && (size_t)(it - teams.begin()) < na)
                tolerated = true;
            else
                c.fail("a team was chosen, although actions have a probability of 1");
        }
        seen.insert(d);
        c.check(e.getSource() == &team, "the source of the edge changed");
    }
    if (p.tpg.pEdgeDestinationIsAction < 1)
        for (size_t i = 0; i < nt; i++)
            c.check(seen.count(teams[i]), "team ", i, " is never chosen in ", n, " mutations");
    if (p.tpg.pEdgeDestinationIsAction > 0 && !pbt::known("destination-action-picks-team"))
        for (size_t i = 0; i < na; i++)
            c.check(seen.count(actions[i]), "action ", i, " is never chosen in ", n, " mutations");
    c.check(graphProblem(*g).empty(), graphProblem(*g));
    c.label(tolerated ? "affected by the known finding" : "exact");
    c.nontrivial();
}

// removeRandomEdge and addRandomEdge
static void edges(Ctx& c)
{
    auto w = genWorld(c);
    auto g = newGraph(c, *w);
    GraphOpts go;
    go.maxTeams = 5;
    genGraph(c, *w, *g, go);
    std::vector<const TPG::TPGTeam*> teams;
    for (auto v : g->getVertices())
        if (auto t = dynamic_cast<const TPG::TPGTeam*>(v))
            teams.push_back(t);
    if (teams.size() < 2)
        c.discard();
    c.note(describe(*w, *g, false));
    RNG rng(c.below(0));
    const TPG::TPGTeam& team = *c.pick(teams);
    std::list<const TPG::TPGEdge*> pre;
    for (auto& e : g->getEdges())
        pre.push_back(e.get());
    size_t pickable = 0;
    for (auto e : pre)
        pickable += e->getSource() != &team && e->getDestination() != &team;
    if (pickable == 0)
        c.discard();
    size_t k = (size_t)c.in(1, 6);
    for (size_t i = 0; i < k; i++) {
        Snap s = snap(*w, *g);
        TPGMutator::addRandomEdge(*g, team, pre, rng);
        c.eq(g->getEdges().size(), s.edges.size() + 1, "edges after an addition");
        for (auto& e : g->getEdges()) {
            auto it = s.edges.find(e.get());
            if (it != s.edges.end()) {
                c.check(e->getSource() == it->second.src && e->getDestination() == it->second.dst && &e->getProgram() == it->second.prog, "an existing edge was altered");
                continue;
            }
            c.check(e->getSource() == &team, "the new edge belongs to another team");
            c.check(e->getDestination() != &team, "the new edge leads to its own team");
            bool some = false;
            for (auto o : pre)
                some |= o->getSource() != &team && o->getDestination() == e->getDestination() && &o->getProgram() == &e->getProgram();
            c.check(some, "the new edge is not the duplicate of an edge of another team");
        }
        c.check(graphProblem(*g).empty(), graphProblem(*g));
    }
    while (team.getOutgoingEdges().size() > 1) {
        Snap s = snap(*w, *g);
        size_t before = team.getOutgoingEdges().size();
        TPGMutator::removeRandomEdge(*g, team, rng);
        c.eq(team.getOutgoingEdges().size(), before - 1, "edges of the team after a removal");
        c.eq(g->getEdges().size(), s.edges.size() - 1, "edges of the graph after a removal");
        c.check(graphProblem(*g).empty(), graphProblem(*g));
    }
    // every edge may be removed
    if (c.chance(1, 4)) {
        size_t n = 0;
        auto& t2 = g->addNewTeam();
        auto& a = g->addNewAction(0);
        n = (size_t)c.in(2, 5);
        auto prog = build(*w, genProg(c, *w, 2));
        std::set<size_t> removed;
        for (size_t i = 0; i < 60; i++) {
            std::vector<const TPG::TPGEdge*> mine;
            for (size_t j = 0; j < n; j++)
                mine.push_back(&g->addNewEdge(t2, a, prog));
            TPGMutator::removeRandomEdge(*g, t2, rng);
            std::set<const TPG::TPGEdge*> left(t2.getOutgoingEdges().begin(), t2.getOutgoingEdges().end());
            c.eq(left.size(), n - 1, "edges left");
            for (size_t j = 0; j < n; j++)
                if (!left.count(mine[j]))
                    removed.insert(j);
            for (auto e : left)
                g->removeEdge(*e);
        }
        c.eq(removed.size(), n, "positions removed in 60 random removals");
        c.label("every position is removed");
    }
    c.nontrivial();
}

// The defect recorded in known_findings.txt
static bool probeDestination()
{
    Instructions::Set set;
    Instructions::AddPrimitiveType<double> add;
    set.add(add);
    Data::PrimitiveTypeArray<double> d(2);
    std::vector<std::reference_wrapper<const Data::DataHandler>> v{d};
    Environment env(set, v, 2);
    TPG::TPGGraph g(env);
    std::vector<const TPG::TPGAction*> actions{&g.addNewAction(0)};
    std::vector<const TPG::TPGTeam*> teams{&g.addNewTeam()};
    auto& t = g.addNewTeam();
    auto& e = g.addNewEdge(t, *actions[0], std::make_shared<Program::Program>(env));
    MutationParameters p;
    p.tpg.pEdgeDestinationIsAction = 1.0;
    RNG rng(1);
    TPGMutator::mutateEdgeDestination(g, &e, teams, actions, p, rng);
    return e.getDestination() == teams[0];
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C06";
    cfg.rule = "init: random environment, parameters and dirty graphs, initialised; populate: histories of up to 5 rounds of populateTPG (1 or 3 threads) and random selection, from initialised, arbitrary and empty graphs, each round compared with a complete snapshot; destination / edges: direct mutations of edges, legality and reachability of every choice. Non-trivial: more than two initial edges allowed, teams were created, or edges were mutated.";
    cfg.assumptions = {"pProgramMutation > 0 and pMutate > 0 (the mutation never ends otherwise)", "2 <= maxInitOutgoingEdges <= nbActions"};
    cfg.subs = {{"init", init, 1500, 40000}, {"populate", populate, 6000, 120000}, {"destination", destination, 600, 8000}, {"edges", edges, 2500, 40000}};
    cfg.probes = {{"destination-action-picks-team", "mutateEdgeDestination (tpgMutator.cpp) picks a team, at an index drawn among the actions, when it should pick an action", probeDestination}};
    return pbt::run(argc, argv, cfg);
}
