// C22: the statistics of a policy describe exactly the policy.
#include "gg.h"
#include <algorithm>
#include <sstream>
using pbt::Ctx;
using namespace gg;

struct Model {
    std::map<const Program::Program*, size_t> usePerProgram;
    std::map<const TPG::TPGTeam*, size_t> usePerTeam;
    std::map<const TPG::TPGAction*, size_t> usePerAction;
    std::vector<size_t> lines, introns, outgoing; // compared as multisets
    std::map<size_t, size_t> perInstruction, perAction, perLevel;
    std::map<std::pair<size_t, size_t>, size_t> perLocation;
    size_t depth = 0, teams = 0;
};

static void addLine(const World& w, const MLine& l, Model& m)
{
    static const std::vector<double> none;
    m.perInstruction[l.ins]++;
    const Ins& ins = *w.ins.at(l.ins);
    for (size_t i = 0; i < ins.ops.size(); i++) {
        SrcModel s = w.operandSource(l.ops[i].first, none, none);
        size_t space = modelSpace(s, ins.ops[i]);
        for (size_t a : modelAddresses(s, ins.ops[i], l.ops[i].second % space))
            m.perLocation[{l.ops[i].first, a}]++;
    }
}

// Statistics of what can be reached from this vertex. Levels are those of a
// breadth-first exploration, which explores each team once: a vertex is counted
// in a level once per edge of the teams first met in the level above.
static void addPolicy(const World& w, const TPG::TPGVertex& root, Model& m)
{
    std::set<const TPG::TPGVertex*> known;
    std::set<const Program::Program*> programs;
    std::vector<const TPG::TPGVertex*> level{&root};
    size_t depth = 0;
    while (!level.empty()) {
        std::vector<const TPG::TPGVertex*> next;
        m.perLevel[depth] = level.size();
        for (auto v : level) {
            if (auto a = dynamic_cast<const TPG::TPGAction*>(v)) {
                m.usePerAction[a]++;
                m.perAction[a->getActionID()]++;
                continue;
            }
            auto t = dynamic_cast<const TPG::TPGTeam*>(v);
            m.usePerTeam[t]++;
            if (!known.insert(v).second)
                continue;
            m.teams++;
            m.outgoing.push_back(v->getOutgoingEdges().size());
            for (auto e : v->getOutgoingEdges()) {
                const Program::Program* p = &e->getProgram();
                m.usePerProgram[p]++;
                if (programs.insert(p).second) {
                    MProg mp = readProg(w, *p);
                    m.lines.push_back(mp.lines.size());
                    size_t introns = 0;
                    for (size_t i = 0; i < mp.lines.size(); i++)
                        if (p->isIntron(i))
                            introns++;
                        else
                            addLine(w, mp.lines[i], m);
                    m.introns.push_back(introns);
                }
                next.push_back(e->getDestination());
            }
        }
        m.depth = depth++;
        level = next;
    }
}

static std::vector<size_t> sorted(std::vector<size_t> v)
{
    std::sort(v.begin(), v.end());
    return v;
}
template <class M> static std::string show(const M& m)
{
    std::ostringstream o;
    for (auto& x : m)
        o << x.first << ":" << x.second << " ";
    return o.str();
}
static std::string showLoc(const std::map<std::pair<size_t, size_t>, size_t>& m)
{
    std::ostringstream o;
    for (auto& x : m)
        o << x.first.first << "@" << x.first.second << ":" << x.second << " ";
    return o.str();
}

static void compare(Ctx& c, const TPG::PolicyStats& s, const Model& m)
{
    c.check(s.nbUsePerProgram == m.usePerProgram, "uses per program");
    c.check(s.nbUsePerTPGTeam == m.usePerTeam, "uses per team");
    c.check(s.nbUsePerTPGAction == m.usePerAction, "uses per action vertex");
    c.check(sorted(s.nbLinesPerProgram) == sorted(m.lines), "lines per program");
    c.check(sorted(s.nbIntronPerProgram) == sorted(m.introns), "introns per program");
    c.check(sorted(s.nbOutgoingEdgesPerTeam) == sorted(m.outgoing), "outgoing edges per team");
    c.eq(show(s.nbUsagePerInstruction), show(m.perInstruction), "uses per instruction");
    c.eq(show(s.nbUsagePerActionID), show(m.perAction), "uses per action identifier");
    c.eq(show(s.nbTPGVertexPerDepthLevel), show(m.perLevel), "vertices per level");
    c.eq(showLoc(s.nbUsagePerDataLocation), showLoc(m.perLocation), "uses per location");
    c.eq(s.maxPolicyDepth, m.depth, "depth");
    c.eq(s.nbDistinctTeams, m.teams, "distinct teams");
}

// The text contains the same numbers.
static void compareText(Ctx& c, const TPG::PolicyStats& s, const Model& m)
{
    std::ostringstream o;
    o << s;
    std::string text = o.str();
    std::map<std::string, std::string> field;
    std::istringstream in(text);
    std::string l;
    std::map<size_t, std::string> perSource;
    size_t source = SIZE_MAX;
    while (std::getline(in, l)) {
        if (l.rfind("### DataHandler ", 0) == 0) {
            source = std::stoull(l.substr(16));
            continue;
        }
        auto p = l.find('\t');
        if (source != SIZE_MAX)
            perSource[source] += l + "\n";
        else if (p != std::string::npos) {
            auto q = l.find_first_not_of('\t', p);
            field[l.substr(0, p)] = q == std::string::npos ? "" : l.substr(q);
        }
    }
    auto number = [&](const char* name, double v) {
        c.check(field.count(name), "the text has no field ", name);
        double got = atof(field[name].c_str());
        if (std::isnan(v))
            return; // average of nothing
        c.check(std::abs(got - v) <= 1e-4 * std::max(1.0, std::abs(v)), "field ", name, " of the text is '", field[name], "', expected ", v);
    };
    auto sum = [](const std::vector<size_t>& v) {
        double r = 0;
        for (auto x : v)
            r += (double)x;
        return r;
    };
    auto sumMap = [](const auto& v) {
        double r = 0;
        for (auto& x : v)
            r += (double)x.second;
        return r;
    };
    number("Teams:", (double)m.teams);
    number("Edges:", sum(m.outgoing));
    number("Actions:", (double)m.perAction.size());
    number("Stages", (double)m.depth);
    number("Use/action:", sumMap(m.perAction) / (double)m.perAction.size());
    number("Programs:", (double)m.usePerProgram.size());
    number("Line/prog:", sum(m.lines) / (double)m.lines.size());
    number("Intr/prog:", sum(m.introns) / (double)m.introns.size());
    number("Use/prog:", sumMap(m.usePerProgram) / (double)m.usePerProgram.size());
    number("Use/instr:", sumMap(m.perInstruction) / (double)m.perInstruction.size());
    auto list = [&](const char* name, const std::map<size_t, size_t>& v) {
        std::string got = field[name], expected;
        got.erase(std::remove(got.begin(), got.end(), ' '), got.end());
        for (auto& x : v)
            expected += "{" + std::to_string(x.first) + "," + std::to_string(x.second) + "}";
        size_t k = got.find('{');
        c.eq(k == std::string::npos ? std::string() : got.substr(k), expected, "list of ", name, " in the text");
    };
    list("Vertex/stage:", m.perLevel);
    list("Use/action:", m.perAction);
    list("Use/instr:", m.perInstruction);
    std::map<size_t, std::map<size_t, size_t>> bySource;
    for (auto& x : m.perLocation)
        bySource[x.first.first][x.first.second] = x.second;
    c.eq(perSource.size(), bySource.size(), "data sources in the text");
    for (auto& b : bySource) {
        std::string t = perSource[b.first];
        t.erase(std::remove_if(t.begin(), t.end(), [](char x) { return x == ' ' || x == '\t' || x == '\n'; }), t.end());
        std::string e = "Accesses:" + std::to_string((size_t)sumMap(b.second)) + "Locations:" + std::to_string(b.second.size());
        for (auto& x : b.second)
            e += "{" + std::to_string(x.first) + "," + std::to_string(x.second) + "}";
        c.eq(t, e, "data source ", b.first, " in the text");
    }
}

static void policies(Ctx& c)
{
    auto w = genWorld(c);
    TPG::TPGGraph g(*w->env);
    GraphOpts go;
    go.maxTeams = c.chance(1, 4) ? 20 : 7;
    genGraph(c, *w, g, go);
    c.note(w->describe());
    c.note(describe(*w, g));
    if (c.chance(3, 4))
        for (auto v : g.getVertices())
            for (auto e : v->getOutgoingEdges())
                if (c.chance(7, 8))
                    e->getProgram().identifyIntrons();
    TPG::PolicyStats s;
    s.setEnvironment(*w->env);
    size_t n = (size_t)c.in(1, 4);
    for (size_t i = 0; i < n; i++) {
        if (i > 0)
            s.clear();
        auto root = c.chance(1, 4) ? c.pick(g.getVertices()) : c.pick(g.getRootVertices());
        s.analyzePolicy(root);
        Model m;
        addPolicy(*w, *root, m);
        compare(c, s, m);
        compareText(c, s, m);
        c.nontrivial(m.teams > 1 && m.perInstruction.size() > 1);
        if (m.usePerProgram.size() < (size_t)std::count_if(g.getEdges().begin(), g.getEdges().end(), [](auto&) { return true; }))
            c.label("part of the graph, or shared programs");
        bool again = false;
        for (auto& x : m.usePerTeam)
            again = again || x.second > 1;
        if (again)
            c.label("team reached several times");
        if (m.perLocation.empty())
            c.label("no data used");
    }
    if (c.chance(1, 2)) {
        s.clear();
        compare(c, s, Model());
    }
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C22";
    cfg.rule = "the policy has several teams and uses several instructions";
    cfg.subs = {{"policies", policies, 40000, 600000}};
    return pbt::run(argc, argv, cfg);
}
