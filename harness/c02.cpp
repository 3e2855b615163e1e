// C02: intron identification, intron removal and comparison of behaviours.
#include "gg.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;

static std::vector<MLine> usefulLines(const World& w, const MProg& m)
{
    auto u = refUseful(w, m);
    std::vector<MLine> r;
    for (size_t i = 0; i < m.lines.size(); i++)
        if (u[i])
            r.push_back(m.lines[i]);
    return r;
}

static void checkFlags(Ctx& c, const World& w, const MProg& m, Program::Program& p, const char* when)
{
    auto useful = refUseful(w, m);
    uint64_t expected = 0;
    for (bool b : useful)
        expected += !b;
    uint64_t n = p.identifyIntrons();
    for (size_t i = 0; i < useful.size(); i++)
        c.check(p.isIntron(i) == !useful[i], when, ": line ", i, " is ", p.isIntron(i) ? "" : "not ",
                "an intron for the program, the opposite is expected");
    c.eq(n, expected, when, ": number of introns");
}

static void identify(Ctx& c)
{
    WorldOpts o;
    o.maxRegs = c.chance(1, 2) ? 4 : 10;
    auto w = genWorld(c, o);
    MProg m = genProg(c, *w, c.thorough ? 30 : 15);
    c.note(w->describe());
    c.note("program:", describe(*w, m));
    auto p = build(*w, m);
    checkFlags(c, *w, m, *p, "first identification");
    auto useful = refUseful(*w, m);
    size_t nu = 0;
    for (bool b : useful)
        nu += b;
    if (nu > 0 && nu < useful.size())
        c.nontrivial();
    auto run = [&](Program::Program& q) {
        Program::ProgramExecutionEngine e(q);
        return e.executeProgram();
    };
    for (int k = 0; k < 3; k++) {
        double e = refRun(*w, m), g = run(*p);
        c.check(sameDouble(e, g), "result without the introns: ", show(g), ", expected ", show(e));
        refill(c, *w);
    }
    // flags follow an edit once identified again
    if (!m.lines.empty() && c.chance(1, 2)) {
        size_t at = c.below(m.lines.size());
        MLine l = genLine(c, *w);
        m.lines[at] = l;
        writeLine(l, p->getLine(at));
        c.note("line ", at, " replaced: ", describe(*w, m));
        checkFlags(c, *w, m, *p, "after an edit");
    }
    // a copy keeps the flags
    Program::Program copy(*p);
    for (size_t i = 0; i < m.lines.size(); i++)
        c.check(copy.isIntron(i) == p->isIntron(i), "intron flag of line ", i, " differs in a copy");
    // removal
    copy.clearIntrons();
    MProg expect;
    expect.consts = m.consts;
    expect.lines = usefulLines(*w, m);
    c.check(readProg(*w, copy) == expect, "clearIntrons left: ", describe(*w, readProg(*w, copy)), " instead of ", describe(*w, expect));
    c.check(readProg(*w, *p) == m, "clearIntrons on a copy changed the original");
    for (int k = 0; k < 3; k++) {
        double e = refRun(*w, m), g = run(copy);
        c.check(sameDouble(e, g), "result after clearIntrons: ", show(g), ", expected ", show(e));
        refill(c, *w);
    }
    c.eq(copy.identifyIntrons(), 0u, "introns left after clearIntrons");
}

// The part of a line that has an effect.
static MLine usedPart(const World& w, MLine l)
{
    size_t n = w.ins.at(l.ins)->ops.size();
    l.ops.resize(n);
    static const std::vector<double> none;
    for (size_t i = 0; i < n; i++)
        l.ops[i].second %= modelSpace(w.operandSource(l.ops[i].first, none, none), w.ins[l.ins]->ops[i]);
    return l;
}
static std::vector<double> usedConstants(const World& w, const MProg& m)
{
    std::vector<double> r;
    if (w.nbConst == 0)
        return r;
    static const std::vector<double> none;
    for (auto& l : usefulLines(w, m))
        for (size_t i = 0; i < w.ins[l.ins]->ops.size(); i++)
            if (l.ops[i].first == 1) {
                auto s = w.operandSource(1, none, none);
                auto& t = w.ins[l.ins]->ops[i];
                for (size_t a : modelAddresses(s, t, l.ops[i].second % modelSpace(s, t)))
                    r.push_back(m.consts.at(a));
            }
    return r;
}

static void compare(Ctx& c)
{
    WorldOpts o;
    o.maxRegs = c.chance(1, 2) ? 3 : 8;
    auto w = genWorld(c, o);
    MProg m = genProg(c, *w, 8), m2 = m;
    // m2: an edited copy of m
    size_t n = (size_t)c.in(0, 3);
    for (size_t i = 0; i < n; i++) {
        size_t len = m2.lines.size();
        switch (c.below(7)) {
        case 0:
            m2.lines.insert(m2.lines.begin() + (long)c.below(len + 1), genLine(c, *w));
            break;
        case 1:
            if (len)
                m2.lines.erase(m2.lines.begin() + (long)c.below(len));
            break;
        case 2:
            if (len)
                m2.lines[c.below(len)] = genLine(c, *w);
            break;
        case 3:
        case 4: // a change of one operand
            if (len) {
                MLine& l = m2.lines[c.below(len)];
                MLine fresh = genLine(c, *w);
                size_t k = c.below(l.ops.size());
                if (fresh.ins == l.ins)
                    l.ops[k] = fresh.ops[k];
                else
                    l.ops[k].second = fresh.ops[k].second;
            }
            break;
        case 5:
            if (len)
                m2.lines[c.below(len)].dest = c.below(w->nbRegs);
            break;
        default:
            if (w->nbConst > 0)
                m2.consts[c.below(w->nbConst)] = (double)c.in(-20, 20);
        }
    }
    c.note(w->describe());
    c.note("first:", describe(*w, m));
    c.note("second:", describe(*w, m2));
    auto p = build(*w, m), q = build(*w, m2);
    p->identifyIntrons();
    q->identifyIntrons();
    bool same = p->hasIdenticalBehavior(*q);
    c.note("hasIdenticalBehavior: ", same);
    c.check(q->hasIdenticalBehavior(*p) == same, "hasIdenticalBehavior is not symmetric");
    c.check(p->hasIdenticalBehavior(*p), "hasIdenticalBehavior is not reflexive");
    auto u = usefulLines(*w, m), u2 = usefulLines(*w, m2);
    auto k = usedConstants(*w, m), k2 = usedConstants(*w, m2);
    if (u == u2 && k == k2) {
        c.check(same, "identical useful lines and used constants are declared different");
        if (!(m == m2)) {
            c.nontrivial();
            c.label("same behaviour, different programs");
        }
    }
    std::vector<MLine> e, e2;
    for (auto& l : u)
        e.push_back(usedPart(*w, l));
    for (auto& l : u2)
        e2.push_back(usedPart(*w, l));
    if (e != e2 || k != k2) {
        c.check(!same, "different useful lines or used constants are declared identical");
        if (e == e2) {
            c.nontrivial();
            c.label("only used constants differ");
        }
        else if (u.size() == u2.size()) {
            c.nontrivial();
            c.label("same length, different lines");
        }
    }
    if (same)
        for (int i = 0; i < 3; i++) {
            double a = refRun(*w, m), b = refRun(*w, m2);
            c.check(sameDouble(a, b), "programs declared identical return ", show(a), " and ", show(b));
            refill(c, *w);
        }
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C02";
    cfg.rule = "Random environments and programs; oracle: backward liveness of registers computed on the model of the program, reference interpreter before/after. identify: flags, counts, results with skipped lines and after clearIntrons on three sets of data; non-trivial when some but not all lines are useful. compare: a program and a copy with 0-3 edits (lines, operands, destination, constants); non-trivial when programs differ but behave the same, when only used constants differ, or when as many useful lines differ.";
    cfg.subs = {{"identify", identify, 40000, 800000}, {"compare", compare, 60000, 1500000}};
    return pbt::run(argc, argv, cfg);
}
