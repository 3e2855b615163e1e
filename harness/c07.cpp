// C07: a mutated program behaves differently from the archived ones.
#include "gg.h"
#include <algorithm>
#include <limits>
using pbt::Ctx;
using namespace gg;
using namespace Mutator;

struct Rec {
    size_t prog, hash;
    double result;
};
static bool close(double a, double b, double tau)
{
    if (std::isinf(a) || std::isinf(b))
        return a == b;
    return std::fabs(a - b) <= tau;
}

struct Setting {
    std::unique_ptr<World> w;
    std::unique_ptr<Archive> archive;
    std::vector<std::shared_ptr<Program::Program>> progs;
    std::vector<MProg> mprogs;
    std::vector<Rec> recs;
    std::map<size_t, std::vector<std::vector<double>>> contents;
    MutationParameters params;
};

static void fillRich(Ctx& c, World& w)
{
    for (auto& s : w.srcs)
        for (size_t i = 0; i < s->size(); i++)
            s->set(i, s->elem == ED || s->elem == EF ? (double)c.in(-4000, 4000) / 8 + 0.125 * (double)i : (double)(c.in(0, 200) + (int64_t)i));
}

static Setting gen(Ctx& c)
{
    Setting s;
    WorldOpts o;
    o.minRegs = 2;
    o.maxSrc = 3;
    o.finiteOnly = c.chance(2, 3);
    s.w = genWorld(c, o);
    // a source of several doubles, so that many behaviours exist
    {
        auto x = makeSrc(ED, SH_ARRAY, 4, 1);
        // the environment must know it: rebuild
        s.w->srcs.push_back(std::move(x));
        s.w->env = std::make_unique<Environment>(s.w->set, s.w->refs(), s.w->nbRegs, s.w->nbConst);
        static const std::vector<double> none;
        s.w->ins.clear();
        for (auto i : s.w->offered) {
            bool all = true;
            for (auto& t : i->ops) {
                bool some = false;
                for (size_t k = 0; k < s.w->nbOperandSources(); k++)
                    some |= s.w->provides(k, t);
                all &= some;
            }
            if (all)
                s.w->ins.push_back(i);
        }
        std::vector<const Ins*> uniq;
        if (s.w->env->getNbInstructions() != s.w->ins.size()) {
            // the set ignores nothing: same instructions, same order
            c.fail("the environment keeps ", s.w->env->getNbInstructions(), " instructions, expected ", s.w->ins.size());
        }
    }
    World& w = *s.w;
    fillRich(c, w);
    size_t size = c.chance(1, 4) ? 8 : 2000;
    s.archive = std::make_unique<Archive>(size, 1.0, 0);
    size_t np = (size_t)c.in(1, 8), nd = c.chance(1, 8) ? (size_t)c.in(40, 160) : (size_t)c.in(1, 4);
    // programs known on few data among many
    uint64_t known = nd > 4 ? (uint64_t)c.in(1, 3) : 75, outOf = nd > 4 ? 60 : 100;
    for (size_t i = 0; i < np; i++) {
        MProg m = genProg(c, w, 4);
        s.mprogs.push_back(m);
        s.progs.push_back(build(w, m));
        s.progs.back()->identifyIntrons();
    }
    for (size_t d = 0; d < nd; d++) {
        if (d > 0)
            fillRich(c, w);
        for (size_t i = 0; i < np; i++) {
            if (!(nd > 4 && i == 0) && !c.chance(known, outOf))
                continue;
            double r = refRun(w, s.mprogs[i]);
            if (std::isnan(r))
                r = -std::numeric_limits<double>::infinity();
            size_t h = Archive::getCombinedHash(w.refs());
            s.archive->addRecording(s.progs[i].get(), w.refs(), r);
            s.recs.push_back({i, h, r});
            std::vector<std::vector<double>> v;
            for (auto& x : w.srcs)
                v.push_back(x->values);
            s.contents[h] = v;
        }
    }
    while (s.recs.size() > size)
        s.recs.erase(s.recs.begin());
    if (c.chance(1, 2))
        fillRich(c, w); // the present is not archived
    MutationParameters& p = s.params;
    p.tpg.forceProgramBehaviorChangeOnMutation = c.chance(1, 2);
    p.prog.maxProgramSize = (size_t)c.in(3, 10);
    p.prog.pDelete = c.proba();
    p.prog.pAdd = 0.3 + 0.7 * c.proba();
    p.prog.pMutate = 0.3 + 0.7 * c.proba();
    p.prog.pSwap = c.proba();
    p.prog.pConstantMutation = c.proba();
    p.prog.minConstValue = -10;
    p.prog.maxConstValue = 10;
    c.note(w.describe());
    c.note(np, " archived programs, ", s.recs.size(), " recordings, force=", p.tpg.forceProgramBehaviorChangeOnMutation);
    return s;
}

static double runOn(const Setting& s, const MProg& m, const std::vector<std::vector<double>>& values)
{
    std::vector<SrcModel> src;
    for (size_t i = 0; i < s.w->srcs.size(); i++) {
        SrcModel x = modelOf(*s.w->srcs[i]);
        x.values = &values[i];
        src.push_back(x);
    }
    double r = refRunOn(*s.w, m, src);
    return std::isnan(r) ? -std::numeric_limits<double>::infinity() : r; // as a bid
}

// How many archived programs have the behaviour of m on all their archived data.
static size_t twins(const Setting& s, const MProg& m)
{
    std::map<size_t, std::pair<size_t, size_t>> per;
    for (auto& r : s.recs) {
        double v = runOn(s, m, s.contents.at(r.hash));
        per[r.prog].first++;
        per[r.prog].second += close(v, r.result, 1e-4);
    }
    size_t n = 0;
    for (auto& p : per)
        n += p.second.first == p.second.second;
    return n;
}

static void unchanged(Ctx& c, const Setting& s)
{
    c.eq(s.archive->getNbRecordings(), s.recs.size(), "recordings after the mutation");
    for (size_t i = 0; i < s.recs.size(); i++) {
        c.check(s.archive->at(i).prog == s.progs[s.recs[i].prog].get() && s.archive->at(i).dataHash == s.recs[i].hash && sameDouble(s.archive->at(i).result, s.recs[i].result),
                "recording ", i, " changed during the mutation");
    }
    for (size_t i = 0; i < s.progs.size(); i++)
        c.check(readProg(*s.w, *s.progs[i]) == s.mprogs[i], "archived program ", i, " changed during the mutation");
}

static void judge(Ctx& c, const Setting& s, const MProg& before, Program::Program& after)
{
    MProg m = readProg(*s.w, after);
    for (auto& l : m.lines)
        c.check(invalidity(*s.w, l).empty(), "mutated program: ", invalidity(*s.w, l));
    c.check(m.lines.size() <= std::max(s.params.prog.maxProgramSize, before.lines.size()), "the mutated program has ", m.lines.size(), " lines");
    size_t t = twins(s, m);
    c.check(t == 0, "the mutated program has the results of ", t, " archived program(s): ", describe(*s.w, m));
    if (s.params.tpg.forceProgramBehaviorChangeOnMutation) {
        auto old = build(*s.w, before);
        old->identifyIntrons();
        c.check(!(m == before), "the behaviour had to change, the program is the same");
        c.check(!after.hasIdenticalBehavior(*old), "the behaviour had to change, it is identical");
        // Same useful lines, in the same order, with the same constants
        auto u = refUseful(*s.w, m), v = refUseful(*s.w, before);
        std::vector<MLine> a, b;
        for (size_t i = 0; i < m.lines.size(); i++)
            if (u[i])
                a.push_back(m.lines[i]);
        for (size_t i = 0; i < before.lines.size(); i++)
            if (v[i])
                b.push_back(before.lines[i]);
        c.check(!(a == b && m.consts == before.consts), "the behaviour had to change, the useful lines are the same");
    }
    auto useful = refUseful(*s.w, m);
    for (size_t i = 0; i < m.lines.size(); i++)
        c.eq(after.isIntron(i), !useful[i], "intron flag of line ", i, " of the mutated program");
}

static void one(Ctx& c)
{
    Setting s = gen(c);
    MProg before = c.chance(1, 2) && !s.mprogs.empty() ? c.pick(s.mprogs) : genProg(c, *s.w, 5);
    c.note("program: ", describe(*s.w, before));
    auto p = build(*s.w, before);
    p->identifyIntrons();
    bool twinBefore = twins(s, before) > 0;
    RNG rng(c.below(0));
    size_t rounds = (size_t)c.in(1, 3);
    for (size_t r = 0; r < rounds; r++) {
        TPGMutator::mutateProgramBehaviorAgainstArchive(p, s.params, *s.archive, rng);
        judge(c, s, before, *p);
        unchanged(c, s);
        before = readProg(*s.w, *p);
    }
    if (twinBefore)
        c.label("programs with an archived twin");
    if (!s.recs.empty())
        c.nontrivial();
}

static void many(Ctx& c)
{
    Setting s = gen(c);
    size_t n = (size_t)c.in(1, 12);
    std::vector<MProg> start;
    for (size_t i = 0; i < n; i++)
        start.push_back(c.chance(1, 3) ? c.pick(s.mprogs) : genProg(c, *s.w, 5));
    uint64_t seed = c.below(0);
    uint64_t threads = (uint64_t)c.in(2, 6);
    c.note(n, " programs, ", threads, " threads, seed ", seed);
    std::vector<std::vector<MProg>> results;
    std::vector<uint64_t> next;
    for (uint64_t t : {(uint64_t)1, threads, (uint64_t)0}) {
        std::list<std::shared_ptr<Program::Program>> ps;
        for (auto& m : start) {
            ps.push_back(build(*s.w, m));
            ps.back()->identifyIntrons();
        }
        std::list<std::shared_ptr<Program::Program>> copy(ps);
        RNG rng(seed);
        TPGMutator::mutateNewProgramBehaviors(t, ps, rng, s.params, *s.archive);
        c.check(ps == copy, "the list of programs changed");
        std::vector<MProg> res;
        size_t i = 0;
        for (auto& p : ps) {
            judge(c, s, start[i++], *p);
            res.push_back(readProg(*s.w, *p));
        }
        unchanged(c, s);
        results.push_back(res);
        next.push_back(rng.getUnsignedInt64(0, UINT64_MAX));
    }
    for (size_t k = 1; k < results.size(); k++) {
        for (size_t i = 0; i < n; i++)
            c.check(results[k][i] == results[0][i], "program ", i, " of ", n, " is not mutated as in the sequential case with ", k == 1 ? threads : 0, " threads: ", describe(*s.w, results[k][i]), " instead of ", describe(*s.w, results[0][i]));
        c.eq(next[k], next[0], "random number drawn after the mutations, with ", k == 1 ? threads : 0, " threads");
    }
    if (n > 1)
        c.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C07";
    cfg.rule = "Random environments, archives of up to 8 programs on up to 4 (or 160) contents of the data, random mutation parameters. one: programs (often archived ones) mutated several times in a row; many: lists of up to 12 programs mutated with 1, 0 and 2-6 threads from the same seed. Each mutated program is run by the reference interpreter on the archived contents. Non-trivial: the archive is not empty; more than one program.";
    cfg.assumptions = {"behaviours different from the archived ones exist and are reachable (rich data)"};
    cfg.subs = {{"one", one, 16000, 320000}, {"many", many, 5000, 100000}};
    return pbt::run(argc, argv, cfg);
}
