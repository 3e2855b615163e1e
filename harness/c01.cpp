// C01: executing a program computes what its instructions define.
#include "gg.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;

static void prepare(Ctx& c, Program::Program& p)
{
    if (c.chance(1, 2)) {
        p.identifyIntrons();
        c.label("introns identified");
    }
}

// One engine runs several programs on changing data.
static void execute(Ctx& c)
{
    auto w = genWorld(c);
    c.note(w->describe());
    Program::ProgramExecutionEngine eng(*w->env);
    size_t np = (size_t)c.in(1, 3);
    std::vector<MProg> ms;
    std::vector<std::shared_ptr<Program::Program>> ps;
    for (size_t i = 0; i < np; i++) {
        ms.push_back(genProg(c, *w, c.thorough ? 30 : 14));
        ps.push_back(build(*w, ms.back()));
        prepare(c, *ps.back());
        c.note("program ", i, ":", describe(*w, ms.back()));
    }
    size_t runs = (size_t)c.in(1, 5);
    for (size_t r = 0; r < runs; r++) {
        size_t k = c.below(np);
        if (c.chance(1, 3)) {
            refill(c, *w);
            c.note("new data: ", w->describe());
        }
        // changing a constant between two executions
        if (w->nbConst > 0 && c.chance(1, 4)) {
            size_t i = c.below(w->nbConst);
            double v = (double)c.in(-50, 50);
            ms[k].consts[i] = v;
            ps[k]->getConstantHandler().setDataAt(typeid(Data::Constant), i, Data::Constant{(int32_t)v});
            c.note("constant ", i, " of program ", k, " = ", v);
        }
        std::vector<std::vector<double>> before;
        for (auto& s : w->srcs)
            before.push_back(s->values);
        double expected = refRun(*w, ms[k]);
        eng.setProgram(*ps[k]);
        double got = eng.executeProgram(c.chance(1, 4));
        c.note("run of program ", k, " -> ", show(got));
        c.check(sameDouble(got, expected), "program ", k, " returned ", show(got), ", expected ", show(expected));
        if (c.chance(1, 3)) { // no state survives an execution
            double again = eng.executeProgram();
            c.check(sameDouble(again, expected), "second execution of program ", k, " returned ", show(again), ", expected ", show(expected));
        }
        if (ms[k].lines.size() > 1 && expected != 0.0)
            c.nontrivial();
        for (size_t i = 0; i < w->srcs.size(); i++)
            for (size_t a = 0; a < w->srcs[i]->size(); a++) {
                Src& s = *w->srcs[i];
                double v = 0;
                switch (s.elem) {
                case ED: v = *s.dh().getDataAt(typeid(double), a).getSharedPointer<const double>(); break;
                case EI: v = *s.dh().getDataAt(typeid(int), a).getSharedPointer<const int>(); break;
                case EF: v = *s.dh().getDataAt(typeid(float), a).getSharedPointer<const float>(); break;
                default: v = *s.dh().getDataAt(typeid(uint8_t), a).getSharedPointer<const uint8_t>(); break;
                }
                c.check(sameDouble(v, before[i][a]), "execution modified data source ", i);
            }
        c.check(readProg(*w, *ps[k]) == ms[k], "execution modified program ", k);
    }
}

// Engines reading other data sources than those of the environment.
static void otherSources(Ctx& c)
{
    auto w = genWorld(c);
    c.note(w->describe());
    MProg m = genProg(c, *w, 12), m2 = genProg(c, *w, 8);
    auto p = build(*w, m), p2 = build(*w, m2);
    prepare(c, *p);
    c.note("program 0:", describe(*w, m));
    c.note("program 1:", describe(*w, m2));
    // A frozen copy of the sources.
    std::vector<std::unique_ptr<Data::DataHandler>> copies;
    std::vector<std::reference_wrapper<const Data::DataHandler>> refs;
    std::vector<std::vector<double>> frozen;
    for (auto& s : w->srcs) {
        copies.emplace_back(s->dh().clone());
        refs.push_back(*copies.back());
        frozen.push_back(s->values);
    }
    std::vector<SrcModel> fm;
    for (size_t i = 0; i < w->srcs.size(); i++) {
        SrcModel s = modelOf(*w->srcs[i]);
        s.values = &frozen[i];
        fm.push_back(s);
    }
    refill(c, *w);
    double onCopy = refRunOn(*w, m, fm), onLive = refRun(*w, m);
    double onCopy2 = refRunOn(*w, m2, fm), onLive2 = refRun(*w, m2);
    if (!sameDouble(onCopy, onLive)) {
        c.nontrivial();
        c.label("the two sets of sources give different results");
    }
    auto judge = [&](double got, double e, const char* what) {
        c.check(sameDouble(got, e), what, ": got ", show(got), ", expected ", show(e));
    };
    Program::ProgramExecutionEngine a(*p, refs);
    judge(a.executeProgram(), onCopy, "engine on copied sources");
    Program::ProgramExecutionEngine b(*p);
    judge(b.executeProgram(), onLive, "engine on the sources of the environment");
    size_t n = (size_t)c.in(1, 6);
    bool copySrc = false;
    bool second = false;
    for (size_t i = 0; i < n; i++) {
        if (c.chance(1, 2)) {
            copySrc = !copySrc;
            if (copySrc)
                b.setDataSources(refs);
            else
                b.setDataSources(w->env->getDataSources());
        }
        else {
            second = !second;
            b.setProgram(second ? *p2 : *p);
        }
        double e = copySrc ? (second ? onCopy2 : onCopy) : (second ? onLive2 : onLive);
        c.note("program ", second ? 1 : 0, copySrc ? " on the copies" : " on the live sources");
        judge(b.executeProgram(), e, "after a change of program or of sources");
    }
    // sources that are not those of the environment are refused
    if (w->srcs.size() > 1) {
        auto less = refs;
        less.pop_back();
        bool thrown = false;
        try {
            Program::ProgramExecutionEngine x(*p, less);
        }
        catch (std::runtime_error&) {
            thrown = true;
        }
        c.check(thrown, "an engine accepted fewer data sources than the environment has");
    }
    {
        Data::PrimitiveTypeArray<double> foreign(64);
        auto bad = refs;
        bad[c.below(bad.size())] = foreign;
        bool thrown = false;
        try {
            Program::ProgramExecutionEngine x(*p, bad);
        }
        catch (std::runtime_error&) {
            thrown = true;
        }
        c.check(thrown, "an engine accepted a data source unrelated to the environment");
    }
}

// Environments larger than those of the other cases: images, many registers,
// many sources, long programs.
static void large(Ctx& c)
{
    WorldOpts o;
    o.large = c.chance(1, 2) ? (c.thorough ? 1000000 : 200000) : 3000;
    o.maxRegs = c.chance(1, 3) ? 400 : 8;
    o.maxConst = c.chance(1, 3) ? 300 : 4;
    o.maxSrc = c.chance(1, 6) ? 40 : 2;
    o.maxDim = 3;
    o.maxIns = c.chance(1, 4) ? 20 : 6;
    auto w = genWorld(c, o);
    c.note(w->nbRegs, " registers, ", w->nbConst, " constants, ", w->srcs.size(), " sources, largest address space ", w->largestSpace(), ", ", w->ins.size(), " instructions");
    size_t np = (size_t)c.in(1, 3);
    Program::ProgramExecutionEngine eng(*w->env);
    for (size_t i = 0; i < np; i++) {
        MProg m = genProg(c, *w, c.chance(1, 8) ? 300 : 30);
        auto p = build(*w, m);
        prepare(c, *p);
        eng.setProgram(*p);
        double expected = refRun(*w, m), got = eng.executeProgram();
        c.note("program of ", m.lines.size(), " lines -> ", show(expected));
        c.check(sameDouble(got, expected), "program ", describe(*w, m), " returned ", show(got), ", expected ", show(expected));
        c.check(readProg(*w, *p) == m, "execution modified program ", i);
        if (m.lines.size() > 1 && expected != 0.0)
            c.nontrivial();
        for (auto& l : m.lines)
            for (auto& op : l.ops)
                if (op.second >= 65536)
                    c.label("locations over 65535");
    }
}

// Histories of edits of a program; the program equals its model.
static void edits(Ctx& c)
{
    auto w = genWorld(c);
    c.note(w->describe());
    MProg m = genProg(c, *w, 6);
    auto p = build(*w, m);
    c.note("program:", describe(*w, m));
    size_t n = (size_t)c.in(1, 12);
    for (size_t i = 0; i < n; i++) {
        size_t len = m.lines.size();
        switch (c.below(6)) {
        case 0: {
            MLine l = genLine(c, *w);
            writeLine(l, p->addNewLine());
            m.lines.push_back(l);
            c.note("append");
            break;
        }
        case 1: {
            MLine l = genLine(c, *w);
            size_t at = c.below(len + 1);
            writeLine(l, p->addNewLine(at));
            m.lines.insert(m.lines.begin() + (long)at, l);
            c.note("insert at ", at);
            break;
        }
        case 2:
            if (len > 0) {
                size_t at = c.below(len);
                p->removeLine(at);
                m.lines.erase(m.lines.begin() + (long)at);
                c.note("remove ", at);
            }
            break;
        case 3:
            if (len > 0) {
                size_t x = c.below(len), y = c.below(len);
                p->swapLines(x, y);
                std::swap(m.lines[x], m.lines[y]);
                c.note("swap ", x, " ", y);
            }
            break;
        case 4: {
            // a copy is independent of its origin
            auto q = std::make_shared<Program::Program>(*p);
            if (len > 0)
                writeLine(genLine(c, *w), p->getLine(c.below(len)));
            else
                p->addNewLine();
            if (w->nbConst > 0)
                p->getConstantHandler().setDataAt(typeid(Data::Constant), 0, Data::Constant{777});
            p = q;
            c.note("copy");
            break;
        }
        default: {
            uint64_t bad = len + c.below(3);
            int thrown = 0;
            try { p->removeLine(bad); } catch (std::out_of_range&) { thrown++; }
            try { p->swapLines(0, bad); } catch (std::out_of_range&) { thrown++; }
            try { p->addNewLine(bad + 1); } catch (std::out_of_range&) { thrown++; }
            c.eq(thrown, 3, "edits out of range refused");
            c.note("out of range edits");
        }
        }
        c.check(readProg(*w, *p) == m, "the program differs from its model after edit ", i);
        bool id = c.chance(1, 2);
        if (id)
            p->identifyIntrons();
        // Flags of lines are only defined after an identification.
        bool flagged = false;
        for (size_t k = 0; k < m.lines.size(); k++)
            flagged |= p->isIntron(k);
        if (id || !flagged) {
            double e = refRun(*w, m);
            Program::ProgramExecutionEngine eng(*p);
            double g = eng.executeProgram();
            c.check(sameDouble(g, e), "after edit ", i, " the program returned ", show(g), ", expected ", show(e));
            if (m.lines.size() > 2)
                c.nontrivial();
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C01";
    cfg.rule = "Random environments (1-4 data sources of 5 shapes and 4 element types, 0-4 constants, 1-8 registers, 2-8 instructions of a catalogue of 20), random programs, random histories of executions, edits, source and program switches; larger environments (sources of up to 200000 elements, 400 registers, 40 sources, 300 lines); oracle: a reference interpreter sharing no code with the library. Non-trivial: more than one line and a result different from 0 (execute), the two sets of sources give different results (otherSources), more than two lines (edits).";
    cfg.subs = {{"execute", execute, 24000, 600000},
                {"otherSources", otherSources, 16000, 400000},
                {"large", large, 1500, 20000},
                {"edits", edits, 12000, 300000}};
    return pbt::run(argc, argv, cfg);
}
