// C24: engines run exactly what fits them, and report or skip bad lines.
#include "gg.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;

#if defined(__SANITIZE_ADDRESS__)
static const uint64_t SCALE = 8;
#else
static const uint64_t SCALE = 1;
#endif

typedef std::vector<std::reference_wrapper<const Data::DataHandler>> Refs;

// Data sources that an engine may read, and their content.
struct Sources {
    std::string name;
    Refs refs;
    std::vector<SrcModel> models;
    std::vector<std::vector<double>> frozen;
    std::vector<std::unique_ptr<Data::DataHandler>> own;
    bool fits = true;
    // Fewer sources replace the first ones only: no statement is made on it.
    bool constructionOnly = false;
};

struct Prog {
    std::string name;
    const World* w;
    MProg m;
    std::shared_ptr<Program::Program> p;
    bool fits;
};

// A world with data sources of the same identifiers, but other instructions,
// constants and contents of the sources.
static std::unique_ptr<World> sibling(Ctx& c, const World& w, size_t nbRegs, size_t nbConst, size_t nbSrc)
{
    auto r = std::make_unique<World>();
    for (size_t i = 0; i < nbSrc; i++)
        r->srcs.push_back(w.srcs[i]->clone());
    r->nbRegs = nbRegs;
    r->nbConst = nbConst;
    std::vector<const Ins*> simple;
    for (auto& i : catalogue()) {
        bool all = !i.codegenOnly;
        for (auto& t : i.ops)
            all &= t.elem == ED && t.rank == 0;
        if (all)
            simple.push_back(&i);
    }
    size_t n = (size_t)c.in(2, 4);
    for (size_t i = 0; i < n; i++)
        r->offered.push_back(c.pick(simple));
    r->ins = r->offered;
    for (auto i : r->offered)
        r->set.add(*i->lib);
    r->env = std::make_unique<Environment>(r->set, r->refs(), nbRegs, nbConst);
    return r;
}

static std::unique_ptr<World> genSources(Ctx& c)
{
    WorldOpts o;
    o.maxSrc = 3;
    return genWorld(c, o);
}

// Histories of accepted and refused changes of program and of sources.
static void changes(Ctx& c)
{
    auto w = genSources(c);
    c.note(w->describe());
    std::vector<std::unique_ptr<World>> worlds;
    std::vector<Prog> progs;
    auto addProg = [&](const World& pw, bool fits, const std::string& name) {
        Prog p{name, &pw, genProg(c, pw, 8), nullptr, fits};
        p.p = build(pw, p.m);
        if (c.chance(1, 2))
            p.p->identifyIntrons();
        c.note("program ", progs.size(), " (", name, "):", describe(pw, p.m));
        progs.push_back(std::move(p));
    };
    addProg(*w, true, "environment of the engine");
    addProg(*w, true, "environment of the engine");
    // same sources, other instructions and constants
    worlds.push_back(sibling(c, *w, w->nbRegs, w->nbConst > 0 ? (size_t)c.in(1, 4) : 0, w->srcs.size()));
    addProg(*worlds.back(), true, "same sources, other instructions");
    // other sources
    auto other = std::make_unique<World>();
    for (auto& s : w->srcs)
        other->srcs.push_back(makeSrc(s->elem, s->shape, s->w, s->h));
    other->nbRegs = w->nbRegs;
    other->nbConst = w->nbConst;
    other->offered = w->offered;
    other->ins = w->ins;
    for (auto i : other->offered)
        other->set.add(*i->lib);
    other->env = std::make_unique<Environment>(other->set, other->refs(), other->nbRegs, other->nbConst);
    worlds.push_back(std::move(other));
    addProg(*worlds.back(), false, "other sources");
    // constants or not
    worlds.push_back(sibling(c, *w, w->nbRegs, w->nbConst > 0 ? 0 : 2, w->srcs.size()));
    addProg(*worlds.back(), false, "same sources, with constants instead of without or conversely");
    if (w->srcs.size() > 1) {
        worlds.push_back(sibling(c, *w, w->nbRegs, w->nbConst, w->srcs.size() - 1));
        addProg(*worlds.back(), false, "a source less");
    }

    std::vector<Sources> lists;
    {
        Sources live;
        live.name = "sources of the environment";
        live.refs = w->refs();
        for (auto& s : w->srcs)
            live.models.push_back(modelOf(*s));
        lists.push_back(std::move(live));
    }
    size_t copies = (size_t)c.in(1, 2);
    for (size_t k = 0; k < copies; k++) {
        Sources l;
        l.name = "copies";
        for (auto& s : w->srcs) {
            l.own.emplace_back(s->dh().clone());
            l.refs.push_back(*l.own.back());
            l.frozen.push_back(s->values);
        }
        for (size_t i = 0; i < w->srcs.size(); i++) {
            SrcModel m = modelOf(*w->srcs[i]);
            m.values = nullptr;
            l.models.push_back(m);
        }
        lists.push_back(std::move(l));
        refill(c, *w);
    }
    c.note("the copies were made before: ", w->describe());
    size_t valid = lists.size();
    static Data::PrimitiveTypeArray<double> foreign(64);
    auto addBad = [&](const std::string& name, const Refs& r) {
        Sources l;
        l.name = name;
        l.refs = r;
        l.fits = false;
        lists.push_back(std::move(l));
    };
    for (size_t k = 0; k < valid; k++) {
        Refs r = lists[k].refs;
        r.pop_back();
        addBad("a source less", r);
        lists.back().constructionOnly = true;
        r = lists[k].refs;
        r.push_back(r.front());
        addBad("a source more", r);
        r = lists[k].refs;
        r[c.below(r.size())] = foreign;
        addBad("a foreign source", r);
        if (w->srcs.size() > 1) {
            r = lists[k].refs;
            std::swap(r.front(), r.back());
            addBad("exchanged sources", r);
        }
    }
    for (auto& l : lists)
        for (size_t i = 0; i < l.frozen.size(); i++)
            l.models[i].values = &l.frozen[i];

    // Construction
    size_t cur = 0, curList = 0;
    std::unique_ptr<Program::ProgramExecutionEngine> eng;
    switch (c.below(3)) {
    case 0:
        eng = std::make_unique<Program::ProgramExecutionEngine>(*w->env);
        eng->setProgram(*progs[0].p);
        break;
    case 1:
        eng = std::make_unique<Program::ProgramExecutionEngine>(*progs[0].p);
        break;
    default:
        curList = c.below(valid);
        eng = std::make_unique<Program::ProgramExecutionEngine>(*progs[0].p, lists[curList].refs);
        break;
    }
    for (auto& l : lists)
        if (!l.fits) {
            bool thrown = false;
            try {
                Program::ProgramExecutionEngine x(*progs[0].p, l.refs);
            }
            catch (const std::runtime_error&) {
                thrown = true;
            }
            c.check(thrown, "an engine was built on ", l.name);
        }
    auto verify = [&](const char* when) {
        double e = refRunOn(*progs[cur].w, progs[cur].m, lists[curList].models);
        double g = eng->executeProgram(c.chance(1, 4));
        c.check(sameDouble(g, e), when, ", program ", cur, " on ", lists[curList].name, " gives ", show(g), ", expected ", show(e));
        auto& ds = eng->getDataSources();
        c.eq(ds.size(), lists[curList].refs.size(), when, ": number of data sources");
        for (size_t i = 0; i < ds.size(); i++)
            c.check(&ds[i].get() == &lists[curList].refs[i].get(), when, ": data source ", i, " of the engine is not the one given");
    };
    verify("after the construction");
    size_t n = (size_t)c.in(1, 10);
    int refused = 0;
    for (size_t k = 0; k < n; k++) {
        bool thrown = false, fits;
        if (c.chance(1, 2)) {
            size_t i = c.below(progs.size());
            fits = progs[i].fits;
            c.note("setProgram ", i);
            try {
                eng->setProgram(*progs[i].p);
            }
            catch (const std::runtime_error&) {
                thrown = true;
            }
            if (fits)
                cur = i;
        }
        else {
            size_t i = c.chance(1, 2) ? c.below(valid) : c.below(lists.size());
            if (lists[i].constructionOnly)
                continue;
            fits = lists[i].fits;
            c.note("setDataSources ", lists[i].name);
            try {
                eng->setDataSources(lists[i].refs);
            }
            catch (const std::runtime_error&) {
                thrown = true;
            }
            if (fits)
                curList = i;
        }
        c.check(thrown != fits, fits ? "what fits is refused" : "what does not fit is accepted");
        refused += thrown;
        if (c.chance(1, 4)) {
            refill(c, *w);
            c.note("new data: ", w->describe());
        }
        if (c.chance(2, 3))
            verify(thrown ? "after a refusal" : "after a change");
    }
    verify("at the end");
    c.label("refusals", (uint64_t)refused);
    c.nontrivial(refused > 0 && n >= 2);
}

// ------------------------------------------------------------- bad lines ---
// First problem of a line: 0 none, 1 a missing element, 2 a type.
static int problem(const World& w, const MLine& l)
{
    if (l.ins >= w.ins.size())
        return 1;
    const Ins& ins = *w.ins[l.ins];
    for (size_t i = 0; i < ins.ops.size(); i++) {
        if (l.ops[i].first >= w.nbOperandSources())
            return 1;
        if (!w.provides(l.ops[i].first, ins.ops[i]))
            return 2;
    }
    return l.dest >= w.nbRegs ? 1 : 0;
}

static void badLines(Ctx& c)
{
    auto w = genWorld(c);
    MProg m = genProg(c, *w, 10), good = genProg(c, *w, 6);
    auto p = build(*w, m), q = build(*w, good);
    size_t bad = m.lines.empty() ? 0 : (size_t)c.in(0, (int64_t)std::min<size_t>(3, m.lines.size()));
    for (size_t k = 0; k < bad; k++) {
        size_t at = c.below(m.lines.size());
        MLine& l = m.lines[at];
        auto& line = p->getLine(at);
        uint64_t over = c.chance(1, 3) ? c.below(0) : c.below(4);
        auto beyond = [&](uint64_t size) { return over > UINT64_MAX - size ? over : size + over; };
        switch (c.below(4)) {
        case 0:
            l.ins = beyond(w->ins.size());
            c.check(!line.setInstructionIndex(l.ins), "a missing instruction is accepted");
            c.check(line.setInstructionIndex(l.ins, false), "result of an unchecked write");
            break;
        case 1:
            l.dest = beyond(w->nbRegs);
            c.check(!line.setDestinationIndex(l.dest), "a missing register is accepted");
            c.check(line.setDestinationIndex(l.dest, false), "result of an unchecked write");
            break;
        case 2: {
            size_t i = c.below(l.ops.size());
            l.ops[i].first = beyond(w->nbOperandSources());
            c.check(!line.setOperand(i, l.ops[i].first, l.ops[i].second), "a missing source is accepted");
            c.check(line.setOperand(i, l.ops[i].first, l.ops[i].second, false), "result of an unchecked write");
            break;
        }
        default: {
            // any source, which may not have the type, and any location
            size_t i = c.below(l.ops.size());
            l.ops[i].first = c.below(w->nbOperandSources());
            l.ops[i].second = over;
            line.setOperand(i, l.ops[i].first, l.ops[i].second, false);
        }
        }
    }
    c.check(readProg(*w, *p) == m, "the lines are not those written");
    // instructions of the program, for a readable text
    MProg kept;
    kept.consts = m.consts;
    int first = 0;
    size_t nbBad = 0;
    for (auto& l : m.lines) {
        int b = problem(*w, l);
        if (b == 0)
            kept.lines.push_back(l);
        else {
            nbBad++;
            c.label(b == 1 ? "missing element" : "type not provided");
            if (first == 0)
                first = b;
        }
    }
    c.note(w->describe());
    c.note("good lines:", describe(*w, kept), "\n", nbBad, " bad lines of ", m.lines.size());
    double e = refRun(*w, kept);
    Program::ProgramExecutionEngine eng(*w->env);
    size_t n = (size_t)c.in(1, 5);
    for (size_t k = 0; k < n; k++) {
        switch (c.below(3)) {
        case 0: {
            eng.setProgram(*p);
            double g = eng.executeProgram(true);
            c.check(sameDouble(g, e), "ignoring exceptions: got ", show(g), ", expected ", show(e));
            break;
        }
        case 1: {
            eng.setProgram(*p);
            int got = 0;
            double g = 0;
            try {
                g = eng.executeProgram();
            }
            catch (const std::out_of_range&) {
                got = 1;
            }
            catch (const std::logic_error&) {
                got = 2;
            }
            c.eq(got, first, "exception of the first bad line (0 none, 1 out_of_range, 2 another logic_error)");
            if (first == 0)
                c.check(sameDouble(g, e), "got ", show(g), ", expected ", show(e));
            break;
        }
        default: {
            eng.setProgram(*q);
            double g = eng.executeProgram(c.chance(1, 2));
            double e2 = refRun(*w, good);
            c.check(sameDouble(g, e2), "good program after others: got ", show(g), ", expected ", show(e2));
        }
        }
    }
    c.nontrivial(nbBad > 0 && kept.lines.size() > 0 && e != 0.0);
}

// ------------------------------------------------------------ line by line -
template <class T> static void readAs(const Data::UntypedSharedPtr& p, const OpType& t, std::vector<double>& r)
{
    auto val = [](const T& v) {
        if constexpr (std::is_same_v<T, Data::Constant>)
            return (double)v.value;
        else
            return (double)v;
    };
    if (t.rank == 0)
        r.push_back(val(*p.getSharedPointer<const T>()));
    else {
        auto a = p.getSharedPointer<const T[]>();
        int n = t.a * (t.rank == 2 ? t.b : 1);
        for (int i = 0; i < n; i++)
            r.push_back(val(a.get()[i]));
    }
}
static std::vector<double> read(const Data::UntypedSharedPtr& p, const OpType& t)
{
    std::vector<double> r;
    switch (t.elem) {
    case ED: readAs<double>(p, t, r); break;
    case EI: readAs<int>(p, t, r); break;
    case EF: readAs<float>(p, t, r); break;
    case EU: readAs<uint8_t>(p, t, r); break;
    case EC: readAs<Data::Constant>(p, t, r); break;
    }
    return r;
}

static void stepping(Ctx& c)
{
    auto w = genWorld(c);
    c.note(w->describe());
    size_t np = (size_t)c.in(1, 3);
    Program::ProgramExecutionEngine eng(*w->env);
    for (size_t k = 0; k < np; k++) {
        MProg m = genProg(c, *w, 10);
        auto p = build(*w, m);
        std::vector<bool> run(m.lines.size(), true);
        if (c.chance(1, 2)) {
            p->identifyIntrons();
            run = refUseful(*w, m);
        }
        c.note("program ", k, ":", describe(*w, m));
        size_t times = (size_t)c.in(1, 3);
        for (size_t t = 0; t < times; t++) {
        eng.setProgram(*p);
        // a part of the lines may not be run at all
        size_t stopAt = c.chance(1, 3) ? c.below(m.lines.size() + 1) : SIZE_MAX;
        std::vector<double> regs(w->nbRegs, 0.0);
        bool more = !m.lines.empty();
        size_t pos = 0;
        if (more && !run[0])
            more = eng.next();
        size_t done = 0;
        for (; more && done < stopAt; done++) {
            while (pos < m.lines.size() && !run[pos])
                pos++;
            c.check(pos < m.lines.size(), "more lines are visited than there are");
            const MLine& l = m.lines[pos];
            const Ins& ins = *w->ins[l.ins];
            c.check(&eng.getCurrentLine() == &p->getLine(pos), "current line is not line ", pos);
            c.check(&eng.getCurrentInstruction() == &w->env->getInstructionSet().getInstruction(l.ins), "current instruction at line ", pos);
            std::vector<Data::UntypedSharedPtr> ops;
            eng.fetchCurrentOperands(ops);
            c.eq(ops.size(), ins.ops.size(), "number of operands at line ", pos);
            std::vector<std::vector<double>> args;
            for (size_t i = 0; i < ops.size(); i++) {
                SrcModel s = w->operandSource(l.ops[i].first, regs, m.consts);
                size_t space = modelSpace(s, ins.ops[i]);
                c.eq(eng.getOperandLocation(i), l.ops[i].second % space, "location of operand ", i, " at line ", pos);
                std::vector<double> want;
                for (auto a : modelAddresses(s, ins.ops[i], l.ops[i].second % space))
                    want.push_back(s.values->at(a));
                auto got = read(ops[i], ins.ops[i]);
                for (size_t j = 0; j < want.size(); j++)
                    c.check(sameDouble(got.at(j), want[j]), "element ", j, " of operand ", i, " at line ", pos, " is ", show(got.at(j)), ", expected ", show(want[j]));
                args.push_back(want);
            }
            regs.at(l.dest) = ins.ref(args);
            eng.executeCurrentLine();
            more = eng.next();
            pos++;
        }
        if (stopAt == SIZE_MAX) {
            size_t left = 0;
            for (; pos < m.lines.size(); pos++)
                left += run[pos];
            c.eq(left, 0u, "lines never visited");
            c.check(!eng.next(), "a line after the last one");
            bool thrown = false;
            try {
                eng.getCurrentLine();
            }
            catch (const std::out_of_range&) {
                thrown = true;
            }
            c.check(thrown, "a current line after the last one");
        }
        else
            c.label("partial");
        if (c.chance(1, 2)) {
            double g = eng.executeProgram(), e = refRun(*w, m);
            c.check(sameDouble(g, e), "whole execution after steps: got ", show(g), ", expected ", show(e));
        }
        if (done >= 2)
            c.nontrivial();
        c.label("lines", done);
        }
    }
}

// ----------------------------------------------------------------- setters -
static void setters(Ctx& c)
{
    auto w = genWorld(c);
    size_t nbOps = w->env->getMaxNbOperands(), space = w->env->getLargestAddressSpace(), nbSrc = w->nbOperandSources();
    c.note(w->ins.size(), " instructions, ", w->nbRegs, " registers, ", nbSrc, " operand sources, ", nbOps, " operands, space ", space);
    Program::Program p(*w->env);
    auto& l = p.addNewLine();
    MLine m;
    m.ops.resize(nbOps);
    size_t n = (size_t)c.in(1, 14), accepted = 0, refused = 0;
    std::vector<std::pair<MLine, std::unique_ptr<Program::Line>>> copies;
    auto near = [&](uint64_t size) { return c.chance(1, 10) ? c.below(0) : c.below(size + 3); };
    for (size_t k = 0; k < n; k++) {
        bool check = !c.chance(1, 5), defaulted = check && c.chance(1, 2);
        bool ok = true, got = true;
        switch (c.below(4)) {
        case 0: {
            uint64_t v = near(w->ins.size());
            ok = !check || v < w->ins.size();
            got = defaulted ? l.setInstructionIndex(v) : l.setInstructionIndex(v, check);
            if (ok)
                m.ins = v;
            c.note("instruction ", v, check ? "" : " unchecked");
            break;
        }
        case 1: {
            uint64_t v = near(w->nbRegs);
            ok = !check || v < w->nbRegs;
            got = defaulted ? l.setDestinationIndex(v) : l.setDestinationIndex(v, check);
            if (ok)
                m.dest = v;
            c.note("destination ", v, check ? "" : " unchecked");
            break;
        }
        case 2: {
            uint64_t i = c.chance(1, 5) ? near(nbOps) : c.below(nbOps), s = near(nbSrc), a = near(space);
            c.note("operand ", i, " source ", s, " location ", a, check ? "" : " unchecked");
            bool thrown = false;
            try {
                got = defaulted ? l.setOperand(i, s, a) : l.setOperand(i, s, a, check);
            }
            catch (const std::range_error&) {
                thrown = true;
            }
            c.check(thrown == (i >= nbOps), "an operand is ", thrown ? "refused" : "accepted");
            if (thrown)
                break;
            ok = !check || (s < nbSrc && a < space);
            if (ok)
                m.ops[i] = {s, a};
            break;
        }
        default:
            copies.emplace_back(m, std::make_unique<Program::Line>(l));
        }
        c.check(ok == got, "a write is ", got ? "accepted" : "refused");
        (ok ? accepted : refused)++;
        auto same = [&](const MLine& x, const Program::Line& y) {
            bool r = y.getInstructionIndex() == x.ins && y.getDestinationIndex() == x.dest;
            for (size_t i = 0; i < nbOps; i++)
                r = r && y.getOperand(i) == std::pair<uint64_t, uint64_t>(x.ops[i]);
            return r;
        };
        c.check(same(m, l), "the line is not what was written");
        for (auto& x : copies) {
            c.check(same(x.first, *x.second), "a copy changed");
            c.check((*x.second == l) == (x.first == m), "equality with a copy");
            c.check((l != *x.second) == !(x.first == m), "inequality with a copy");
        }
    }
    bool thrown = false;
    try {
        l.getOperand(nbOps + c.below(3));
    }
    catch (const std::range_error&) {
        thrown = true;
    }
    c.check(thrown, "a missing operand can be read");
    c.nontrivial(accepted > 0 && refused > 0);
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C24";
    cfg.rule = "changes: at least two changes, one of them refused; badLines: a bad line, a good one, and a result different from 0; stepping: two lines are run; setters: a write accepted and a write refused";
    cfg.assumptions = {
        "the environments of the programs given to an engine have the same number of registers",
        "instructions do not throw",
    };
    cfg.subs = {
        {"changes", changes, 16000 / SCALE, 400000 / SCALE},
        {"badLines", badLines, 30000 / SCALE, 400000 / SCALE},
        {"stepping", stepping, 20000 / SCALE, 300000 / SCALE},
        {"setters", setters, 15000 / SCALE, 300000 / SCALE},
    };
    return pbt::run(argc, argv, cfg);
}
