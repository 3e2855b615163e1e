// C05: whatever the environment, mutations only create executable lines and
// programs within the parameters.
#include "gg.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;

static MLine readLine(const World& w, const Program::Line& l)
{
    MLine m;
    m.ins = l.getInstructionIndex();
    m.dest = l.getDestinationIndex();
    for (size_t k = 0; k < w.env->getMaxNbOperands(); k++)
        m.ops.push_back(l.getOperand(k));
    return m;
}
static std::string lineStr(const World& w, const MLine& l)
{
    MProg p;
    p.lines.push_back(l);
    return describe(w, p);
}
static size_t clog2(size_t n)
{
    size_t b = 0;
    while (((size_t)1 << b) < n)
        b++;
    return b;
}

// Known finding: the sizes of the two indexes are exchanged.
static bool swapped(const World& w)
{
    const LineSize& s = w.env->getLineSize();
    return pbt::known("linesize-exchanged") && s.nbInstructionBits == clog2(w.nbRegs) && s.nbDestinationBits == clog2(w.ins.size());
}

// The environment holds what it was given.
static void environment(Ctx& c)
{
    WorldOpts o;
    o.maxRegs = 12;
    o.maxIns = 14;
    o.maxConst = 6;
    o.maxDim = 7;
    auto w = genWorld(c, o);
    c.note(w->describe());
    const Environment& e = *w->env;
    c.eq(e.getNbRegisters(), w->nbRegs, "registers");
    c.eq(e.getNbConstant(), w->nbConst, "constants");
    c.eq(e.getNbDataSources(), w->nbOperandSources(), "operand data sources");
    c.eq(e.getLargestAddressSpace(), w->largestSpace(), "largest address space");
    c.eq(e.getNbInstructions(), w->ins.size(), "instructions kept");
    size_t ops = 0;
    for (size_t i = 0; i < w->ins.size(); i++) {
        ops = std::max(ops, w->ins[i]->ops.size());
        c.check(&e.getInstructionSet().getInstruction(i) == w->ins[i]->lib.get(), "instruction ", i, " should be ", w->ins[i]->name);
    }
    c.eq(e.getMaxNbOperands(), ops, "maximum number of operands");
    for (size_t i = 0; i < w->nbOperandSources(); i++)
        for (auto& ins : catalogue())
            for (auto& t : ins.ops)
                c.check(e.getFakeDataSources().at(i).get().canHandle(*t.type) == w->provides(i, t), "source ", i, " can", w->provides(i, t) ? "not" : "", " provide ", t.name);
    const LineSize& s = e.getLineSize();
    if (!swapped(*w)) {
        c.eq(s.nbInstructionBits, clog2(w->ins.size()), "bits of the instruction index");
        c.eq(s.nbDestinationBits, clog2(w->nbRegs), "bits of the destination index");
    }
    c.eq(s.nbOperandDataSourceIndexBits, clog2(w->nbOperandSources()), "bits of a data source index");
    c.eq(s.nbOperandLocationBits, clog2(w->largestSpace()), "bits of a location");
    c.eq(s.nbOperandsBits, ops * (s.nbOperandDataSourceIndexBits + s.nbOperandLocationBits), "bits of the operands");
    c.eq(s.totalNbBits, s.nbInstructionBits + s.nbDestinationBits + s.nbOperandsBits, "bits of a line");
    if (w->ins.size() < w->offered.size()) {
        c.label("instructions filtered");
        c.nontrivial();
    }
}

// Random lines are executable, and all the choices are possible.
static void initLine(Ctx& c)
{
    WorldOpts o;
    o.maxSrc = 3;
    o.maxIns = 6;
    auto w = genWorld(c, o);
    c.note(w->describe());
    Mutator::RNG rng(c.below(0));
    Program::Program p(*w->env);
    Program::Line& l = p.addNewLine();
    std::set<uint64_t> ins, dest, loc;
    std::set<std::vector<uint64_t>> srcs; // instruction, operand, source
    size_t choices = std::max({w->ins.size() * w->nbOperandSources(), w->nbRegs, w->largestSpace()});
    bool cover = c.chance(1, 10);
    size_t n = cover ? 40 * choices : 10;
    for (size_t i = 0; i < n; i++) {
        Mutator::LineMutator::initRandomCorrectLine(l, rng);
        MLine m = readLine(*w, l);
        std::string bad = invalidity(*w, m);
        c.check(bad.empty(), "random line cannot be executed: ", bad, " ", lineStr(*w, m));
        ins.insert(m.ins);
        dest.insert(m.dest);
        for (size_t k = 0; k < m.ops.size(); k++) {
            loc.insert(m.ops[k].second);
            if (k < w->ins[m.ins]->ops.size())
                srcs.insert({m.ins, k, m.ops[k].first});
        }
        // and the library executes it
        MProg mp;
        mp.consts.assign(w->nbConst, 0.0);
        mp.lines.push_back(m);
        p.identifyIntrons();
        Program::ProgramExecutionEngine e(p);
        double r = e.executeProgram(), x = refRun(*w, mp);
        c.check(sameDouble(r, x), "random line returned ", show(r), ", expected ", show(x));
    }
    c.nontrivial();
    if (cover) {
        c.label("coverage of the choices measured");
        c.eq(ins.size(), w->ins.size(), "instructions chosen in ", n, " random lines");
        c.eq(dest.size(), w->nbRegs, "destinations chosen in ", n, " random lines");
        c.eq(loc.size(), w->largestSpace(), "locations chosen in ", n, " random lines");
        for (size_t i = 0; i < w->ins.size(); i++)
            for (size_t k = 0; k < w->ins[i]->ops.size(); k++)
                for (size_t s = 0; s < w->nbOperandSources(); s++)
                    if (w->provides(s, w->ins[i]->ops[k]))
                        c.check(srcs.count({i, k, s}), "source ", s, " is never chosen for operand ", k, " of instruction ", w->ins[i]->name, " in ", n, " random lines");
    }
}

enum Part { NOTHING, INSTRUCTION, DESTINATION, SOURCE, LOCATION };
// Which part of the line was altered; fails when it is not a legal alteration.
static Part classify(Ctx& c, const World& w, const MLine& a, const MLine& b)
{
    std::string bad = invalidity(w, b);
    c.check(bad.empty(), "altered line cannot be executed: ", bad, " from ", lineStr(w, a), " to ", lineStr(w, b));
    std::string ctx = " from " + lineStr(w, a) + " to " + lineStr(w, b);
    if (a.ins != b.ins) {
        c.check(a.dest == b.dest, "an alteration changed the instruction and the destination", ctx);
        for (size_t i = 0; i < a.ops.size(); i++) {
            c.check(a.ops[i].second == b.ops[i].second, "an alteration changed the instruction and a location", ctx);
            if (i >= w.ins[b.ins]->ops.size() || w.provides(a.ops[i].first, w.ins[b.ins]->ops[i]))
                c.check(a.ops[i] == b.ops[i], "an alteration of the instruction changed operand ", i, ", valid for the new instruction", ctx);
        }
        return INSTRUCTION;
    }
    size_t changes = 0;
    Part r = NOTHING;
    if (a.dest != b.dest) {
        changes++;
        r = DESTINATION;
    }
    for (size_t i = 0; i < a.ops.size(); i++) {
        if (a.ops[i].first != b.ops[i].first) {
            changes++;
            r = SOURCE;
        }
        if (a.ops[i].second != b.ops[i].second) {
            changes++;
            r = LOCATION;
        }
    }
    c.check(changes <= 1, "an alteration changed ", changes, " parts of a line", ctx);
    return r;
}

static void alterLine(Ctx& c)
{
    WorldOpts o;
    o.maxSrc = 3;
    o.maxIns = 6;
    auto w = genWorld(c, o);
    c.note(w->describe());
    Mutator::RNG rng(c.below(0));
    Program::Program p(*w->env);
    Program::Line& l = p.addNewLine();
    bool walk = c.chance(3, 4);
    MLine start = genLine(c, *w);
    c.note("line", lineStr(*w, start));
    writeLine(start, l);
    size_t n = walk ? 40 : 1500;
    std::map<Part, double> count;
    for (size_t i = 0; i < n; i++) {
        if (!walk)
            writeLine(start, l);
        MLine before = readLine(*w, l);
        Mutator::LineMutator::alterCorrectLine(l, rng);
        count[classify(c, *w, before, readLine(*w, l))]++;
    }
    c.nontrivial();
    if (walk)
        return;
    c.label("distribution measured");
    // The probability of altering a part is its share of the bits of a line.
    size_t bi = clog2(w->ins.size()), bd = clog2(w->nbRegs), bs = clog2(w->nbOperandSources()), bl = clog2(w->largestSpace()), m = start.ops.size();
    if (swapped(*w))
        std::swap(bi, bd);
    double total = (double)(bi + bd + m * (bs + bl));
    // Operands whose source cannot be replaced are left unchanged.
    size_t alterable = 0;
    for (size_t k = 0; k < m; k++) {
        size_t others = 0;
        for (size_t s = 0; s < w->nbOperandSources(); s++)
            if (s != start.ops[k].first && (k >= w->ins[start.ins]->ops.size() || w->provides(s, w->ins[start.ins]->ops[k])))
                others++;
        alterable += others > 0;
    }
    auto expect = [&](Part part, double share, const char* name) {
        double pr = share / total, mean = n * pr, sd = std::sqrt(n * pr * (1 - pr));
        c.check(std::fabs(count[part] - mean) <= 7 * sd + 1e-9, name, " altered ", count[part], " times in ", n, " alterations, expected about ", mean);
    };
    expect(INSTRUCTION, (double)bi, "instruction");
    if (w->nbRegs > 1)
        expect(DESTINATION, (double)bd, "destination");
    expect(LOCATION, (double)(m * bl), "location");
    expect(SOURCE, (double)(alterable * bs), "data source");
}

static Mutator::MutationParameters genParams(Ctx& c)
{
    Mutator::MutationParameters mp;
    mp.prog.maxProgramSize = (size_t)c.in(1, 14);
    mp.prog.pDelete = c.proba();
    mp.prog.pAdd = c.proba();
    mp.prog.pMutate = c.proba();
    mp.prog.pSwap = c.proba();
    mp.prog.pConstantMutation = c.proba();
    mp.prog.minConstValue = (int32_t)c.in(-30, 10);
    mp.prog.maxConstValue = mp.prog.minConstValue + (int32_t)c.in(0, 20);
    return mp;
}

static void checkProgram(Ctx& c, const World& w, const MProg& m, const Mutator::MutationParameters& mp)
{
    for (auto& l : m.lines) {
        std::string bad = invalidity(w, l);
        c.check(bad.empty(), "the program has a line that cannot be executed: ", bad);
    }
    for (double k : m.consts)
        c.check(k >= mp.prog.minConstValue && k <= mp.prog.maxConstValue, "constant ", k, " out of [", mp.prog.minConstValue, ", ", mp.prog.maxConstValue, "]");
}
static void checkRun(Ctx& c, const World& w, const Program::Program& p, const MProg& m)
{
    Program::ProgramExecutionEngine e(p);
    double r = e.executeProgram(), x = refRun(w, m);
    c.check(sameDouble(r, x), "the program returned ", show(r), ", expected ", show(x));
    auto useful = refUseful(w, m);
    for (size_t i = 0; i < useful.size(); i++)
        c.check(p.isIntron(i) == !useful[i], "the intron flag of line ", i, " is wrong after the mutation");
}

static void programs(Ctx& c)
{
    WorldOpts o;
    o.maxSrc = 3;
    o.maxIns = 6;
    auto w = genWorld(c, o);
    c.note(w->describe());
    auto mp = genParams(c);
    c.note("maxProgramSize ", mp.prog.maxProgramSize, " pDelete ", mp.prog.pDelete, " pAdd ", mp.prog.pAdd, " pMutate ", mp.prog.pMutate, " pSwap ", mp.prog.pSwap, " pConst ", mp.prog.pConstantMutation, " in [", mp.prog.minConstValue, ",", mp.prog.maxConstValue, "]");
    Mutator::RNG rng(c.below(0));
    Program::Program p(*w->env);
    if (c.chance(1, 3)) // previous content is erased
        for (int i = 0; i < 3; i++)
            writeLine(genLine(c, *w), p.addNewLine());
    Mutator::ProgramMutator::initRandomProgram(p, mp, rng);
    MProg m = readProg(*w, p);
    c.note("program:", describe(*w, m));
    c.check(m.lines.size() >= 1 && m.lines.size() <= mp.prog.maxProgramSize, "random program of ", m.lines.size(), " lines, at most ", mp.prog.maxProgramSize, " allowed");
    checkProgram(c, *w, m, mp);
    checkRun(c, *w, p, m);
    size_t n = (size_t)c.in(1, 12);
    for (size_t i = 0; i < n; i++) {
        bool any = Mutator::ProgramMutator::mutateProgram(p, mp, rng);
        MProg now = readProg(*w, p);
        c.note("mutated (", any, "):", describe(*w, now));
        c.check(now.lines.size() >= 1, "mutation left a program without line");
        c.check(now.lines.size() <= std::max(m.lines.size(), mp.prog.maxProgramSize), "program of ", now.lines.size(), " lines after a mutation, at most ", mp.prog.maxProgramSize, " allowed");
        checkProgram(c, *w, now, mp);
        checkRun(c, *w, p, now);
        if (!any)
            c.check(now == m, "the mutation reports no change but the program changed");
        bool canDel = m.lines.size() > 1;
        if (mp.prog.pMutate == 1.0 || mp.prog.pSwap == 1.0)
            c.check(any, "no mutation although one was certain");
        if (mp.prog.pDelete == 0 && mp.prog.pAdd == 0)
            c.eq(now.lines.size(), m.lines.size(), "size, without addition nor deletion");
        if (mp.prog.pDelete == 1.0 && mp.prog.pAdd == 0.0 && canDel)
            c.eq(now.lines.size(), m.lines.size() - 1, "size after a certain deletion");
        if (mp.prog.pDelete == 0.0 && mp.prog.pAdd == 1.0 && m.lines.size() < mp.prog.maxProgramSize)
            c.eq(now.lines.size(), m.lines.size() + 1, "size after a certain addition");
        if (mp.prog.pConstantMutation == 0)
            c.check(now.consts == m.consts, "constants changed with a null probability");
        else if (mp.prog.pDelete == 0 && mp.prog.pAdd == 0 && mp.prog.pMutate == 0 && mp.prog.pSwap == 0)
            c.check(now.lines == m.lines, "lines changed with null probabilities");
        size_t diff = 0;
        for (size_t k = 0; k < m.consts.size(); k++)
            diff += m.consts[k] != now.consts[k];
        if (any && !(now == m))
            c.nontrivial();
        m = now;
    }
}

// Environments that make no program possible are refused; the others are not.
static void refusedEnvironments(Ctx& c)
{
    std::vector<std::unique_ptr<Src>> srcs;
    size_t n = c.below(3);
    for (size_t i = 0; i < n; i++)
        srcs.push_back(genSrc(c));
    std::vector<std::reference_wrapper<const Data::DataHandler>> refs;
    std::vector<SrcModel> models;
    for (auto& s : srcs) {
        refs.push_back(((const Src&)*s).dh());
        models.push_back(modelOf(*s));
    }
    size_t regs = c.chance(1, 4) ? 0 : (size_t)c.in(1, 9), consts = c.chance(1, 2) ? 0 : (size_t)c.in(1, 3);
    Instructions::Set set;
    std::vector<const Ins*> offered;
    size_t ni = (size_t)c.in(0, 4);
    std::string text;
    for (size_t i = 0; i < ni; i++) {
        const Ins* x;
        do
            x = &c.pick(catalogue());
        while (x->codegenOnly);
        offered.push_back(x);
        set.add(*x->lib);
        text += x->name + " ";
    }
    std::vector<double> r(regs), k(consts);
    size_t kept = 0;
    for (auto x : offered) {
        bool all = true;
        for (auto& t : x->ops) {
            bool any = t.elem == ED && t.rank == 0 && regs > 0; // the registers
            SrcModel cm{EC, false, false, consts, 1, &k}, rm{ED, false, false, regs, 1, &r};
            any = any || (regs > 0 && modelSpace(rm, t) > 0) || (consts > 0 && modelSpace(cm, t) > 0);
            for (auto& m : models)
                any = any || modelSpace(m, t) > 0;
            all = all && any;
        }
        kept += all;
    }
    bool valid = regs > 0 && kept >= 2 && (!srcs.empty() || consts > 0);
    c.note(regs, " registers, ", consts, " constants, ", n, " sources, instructions ", text, "(", kept, " usable)");
    bool refused = false;
    try {
        Environment e(set, refs, regs, consts);
        c.eq(e.getNbInstructions(), kept, "instructions kept");
    }
    catch (const std::domain_error&) {
        refused = true;
    }
    c.eq(refused, !valid, "environment refused");
    c.label(valid ? "accepted" : "refused");
    c.nontrivial(ni >= 1 && (n > 0 || consts > 0) && regs > 0);
}

// How often mutateProgram does what, each from the same program.
static void rates(Ctx& c)
{
    WorldOpts o;
    o.maxSrc = 2;
    o.maxIns = 5;
    auto w = genWorld(c, o);
    c.note(w->describe());
    size_t len = (size_t)c.in(2, 6);
    MProg m;
    for (size_t i = 0; i < len; i++)
        m.lines.push_back(genLine(c, *w));
    for (size_t k = 0; k < w->nbConst; k++)
        m.consts.push_back((double)c.in(-3, 3));
    auto mp = genParams(c);
    mp.prog.maxProgramSize = len + c.below(3);
    int only = (int)c.below(7); // 5, 6: all of them
    for (double* p : {&mp.prog.pDelete, &mp.prog.pAdd, &mp.prog.pMutate, &mp.prog.pSwap, &mp.prog.pConstantMutation})
        *p = c.pick(std::vector<double>{0.1, 0.25, 0.5, 0.75, 0.03, 0.9});
    double* all[] = {&mp.prog.pDelete, &mp.prog.pAdd, &mp.prog.pMutate, &mp.prog.pSwap, &mp.prog.pConstantMutation};
    if (only < 5)
        for (int i = 0; i < 5; i++)
            if (i != only)
                *all[i] = 0;
    c.note("maxProgramSize ", mp.prog.maxProgramSize, " pDelete ", mp.prog.pDelete, " pAdd ", mp.prog.pAdd, " pMutate ", mp.prog.pMutate, " pSwap ", mp.prog.pSwap, " pConst ", mp.prog.pConstantMutation, " in [", mp.prog.minConstValue, ",", mp.prog.maxConstValue, "]");
    c.note("program:", describe(*w, m));
    Mutator::RNG rng(c.below(0));
    auto p0 = build(*w, m);
    const size_t n = 1500;
    double any = 0, shorter = 0, longer = 0, constant = 0;
    std::vector<double> which(w->nbConst, 0);
    for (size_t i = 0; i < n; i++) {
        Program::Program p(*p0);
        any += Mutator::ProgramMutator::mutateProgram(p, mp, rng);
        MProg now = readProg(*w, p);
        shorter += now.lines.size() < len;
        longer += now.lines.size() > len;
        constant += now.consts != m.consts;
        for (size_t k = 0; k < w->nbConst; k++)
            which[k] += now.consts[k] != m.consts[k];
    }
    auto expect = [&](double got, double pr, const std::string& what) {
        // Chernoff bound: crossed with a probability below 2 exp(-25)
        double q = got / n;
        auto term = [](double x, double y) { return x <= 0 ? 0 : y <= 0 ? INFINITY : x * std::log(x / y); };
        double excess = n * (term(q, pr) + term(1 - q, 1 - pr));
        c.check(excess <= 25, what, " ", got, " times in ", n, " mutations, expected about ", n * pr);
    };
    double del = mp.prog.pDelete, add = mp.prog.pAdd;
    bool room = len < mp.prog.maxProgramSize;
    expect(any, 1 - (1 - del) * (1 - (room ? add : 0)) * (1 - mp.prog.pMutate) * (1 - mp.prog.pSwap) * (1 - (w->nbConst > 0 ? mp.prog.pConstantMutation : 0)), "mutated");
    expect(shorter, del * (1 - add), "shorter");
    expect(longer, room ? (1 - del) * add : 0, "longer");
    // the new value may be the former one
    double range = (double)mp.prog.maxConstValue - mp.prog.minConstValue + 1, sum = 0;
    for (size_t k = 0; k < w->nbConst; k++) {
        bool in = m.consts[k] >= mp.prog.minConstValue && m.consts[k] <= mp.prog.maxConstValue;
        double pr = mp.prog.pConstantMutation / (double)w->nbConst * (in ? 1 - 1 / range : 1);
        expect(which[k], pr, "constant " + std::to_string(k) + " changed");
        sum += pr;
    }
    expect(constant, sum, "constants changed");
    c.nontrivial();
    c.label(only < 5 ? "one kind of mutation" : "all kinds of mutations");
}

// Elementary mutations, one by one.
static void elementary(Ctx& c)
{
    WorldOpts o;
    o.maxSrc = 2;
    o.maxIns = 5;
    auto w = genWorld(c, o);
    c.note(w->describe());
    MProg m = genProg(c, *w, 6);
    c.note("program:", describe(*w, m));
    Mutator::RNG rng(c.below(0));
    auto mp = genParams(c);
    size_t len = m.lines.size();
    int op = (int)c.below(5);
    bool cover = c.chance(1, 8);
    size_t n = cover ? 40 * (len + 1) * (len + 1) : 3;
    std::set<size_t> seen;
    auto p0 = build(*w, m);
    auto pos = [&](const std::vector<MLine>& longer, const std::vector<MLine>& shorter, std::set<size_t>& s) {
        // positions whose removal from longer gives shorter
        bool any = false;
        for (size_t k = 0; k < longer.size(); k++) {
            auto x = longer;
            x.erase(x.begin() + (long)k);
            if (x == shorter) {
                any = true;
                s.insert(k);
            }
        }
        return any;
    };
    for (size_t i = 0; i < n; i++) {
        Program::Program p(*p0);
        bool r = true;
        switch (op) {
        case 0:
            r = Mutator::ProgramMutator::deleteRandomLine(p, rng);
            break;
        case 1:
            Mutator::ProgramMutator::insertRandomLine(p, rng);
            break;
        case 2:
            r = Mutator::ProgramMutator::swapRandomLines(p, rng);
            break;
        case 3:
            r = Mutator::ProgramMutator::alterRandomLine(p, rng);
            break;
        default:
            if (w->nbConst == 0)
                return;
            Mutator::ProgramMutator::alterRandomConstant(p, mp, rng);
        }
        MProg now = readProg(*w, p);
        for (auto& l : now.lines) {
            std::string bad = invalidity(*w, l);
            c.check(bad.empty(), "line that cannot be executed: ", bad);
        }
        if (op != 4)
            c.check(now.consts == m.consts, "constants changed");
        if (!r)
            c.check(now == m, "the mutation reports no change but the program changed");
        switch (op) {
        case 0:
            c.eq(r, len > 1, "deletion performed");
            if (r)
                c.check(now.lines.size() + 1 == len && pos(m.lines, now.lines, seen), "the deletion is not that of one line");
            break;
        case 1:
            c.check(now.lines.size() == len + 1 && pos(now.lines, m.lines, seen), "the insertion is not that of one line");
            break;
        case 2: {
            c.eq(r, len > 1, "swap performed");
            if (!r)
                break;
            bool ok = false;
            for (size_t a = 0; a < len; a++)
                for (size_t b = a + 1; b < len; b++) {
                    auto x = m.lines;
                    std::swap(x[a], x[b]);
                    if (x == now.lines) {
                        ok = true;
                        seen.insert(a * len + b);
                    }
                }
            c.check(ok, "the swap is not that of two lines");
            break;
        }
        case 3: {
            c.eq(r, len > 0, "alteration performed");
            c.eq(now.lines.size(), len, "size after an alteration");
            size_t d = 0;
            for (size_t k = 0; k < len; k++)
                if (!(now.lines[k] == m.lines[k])) {
                    classify(c, *w, m.lines[k], now.lines[k]);
                    d++;
                    seen.insert(k);
                }
            c.check(d <= 1, "more than one line altered");
            break;
        }
        default: {
            c.check(now.lines == m.lines, "a change of constant changed the lines");
            size_t d = 0;
            for (size_t k = 0; k < m.consts.size(); k++)
                if (now.consts[k] != m.consts[k]) {
                    d++;
                    seen.insert(k);
                    c.check(now.consts[k] >= mp.prog.minConstValue && now.consts[k] <= mp.prog.maxConstValue, "constant out of its range");
                }
            c.check(d <= 1, "more than one constant altered");
        }
        }
    }
    static const char* names[] = {"deletion", "insertion", "swap", "alteration", "constant"};
    c.label(names[op]);
    c.nontrivial(len > 1);
    if (cover) {
        size_t want = op == 0 ? (len > 1 ? len : 0) : op == 1 ? len + 1 : op == 2 ? len * (len - (len > 0)) / 2 : 0;
        c.check(seen.size() >= want, names[op], ": only ", seen.size(), " positions out of ", want, " ever chosen in ", n, " mutations");
        c.label("coverage of the positions measured");
    }
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C05";
    cfg.rule = "Random environments (types and sizes of sources, constants, registers, instructions some of which must be filtered), random lines, programs and mutation parameters. Oracles: model of what each source provides, reference interpreter, exact description of each elementary mutation, coverage and distribution of the random choices (tolerance of 7 standard deviations). Non-trivial: instructions filtered (environment), any line (initLine, alterLine), a program really mutated (programs), at least two lines (elementary).";
    cfg.subs = {{"environment", environment, 6000, 100000}, {"initLine", initLine, 2500, 60000}, {"alterLine", alterLine, 3000, 80000}, {"programs", programs, 8000, 200000}, {"elementary", elementary, 8000, 120000}, {"refusedEnvironments", refusedEnvironments, 20000, 300000}, {"rates", rates, 600, 20000}};
    cfg.probes = {{"linesize-exchanged", "Environment::computeLineSize gives nbInstructionBits the size of a register index and nbDestinationBits that of an instruction index: with 8 registers and 2 instructions a line is altered with wrong probabilities, and with one register its instruction is never altered", [] {
                       Instructions::AddPrimitiveType<double> a, b;
                       Instructions::Set set;
                       set.add(a);
                       set.add(b);
                       Data::PrimitiveTypeArray<double> d(4);
                       std::vector<std::reference_wrapper<const Data::DataHandler>> v{d};
                       Environment e(set, v, 8);
                       return e.getLineSize().nbInstructionBits == 3 && e.getLineSize().nbDestinationBits == 1;
                   }}};
    return pbt::run(argc, argv, cfg);
}
