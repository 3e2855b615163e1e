// Uses of all the parts of the library, each with its own objects. Each one
// returns a text of what it observed, which depends on the choices only.
#ifndef SCEN_H
#define SCEN_H
#include "la.h"
#include <algorithm>
#include <fstream>
#include <thread>
#include <tpg/instrumented/executionStats.h>
#include <unistd.h>

namespace scen {
using pbt::Ctx;
using namespace gg;

// Names of files that no other process nor thread uses
inline std::string unique()
{
    std::ostringstream o;
    o << "s" << getpid() << "_" << std::this_thread::get_id();
    return o.str();
}
inline std::string undated(const std::string& t)
{
    std::istringstream i(t);
    std::string l, r;
    while (std::getline(i, l))
        if (l.find("On the ") == std::string::npos && l.find("/nonexistent") == std::string::npos)
            r += l + "\n";
    return r;
}

// An exception of the user's code.
struct Stop : std::runtime_error {
    Stop() : std::runtime_error("stop")
    {
    }
};

inline std::string slurp(const std::string& f)
{
    std::ifstream i(f, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
}
inline void spit(const std::string& f, const std::string& t)
{
    std::ofstream o(f, std::ios::binary);
    o << t;
}
inline std::shared_ptr<TPG::TPGGraph> newGraph(Ctx& c, const World& w)
{
    if (c.chance(1, 3))
        return TPG::TPGInstrumentedFactory().createTPGGraph(*w.env);
    return TPG::TPGFactory().createTPGGraph(*w.env);
}

// ------------------------------------------------------------------ graphs ---
inline std::string editions(Ctx& c)
{
    std::ostringstream out;
    out.precision(17);
    WorldOpts o;
    o.maxSrc = 2;
    o.maxIns = 4;
    auto w = genWorld(c, o);
    auto g = newGraph(c, *w);
    auto other = newGraph(c, *w);
    const TPG::TPGVertex& fTeam = other->addNewTeam();
    const TPG::TPGVertex& fAction = other->addNewAction(1);
    const TPG::TPGEdge& fEdge = other->addNewEdge(fTeam, fAction, build(*w, genProg(c, *w, 3)));
    auto vertex = [&]() { return c.pick(g->getVertices()); };
    auto edge = [&]() { return std::next(g->getEdges().begin(), (long)c.below(g->getEdges().size()))->get(); };
    size_t n = (size_t)c.in(1, c.thorough ? 40 : 20), done = 0, refused = 0;
    g->addNewTeam();
    g->addNewAction(0);
    std::shared_ptr<Program::Program> shared = build(*w, genProg(c, *w, 3));
    std::string text;
    for (size_t i = 0; i < n; i++) {
        int op = (int)c.below(17);
        if (g->getNbVertices() == 0)
            op = (int)c.below(2);
        if (op >= 6 && op <= 9 && g->getEdges().empty())
            op = 2;
        text += std::to_string(op) + " ";
        try {
            switch (op) {
            case 0:
                g->addNewTeam();
                break;
            case 1:
                g->addNewAction(c.below(4));
                break;
            case 2:
            case 3:
            case 4: { // refused from an action
                auto s = vertex(), d = vertex();
                g->addNewEdge(*s, *d, c.chance(1, 2) ? shared : build(*w, genProg(c, *w, 3)));
                break;
            }
            case 5:
                g->removeVertex(*vertex());
                break;
            case 6:
                g->removeEdge(*edge());
                break;
            case 7:
                g->cloneEdge(*edge());
                break;
            case 8: {
                auto e = edge();
                g->setEdgeDestination(*e, *vertex());
                break;
            }
            case 9: {
                auto e = edge();
                g->setEdgeSource(*e, *vertex());
                break;
            }
            case 10:
                g->cloneVertex(*vertex());
                break;
            case 11: {
                auto h = std::make_shared<TPG::TPGGraph>(std::move(*g));
                g = h;
                break;
            }
            case 12: {
                auto h = newGraph(c, *w);
                h->addNewEdge(h->addNewTeam(), h->addNewAction(1), shared);
                *h = std::move(*g);
                g = h;
                break;
            }
            case 13:
                if (c.chance(1, 4))
                    g->clear();
                break;
            case 14:
                g->addNewEdge(c.chance(1, 2) ? *vertex() : fTeam, fAction, build(*w, genProg(c, *w, 3)));
                break;
            case 15:
                switch (c.below(4)) {
                case 0:
                    g->removeEdge(fEdge);
                    break;
                case 1:
                    g->cloneEdge(fEdge);
                    break;
                case 2:
                    g->cloneVertex(fTeam);
                    break;
                default:
                    g->removeVertex(fTeam);
                }
                break;
            default:
                g->clearProgramIntrons();
            }
            done++;
        }
        catch (const std::exception&) {
            refused++;
            text += "(refused) ";
        }
    }
    out << describe(*w, *g) << describe(*w, *other) << text << graphProblem(*g);
    c.note(w->describe(), "\noperations ", text);
    c.label("refused operations", refused);
    c.nontrivial(done > 3 && refused > 0);
    return out.str();
}

inline std::string executions(Ctx& c)
{
    std::ostringstream out;
    out.precision(17);
    auto w = genWorld(c);
    bool instrumented = c.chance(1, 2);
    TPG::TPGInstrumentedFactory fi;
    TPG::TPGFactory fp;
    const TPG::TPGFactory& f = instrumented ? (const TPG::TPGFactory&)fi : fp;
    auto g = f.createTPGGraph(*w->env);
    genGraph(c, *w, *g, GraphOpts());
    c.note(w->describe(), "\n", describe(*w, *g));
    Archive archive((size_t)c.in(1, 12), c.chance(1, 2) ? 1.0 : 0.5, c.below(1000));
    auto e = f.createTPGExecutionEngine(*w->env, c.chance(2, 3) ? &archive : nullptr);
    size_t n = (size_t)c.in(1, 15), runs = 0, changes = 0;
    TPG::ExecutionStats stats;
    TPG::PolicyStats ps;
    ps.setEnvironment(*w->env);
    for (size_t i = 0; i < n; i++) {
        auto roots = g->getRootVertices();
        if (roots.empty())
            break;
        auto root = c.pick(roots);
        switch (c.below(8)) {
        case 0:
        case 1:
        case 2:
            for (auto v : e->executeFromRoot(*root)) {
                auto a = dynamic_cast<const TPG::TPGAction*>(v);
                out << (a ? "action " + std::to_string(a->getActionID()) : std::to_string(v->getOutgoingEdges().size())) << " ";
            }
            runs++;
            break;
        case 3:
        case 4:
            refill(c, *w);
            changes++;
            break;
        case 5:
            ps.analyzePolicy(root);
            out << ps.maxPolicyDepth << " " << ps.nbLinesPerProgram.size() << " " << ps.nbDistinctTeams << ";";
            if (c.chance(1, 2))
                ps.clear();
            break;
        case 6:
            if (auto ei = dynamic_cast<TPG::TPGExecutionEngineInstrumented*>(e.get())) {
                if (!ei->getTraceHistory().empty() && c.chance(2, 3)) {
                    stats.analyzeExecution(*ei, g.get());
                    out << stats.getAvgEvaluatedTeams() << " " << stats.getAvgExecutedLines() << ";";
                    if (c.chance(1, 2)) {
                        std::string file = pbt::scratchDir() + "/c27_" + unique() + ".json";
                        try {
                            stats.writeStatsToJson(c.chance(1, 5) ? "/nonexistent/x.json" : file.c_str());
                        }
                        catch (const std::exception&) {
                            c.label("refused file");
                        }
                        out << slurp(file);
                        unlink(file.c_str());
                    }
                }
                else
                    ei->clearTraceHistory();
            }
            break;
        default:
            if (instrumented) {
                if (c.chance(1, 3)) {
                    // the history refers to what is removed
                    if (auto ei = dynamic_cast<TPG::TPGExecutionEngineInstrumented*>(e.get()))
                        ei->clearTraceHistory();
                    fi.clearUnusedTPGGraphElements(*g);
                }
                else
                    fi.resetTPGGraphCounters(*g);
            }
            else if (c.chance(1, 2))
                archive.setRandomSeed(c.below(100));
            else
                archive.clear();
        }
    }
    out << describe(*w, *g) << canonArchive(archive, false);
    c.nontrivial(runs > 1 && changes > 0);
    c.label(instrumented ? "instrumented" : "plain");
    return out.str();
}

// -------------------------------------------------- data, programs, archive ---
inline std::string pieces(Ctx& c)
{
    std::ostringstream out;
    out.precision(17);
    WorldOpts o;
    o.maxDim = 4;
    auto w = genWorld(c, o);
    c.note(w->describe());
    std::vector<std::shared_ptr<Program::Program>> ps;
    for (int i = 0; i < 3; i++)
        ps.push_back(build(*w, genProg(c, *w, 5)));
    std::vector<std::unique_ptr<Data::DataHandler>> copies;
    Archive archive((size_t)c.in(1, 6), 1.0, 3);
    auto engine = std::make_unique<Program::ProgramExecutionEngine>(*ps[0]);
    Mutator::RNG rng(c.below(0));
    Mutator::MutationParameters mp;
    mp.prog.maxProgramSize = 6;
    mp.prog.pAdd = mp.prog.pDelete = mp.prog.pMutate = mp.prog.pSwap = mp.prog.pConstantMutation = 0.5;
    mp.prog.minConstValue = -5;
    mp.prog.maxConstValue = 5;
    std::vector<Data::UntypedSharedPtr> values;
    size_t n = (size_t)c.in(1, c.thorough ? 50 : 25), done = 0;
    std::string text;
    for (size_t i = 0; i < n; i++) {
        int op = (int)c.below(14);
        text += std::to_string(op) + " ";
        auto& p = ps[c.below(ps.size())];
        auto& s = *w->srcs[c.below(w->srcs.size())];
        try {
            switch (op) {
            case 0:
                copies.emplace_back(s.dh().clone());
                break;
            case 1:
                if (!copies.empty())
                    copies.erase(copies.begin() + (long)c.below(copies.size()));
                break;
            case 2: // owned by the caller, whatever the data
                values.push_back(s.dh().getDataAt(typeid(double), c.below(8)));
                out << *values.back().getSharedPointer<const double>() << " ";
                break;
            case 3: {
                auto& t = w->ins[c.below(w->ins.size())]->ops;
                if (!t.empty()) {
                    auto& x = t[c.below(t.size())];
                    if (s.dh().canHandle(*x.type))
                        values.push_back(s.dh().getDataAt(*x.type, c.below(s.dh().getAddressSpace(*x.type))));
                }
                break;
            }
            case 4:
                values.clear();
                break;
            case 5:
                archive.addRecording(p.get(), w->refs(), c.real(), c.chance(1, 3));
                break;
            case 6:
                refill(c, *w);
                break;
            case 7:
                if (c.chance(1, 3))
                    archive.clear();
                break;
            case 8:
                p = std::make_shared<Program::Program>(*ps[c.below(ps.size())]);
                break;
            case 9:
                Mutator::ProgramMutator::mutateProgram(*p, mp, rng);
                break;
            case 10:
                Mutator::ProgramMutator::initRandomProgram(*p, mp, rng);
                break;
            case 11:
                if (c.chance(1, 2))
                    engine = std::make_unique<Program::ProgramExecutionEngine>(*p);
                else
                    engine->setProgram(*p);
                out << show(engine->executeProgram(c.chance(1, 2))) << " ";
                break;
            case 12: { // refused
                std::vector<std::reference_wrapper<const Data::DataHandler>> r = w->refs();
                auto extra = genSrc(c);
                r.push_back(extra->dh());
                engine = std::make_unique<Program::ProgramExecutionEngine>(*p, r);
                break;
            }
            default: {
                std::unique_ptr<Src> k = s.clone();
                copies.emplace_back(k->dh().clone());
                k->set(0, 1);
            }
            }
            done++;
        }
        catch (const std::exception&) {
            c.label("refused");
            text += "(refused) ";
        }
    }
    // the engine reads a program that may be replaced
    engine.reset();
    for (auto& p : ps)
        out << describe(*w, readProg(*w, *p));
    out << canonArchive(archive, false) << rng.getUnsignedInt64(0, UINT64_MAX);
    c.note("operations ", text);
    c.nontrivial(done > 5);
    return out.str();
}

// ---------------------------------------------------------------- mutations ---
inline std::string populations(Ctx& c)
{
    std::ostringstream out;
    out.precision(17);
    // other behaviours exist
    WorldOpts o;
    o.rich = true;
    auto w = genWorld(c, o);
    auto g = newGraph(c, *w);
    Mutator::MutationParameters p;
    p.tpg.nbActions = (size_t)c.in(2, 5);
    p.tpg.maxInitOutgoingEdges = c.chance(1, 8) ? 1 : (size_t)c.in(2, (int64_t)p.tpg.nbActions + c.chance(1, 8));
    p.tpg.nbRoots = (size_t)c.in(1, 8);
    p.tpg.maxOutgoingEdges = (size_t)c.in(2, 6);
    p.tpg.pEdgeDeletion = c.proba();
    p.tpg.pEdgeAddition = c.proba();
    p.tpg.pProgramMutation = 0.05 + 0.95 * c.proba();
    p.tpg.pEdgeDestinationChange = c.proba();
    p.tpg.pEdgeDestinationIsAction = c.proba();
    p.tpg.forceProgramBehaviorChangeOnMutation = c.chance(1, 2);
    p.prog.maxProgramSize = (size_t)c.in(2, 8);
    p.prog.pDelete = p.prog.pSwap = 0.3;
    p.prog.pAdd = p.prog.pMutate = 0.7;
    p.prog.pConstantMutation = 0.5;
    p.prog.minConstValue = -3;
    p.prog.maxConstValue = 3;
    Mutator::RNG rng(c.below(0));
    Archive archive((size_t)c.in(1, 20), 1.0, 1);
    size_t n = (size_t)c.in(1, 4), done = 0;
    size_t threads = c.chance(1, 8) ? 2 : 1;
    c.note(w->describe(), "\n", p.tpg.nbActions, " actions, ", p.tpg.nbRoots, " roots, ", n, " populations");
    try {
        Mutator::TPGMutator::initRandomTPG(*g, p, rng);
        for (size_t i = 0; i < n; i++) {
            if (c.chance(2, 3)) {
                TPG::TPGExecutionEngine e(*w->env, &archive);
                for (auto r : g->getRootVertices())
                    e.executeFromRoot(*r);
            }
            Mutator::TPGMutator::populateTPG(*g, archive, p, rng, threads);
            done++;
            auto roots = g->getRootVertices();
            for (auto r : roots)
                if (c.chance(1, 2))
                    g->removeVertex(*r);
            if (c.chance(1, 4))
                refill(c, *w);
        }
    }
    catch (const std::exception&) {
        c.label("refused or interrupted");
    }
    out << describe(*w, *g) << canonArchive(archive, false) << rng.getUnsignedInt64(0, UINT64_MAX);
    c.nontrivial(done > 0);
    return out.str();
}

// --------------------------------------------------------------------- files ---
inline void damage(Ctx& c, std::string& t)
{
    size_t n = (size_t)c.in(1, 3);
    for (size_t k = 0; k < n && !t.empty(); k++) {
        size_t i = c.below(t.size());
        // the description of a program is left alone
        size_t a = t.rfind('\n', i), b = t.find('\n', i);
        a = a == std::string::npos ? 0 : a;
        std::string l = t.substr(a, b == std::string::npos ? b : b - a);
        if (l.find("shape=box style=invis") != std::string::npos)
            continue;
        switch (c.below(4)) {
        case 0:
            t.resize(i);
            break;
        case 1:
            t[i] = "0123456789|&#-T PAI[]\"=>x{}:,"[c.below(29)];
            break;
        case 2:
            t.erase(a, l.size());
            break;
        default:
            t.insert(a, l);
        }
    }
}

inline std::string files(Ctx& c)
{
    std::ostringstream out;
    out.precision(17);
    WorldOpts o;
    o.codegen = true;
    auto w = genWorld(c, o);
    auto g = newGraph(c, *w);
    GraphOpts go;
    go.uniqueActions = true;
    genGraph(c, *w, *g, go);
    c.note(w->describe(), "\n", describe(*w, *g));
    std::string base = pbt::scratchDir() + "/" + unique();
    std::string dot = base + ".dot", json = base + ".json";
    std::vector<std::string> created{dot, json};
    size_t n = (size_t)c.in(1, 4), done = 0, refused = 0;
    for (size_t i = 0; i < n; i++) {
        try {
            switch (c.below(5)) {
            case 0: { // export
                File::TPGGraphDotExporter ex(c.chance(1, 6) ? "/nonexistent/x.dot" : dot.c_str(), *g);
                ex.print();
                if (c.chance(1, 3))
                    ex.setNewFilePath(c.chance(1, 2) ? "/nonexistent/x.dot" : dot.c_str());
                if (c.chance(1, 2))
                    ex.printSubGraph(c.pick(g->getVertices()));
                out << "exported ";
                break;
            }
            case 1: { // import
                {
                    File::TPGGraphDotExporter ex(dot.c_str(), *g);
                    ex.print();
                }
                if (c.chance(2, 3)) {
                    std::string t = undated(slurp(dot));
                    damage(c, t);
                    spit(dot, t);
                }
                auto h = newGraph(c, *w);
                if (c.chance(1, 3))
                    genGraph(c, *w, *h, go);
                File::TPGGraphDotImporter im(c.chance(1, 8) ? "/nonexistent/x.dot" : dot.c_str(), *w->env, *h);
                if (c.chance(1, 3))
                    im.importGraph();
                out << describe(*w, *h);
                break;
            }
            case 2: { // parameters
                Learn::LearningParameters p;
                File::ParametersParser::writeParametersToJson(c.chance(1, 8) ? "/nonexistent/x.json" : json.c_str(), p);
                if (c.chance(1, 2)) {
                    std::string t = undated(slurp(json));
                    damage(c, t);
                    spit(json, t);
                }
                File::ParametersParser::loadParametersFromJson(c.chance(1, 8) ? "/nonexistent/x.json" : json.c_str(), p);
                out << p.archiveSize << " " << p.mutation.prog.maxProgramSize << ";";
                break;
            }
            case 3: { // code of programs
                std::string name = unique() + "_p";
                std::string dir = c.chance(1, 6) ? "/nonexistent/" : pbt::scratchDir() + "/";
                for (auto s : {".c", ".h"})
                    created.push_back(pbt::scratchDir() + "/" + name + s);
                CodeGen::ProgramGenerationEngine e(name, *w->env, dir);
                auto p = build(*w, genProg(c, *w, 5));
                e.setProgram(*p);
                e.generateProgram(1, c.chance(1, 2));
                if (c.chance(1, 2)) {
                    Program::Program q(*w->env);
                    e.setProgram(q);
                    e.generateProgram(2);
                }
                break;
            }
            default: { // code of graphs
                std::string name = unique() + "_t";
                for (auto s : {".c", ".h", "_program.c", "_program.h"})
                    created.push_back(pbt::scratchDir() + "/" + name + s);
                auto roots = g->getRootVertices();
                while (roots.size() > 1 && c.chance(9, 10)) {
                    g->removeVertex(*roots.front());
                    roots = g->getRootVertices();
                }
                auto mode = c.chance(1, 2) ? CodeGen::TPGGenerationEngineFactory::stackMode : CodeGen::TPGGenerationEngineFactory::switchMode;
                auto e = CodeGen::TPGGenerationEngineFactory(mode).create(name, *g, c.chance(1, 6) ? "/nonexistent/" : pbt::scratchDir() + "/");
                e->generateTPGGraph();
            }
            }
            done++;
        }
        catch (const std::exception&) {
            refused++;
            out << "refused ";
        }
    }
    for (auto& f : created) {
        // the names depend on the thread
        std::string t = undated(slurp(f)), u = unique();
        for (size_t i; (i = t.find(u)) != std::string::npos;)
            t.replace(i, u.size(), "NAME");
        out << t;
        unlink(f.c_str());
    }
    c.label("refused", refused);
    c.label("done", done);
    c.nontrivial();
    return out.str();
}

// ----------------------------------------------------------------- training ---
// Interrupts the training in the middle of an episode.
class Fragile : public SimEnv {
  public:
    using SimEnv::SimEnv;
    uint64_t fuse = 0; // 0: never
    Learn::LearningEnvironment* clone() const override { return core.dyn.copyable ? new Fragile(*this) : nullptr; }
    void burn()
    {
        if (fuse > 0 && --fuse == 0)
            throw Stop();
    }
    void doAction(uint64_t a) override
    {
        burn();
        SimEnv::doAction(a);
    }
    void reset(size_t seed, Learn::LearningMode mode, uint16_t iter, uint64_t gen) override
    {
        burn();
        SimEnv::reset(seed, mode, iter, gen);
    }
};

inline std::string trainings(Ctx& c)
{
    std::ostringstream out;
    out.precision(17);
    SettingOpts so;
    so.maxGens = 3;
    so.maxRoots = 6;
    Setting s = genSetting(c, so);
    s.p.nbThreads = c.chance(1, 12) ? 2 : 1;
    s.p.doValidation = c.chance(1, 3);
    int kind = (int)c.below(5);
    s.dyn.nbClassesUsed = s.dyn.nbActions;
    s.p.nbIterationsPerJob = (size_t)c.in(1, 2);
    const TPG::TPGFactory usual;
    const TPG::TPGInstrumentedFactory instrumented;
    const TPG::TPGFactory& f = c.chance(1, 3) ? (const TPG::TPGFactory&)instrumented : usual;
    std::unique_ptr<Learn::LearningEnvironment> le;
    std::unique_ptr<Learn::LearningAgent> la;
    Fragile* fragile = nullptr;
    static const char* names[] = {"sequential", "parallel", "classification", "parallel classification", "adversarial"};
    c.label(names[kind]);
    c.note(s.describe(), "\n ", names[kind]);
    uint64_t interrupted = 0, gens = 0;
    std::ostringstream sink;
    try {
        switch (kind) {
        case 0:
        case 1: {
            auto e = std::make_unique<Fragile>(*s.w, s.dyn);
            fragile = e.get();
            if (kind == 0)
                la = std::make_unique<Learn::LearningAgent>(*e, s.w->set, s.p, f);
            else
                la = std::make_unique<Learn::ParallelLearningAgent>(*e, s.w->set, s.p, f);
            le = std::move(e);
            break;
        }
        case 2:
        case 3: {
            auto e = std::make_unique<SimClass>(*s.w, s.dyn);
            if (kind == 2)
                la = std::make_unique<Learn::ClassificationLearningAgent<Learn::LearningAgent>>(*e, s.w->set, s.p, f);
            else
                la = std::make_unique<Learn::ClassificationLearningAgent<Learn::ParallelLearningAgent>>(*e, s.w->set, s.p, f);
            le = std::move(e);
            break;
        }
        default: {
            auto e = std::make_unique<SimAdv>(*s.w, s.dyn);
            la = std::make_unique<Learn::AdversarialLearningAgent>(*e, s.w->set, s.p, s.dyn.players, f);
            le = std::move(e);
        }
        }
        std::vector<std::unique_ptr<Log::LALogger>> loggers;
        if (c.chance(1, 3))
            loggers.push_back(std::make_unique<Log::LABasicLogger>(*la, sink));
        if (c.chance(1, 3))
            loggers.push_back(std::make_unique<Log::LAPolicyStatsLogger>(*la, sink));
        if (c.chance(1, 3))
            loggers.push_back(std::make_unique<Log::CycleDetectionLALogger>(*la, sink, true));
        size_t rounds = (size_t)c.in(1, 3);
        for (size_t r = 0; r < rounds; r++) {
            if (fragile && kind == 0 && c.chance(1, 3))
                fragile->fuse = (uint64_t)c.in(1, 60);
            try {
                la->init(c.below(100));
                for (uint64_t g = 0; g < s.gens; g++) {
                    la->trainOneGeneration(g);
                    gens++;
                    out << canon(*s.w, *la->getTPGGraph()) << show(la->getBestScoreLastGen()) << " " << canonArchive(la->getArchive(), false) << "\n";
                    switch (c.below(6)) {
                    case 0:
                        la->keepBestPolicy();
                        break;
                    case 1:
                        la->evaluateAllRoots(g, Learn::LearningMode::TESTING);
                        break;
                    case 2:
                        la->forgetPreviousResults();
                        break;
                    case 3: {
                        auto roots = la->getTPGGraph()->getRootVertices();
                        if (kind < 4 && !roots.empty())
                            la->evaluateOneRoot(g, Learn::LearningMode::TRAINING, roots[c.below(roots.size())]);
                        break;
                    }
                    default:
                        break;
                    }
                }
            }
            catch (const std::exception& e) {
                interrupted++;
                out << e.what();
            }
            if (fragile)
                fragile->fuse = 0;
        }
        out << la->getRNG().getUnsignedInt64(0, UINT64_MAX);
        la.reset();
    }
    catch (const std::exception&) {
        c.label("refused");
    }
    c.label("interrupted", interrupted);
    c.nontrivial(gens > 1);
    return out.str();
}

} // namespace scen
#endif
