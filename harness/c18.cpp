// C18: learning parameters survive files, and ill-formed files change nothing.
#include "gg.h"
#include <json.h>
#include <algorithm>
#include <fstream>
#include <unistd.h>
using pbt::Ctx;
using Learn::LearningParameters;

static std::string fileName()
{
    return pbt::scratchDir() + "/p" + std::to_string(getpid()) + ".json";
}
static std::string slurp(const std::string& f)
{
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
static void spit(const std::string& f, const std::string& t)
{
    std::ofstream o(f, std::ios::binary);
    o << t;
}

// All the parameters, under the names documented for the files.
struct Field {
    std::string section, name;
    enum { SIZE, REAL, BOOL, INT } type;
    std::function<double(const LearningParameters&)> get;
    std::function<void(LearningParameters&, double)> set;
    std::function<uint64_t(const LearningParameters&)> raw;
    std::function<void(LearningParameters&, uint64_t)> setRaw;
};
#define F(section, type, name, path)                                                                          \
    Field                                                                                                     \
    {                                                                                                         \
        section, #name, Field::type, [](const LearningParameters& p) { return (double)p.path name; },         \
            [](LearningParameters& p, double v) { p.path name = (decltype(p.path name))v; },                  \
            [](const LearningParameters& p) { return (uint64_t)p.path name; },                                \
            [](LearningParameters& p, uint64_t v) { p.path name = (decltype(p.path name))v; }                 \
    }
static const std::vector<Field>& fields()
{
    static const std::vector<Field> f{
        F("", SIZE, archiveSize, ),
        F("", REAL, archivingProbability, ),
        F("", SIZE, nbIterationsPerPolicyEvaluation, ),
        F("", SIZE, maxNbActionsPerEval, ),
        F("", REAL, ratioDeletedRoots, ),
        F("", SIZE, nbGenerations, ),
        F("", SIZE, maxNbEvaluationPerPolicy, ),
        F("", SIZE, nbIterationsPerJob, ),
        F("", SIZE, nbRegisters, ),
        F("", SIZE, nbProgramConstant, ),
        F("", SIZE, nbThreads, ),
        F("", BOOL, doValidation, ),
        F("tpg", SIZE, nbActions, mutation.tpg.),
        F("tpg", SIZE, nbRoots, mutation.tpg.),
        F("tpg", SIZE, maxInitOutgoingEdges, mutation.tpg.),
        F("tpg", SIZE, maxOutgoingEdges, mutation.tpg.),
        F("tpg", REAL, pEdgeDeletion, mutation.tpg.),
        F("tpg", REAL, pEdgeAddition, mutation.tpg.),
        F("tpg", REAL, pProgramMutation, mutation.tpg.),
        F("tpg", BOOL, forceProgramBehaviorChangeOnMutation, mutation.tpg.),
        F("tpg", REAL, pEdgeDestinationChange, mutation.tpg.),
        F("tpg", REAL, pEdgeDestinationIsAction, mutation.tpg.),
        F("prog", SIZE, maxProgramSize, mutation.prog.),
        F("prog", REAL, pDelete, mutation.prog.),
        F("prog", REAL, pAdd, mutation.prog.),
        F("prog", REAL, pMutate, mutation.prog.),
        F("prog", REAL, pSwap, mutation.prog.),
        F("prog", REAL, pConstantMutation, mutation.prog.),
        F("prog", INT, minConstValue, mutation.prog.),
        F("prog", INT, maxConstValue, mutation.prog.),
    };
    return f;
}

static void randomValue(Ctx& c, const Field& f, LearningParameters& p)
{
    switch (f.type) {
    case Field::SIZE:
        f.setRaw(p, c.chance(1, 12) ? c.below(0) : c.chance(1, 3) ? c.below(1ull << 32) : c.below(200));
        break;
    case Field::REAL:
        f.set(p, c.chance(1, 4) ? (double)c.below(1000001) / 1e6 : c.proba());
        break;
    case Field::BOOL:
        f.setRaw(p, c.below(2));
        break;
    default:
        f.set(p, c.chance(1, 4) ? (double)c.in(INT32_MIN, INT32_MAX) : (double)c.in(-100, 100));
    }
}
static LearningParameters randomParams(Ctx& c)
{
    LearningParameters p;
    for (auto& f : fields())
        if (c.chance(3, 4))
            randomValue(c, f, p);
    return p;
}
static void same(Ctx& c, const Field& f, const LearningParameters& got, const LearningParameters& want, bool exact, const char* what)
{
    if (f.type == Field::REAL) {
        double a = f.get(got), b = f.get(want);
        c.check(exact ? a == b : std::fabs(a - b) <= 5.1e-6 * std::fabs(b), f.name, " ", what, " is ", a, ", expected ", b);
    }
    else
        c.check(f.raw(got) == f.raw(want), f.name, " ", what, " is ", (int64_t)f.raw(got), ", expected ", (int64_t)f.raw(want));
}

static void roundTrip(Ctx& c)
{
    std::string file = fileName();
    LearningParameters p = randomParams(c), q = randomParams(c), p0 = p;
    for (auto& f : fields())
        c.note(f.name, " ", f.get(p));
    if (c.chance(1, 3))
        spit(file, std::string(20000, 'x')); // overwritten
    File::ParametersParser::writeParametersToJson(file.c_str(), p);
    for (auto& f : fields())
        same(c, f, p, p0, true, "after the export");
    File::ParametersParser::loadParametersFromJson(file.c_str(), q);
    for (auto& f : fields())
        same(c, f, q, p, false, "read from the file");
    std::string t = slurp(file);
    File::ParametersParser::writeParametersToJson(file.c_str(), q);
    c.check(slurp(file) == t, "parameters read from a file give another file when written");
    LearningParameters r;
    File::ParametersParser::loadParametersFromJson(file.c_str(), r);
    for (auto& f : fields())
        same(c, f, r, q, true, "read again");
    unlink(file.c_str());
    c.nontrivial();
}

static std::string number(const Field& f, const LearningParameters& p)
{
    std::ostringstream o;
    o.precision(17);
    if (f.type == Field::REAL)
        o << f.get(p);
    else if (f.type == Field::BOOL)
        o << (f.raw(p) ? "true" : "false");
    else if (f.type == Field::INT)
        o << (int64_t)f.raw(p);
    else
        o << f.raw(p);
    return o.str();
}

// A file written by a user: any subset of the parameters, in any order, with
// comments and unknown parameters.
static std::string userFile(Ctx& c, const LearningParameters& v, std::set<const Field*>& used)
{
    std::map<std::string, std::vector<std::string>> sections;
    auto insert = [&](const std::string& s, const std::string& t) {
        auto& l = sections[s];
        l.insert(l.begin() + (long)c.below(l.size() + 1), t);
    };
    for (auto& f : fields())
        if (c.chance(1, 2)) {
            used.insert(&f);
            static const std::vector<std::string> before{"", "", "", "// comment\n", "/* \"nbRoots\" : 3, */ ", "\n\n\t "};
            insert(f.section, c.pick(before) + "\"" + f.name + "\"" + (c.chance(1, 2) ? " : " : ":") + number(f, v));
        }
    static const std::vector<std::string> unknown{"\"unknown\": 3", "\"NbRoots\": 7", "\"nbroots\": 7", "\"pDelete2\": 0.5", "\"Name\": \"text\"", "\"\": 1"};
    for (auto s : {"", "tpg", "prog"})
        if (c.chance(1, 3))
            insert(s, c.pick(unknown));
    std::string mut;
    for (auto s : {"tpg", "prog"})
        if (sections.count(s)) {
            std::string t;
            for (auto& x : sections[s])
                t += (t.empty() ? "" : ",\n") + x;
            mut += (mut.empty() ? "" : ", ") + ("\"" + std::string(s) + "\": {" + t + "}");
        }
    if (!mut.empty())
        insert("", "\"mutation\": {" + mut + "}");
    std::string t;
    for (auto& x : sections[""])
        t += (t.empty() ? "" : ",\n") + x;
    return (c.chance(1, 3) ? "// header\n{" : "{") + t + "\n}" + (c.chance(1, 3) ? "\n// end\n" : "");
}

static void userFiles(Ctx& c)
{
    LearningParameters before = randomParams(c), p = before, v = randomParams(c);
    std::set<const Field*> used;
    std::string t = userFile(c, v, used), file = fileName();
    c.note(t);
    spit(file, t);
    if (c.chance(1, 2)) {
        File::ParametersParser::loadParametersFromJson(file.c_str(), p);
    }
    else {
        Json::Value root;
        File::ParametersParser::readConfigFile(file.c_str(), root);
        File::ParametersParser::setAllParamsFrom(root, p);
    }
    for (auto& f : fields())
        if (used.count(&f))
            same(c, f, p, v, true, "in the file");
        else
            same(c, f, p, before, true, "absent from the file");
    unlink(file.c_str());
    c.nontrivial(used.size() > 3);
}

// Ill-formed files are ignored as a whole.
static void illFormed(Ctx& c)
{
    LearningParameters before = randomParams(c), p = before, v = randomParams(c);
    std::set<const Field*> used;
    std::string file = fileName(), t;
    if (c.chance(1, 3)) {
        File::ParametersParser::writeParametersToJson(file.c_str(), v);
        t = slurp(file);
    }
    else
        t = userFile(c, v, used);
    size_t end = t.rfind('}'), begin = t.find('{');
    switch (c.below(4)) {
    case 0:
        t.resize(c.below(end + 1)); // the last brace is missing
        c.label("cut");
        break;
    case 1: {
        // not a value
        static const std::vector<std::string> junk{"@", "nul", "tru", "--1", "}", "]", "\"", "{", "[", ":"};
        t.insert(begin + 1, c.pick(junk) + (c.chance(1, 2) ? "," : " "));
        c.label("junk");
        break;
    }
    case 2: {
        // a colon of the last lines is missing
        size_t at = t.rfind(':', end);
        if (at == std::string::npos || t.find("//", at) != std::string::npos || used.empty())
            c.discard();
        t.erase(at, 1);
        c.label("colon");
        break;
    }
    default:
        t = c.chance(1, 2) ? "" : "nbRoots = 3\n";
        c.label("not json");
    }
    c.note(t);
    spit(file, t);
    File::ParametersParser::loadParametersFromJson(file.c_str(), p);
    for (auto& f : fields())
        same(c, f, p, before, true, "after an ill-formed file");
    unlink(file.c_str());
    bool thrown = false;
    try {
        File::ParametersParser::loadParametersFromJson(file.c_str(), p);
    }
    catch (Json::Exception&) {
        thrown = true;
    }
    c.check(thrown, "a missing file is accepted");
    for (auto& f : fields())
        same(c, f, p, before, true, "after a missing file");
    c.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C18";
    cfg.rule = "roundTrip: random parameters are written, read over others, written and read again: integers and booleans exact, reals with the 6 digits of the format, second trip exact. userFiles: files with any subset of the parameters in any order, comments, unknown parameters: exactly these are set. illFormed: cut or broken files, and missing ones, change no parameter. Non-trivial: any round trip or ill-formed file, more than 3 parameters set.";
    cfg.subs = {{"roundTrip", roundTrip, 20000, 600000}, {"userFiles", userFiles, 30000, 900000}, {"illFormed", illFormed, 30000, 900000}};
    return pbt::run(argc, argv, cfg);
}
