// C19: the C code generated for a program or a graph computes what the library
// computes.
#include "gg.h"
#include <algorithm>
#include <dirent.h>
#include <dlfcn.h>
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using pbt::Ctx;
using namespace gg;

// A directory for the files of one case, removed with it.
struct Dir {
    std::string path;
    Dir()
    {
        static int n = 0;
        path = pbt::scratchDir() + "/cg" + std::to_string(getpid()) + "_" + std::to_string(n++) + "/";
        ::mkdir(path.c_str(), 0755);
    }
    ~Dir()
    {
        if (DIR* d = opendir(path.c_str())) {
            while (auto e = readdir(d))
                if (e->d_name[0] != '.')
                    ::unlink((path + e->d_name).c_str());
            closedir(d);
        }
        ::rmdir(path.c_str());
    }
};

static void write(const std::string& f, const std::string& text)
{
    std::ofstream o(f, std::ios::trunc);
    o << text;
}
static std::string slurp(const std::string& f)
{
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}

// The data sources, as the user of the generated code provides them.
struct Globals {
    std::vector<std::vector<double>> d;
    std::vector<std::vector<float>> f;
    std::vector<std::vector<int>> i;
    std::vector<std::vector<unsigned char>> u;
    std::vector<void*> address;
    void load(const World& w)
    {
        d.assign(w.srcs.size(), {});
        f.assign(w.srcs.size(), {});
        i.assign(w.srcs.size(), {});
        u.assign(w.srcs.size(), {});
        address.clear();
        for (size_t k = 0; k < w.srcs.size(); k++) {
            auto& v = w.srcs[k]->values;
            switch (w.srcs[k]->elem) {
            case ED:
                d[k].assign(v.begin(), v.end());
                address.push_back(d[k].data());
                break;
            case EF:
                for (double x : v)
                    f[k].push_back((float)x);
                address.push_back(f[k].data());
                break;
            case EI:
                for (double x : v)
                    i[k].push_back((int)x);
                address.push_back(i[k].data());
                break;
            default:
                for (double x : v)
                    u[k].push_back((unsigned char)x);
                address.push_back(u[k].data());
            }
        }
    }
    static std::string glue(const World& w)
    {
        std::string s;
        for (size_t k = 0; k < w.srcs.size(); k++) {
            Elem e = w.srcs[k]->elem;
            s += std::string(e == ED ? "double" : e == EF ? "float" : e == EI ? "int" : "unsigned char") + "* in" + std::to_string(k + 1) + ";\n";
        }
        return s;
    }
};

// A compiled set of generated files.
struct Lib {
    void* handle = nullptr;
    Lib(Ctx& c, const std::string& dir, const std::string& name, const std::vector<std::string>& sources)
    {
        std::string so = dir + name + ".so";
        std::string cmd = "cd '" + dir + "' && gcc -x c -O0 -w -pipe -ffp-contract=off -Werror=implicit-function-declaration -Werror=int-conversion"
                          " -Werror=incompatible-pointer-types -shared -fPIC -Wl,-Bsymbolic -Wl,-z,defs -o '" + name + ".so'";
        for (auto& s : sources)
            cmd += " '" + s + "'";
        cmd += " glue.c -x none -lm > gcc.log 2>&1";
        int rc = -1;
        for (int k = 0; k < 3; k++) { // a failure of the machine is no verdict
            rc = system(cmd.c_str());
            if (rc != -1 && WIFEXITED(rc) && WEXITSTATUS(rc) <= 1)
                break;
        }
        if (rc != 0) {
            std::string log = slurp(dir + "gcc.log");
            if (log.find("error:") == std::string::npos && log.find("undefined reference") == std::string::npos && log.find("multiple definition") == std::string::npos)
                c.discard(); // killed, out of memory
            c.fail("the generated code does not compile: ", log.substr(0, 1500));
        }
        handle = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
        c.check(handle, "cannot load the generated code: ", std::string(handle ? "" : dlerror()));
    }
    ~Lib()
    {
        if (handle)
            dlclose(handle);
    }
    void* sym(Ctx& c, const std::string& n)
    {
        void* p = dlsym(handle, n.c_str());
        c.check(p, "the generated code has no symbol ", n);
        return p;
    }
    void connect(Ctx& c, const Globals& g)
    {
        for (size_t k = 0; k < g.address.size(); k++)
            *(void**)sym(c, "in" + std::to_string(k + 1)) = g.address[k];
    }
};

static const char* EXTERN = "#ifndef EXTERN_HEADER_H\n#define EXTERN_HEADER_H\n#include <float.h>\n#include <math.h>\n#endif\n";

static std::unique_ptr<World> world(Ctx& c)
{
    WorldOpts o;
    o.codegen = true;
    o.maxIns = 12;
    o.rich = c.chance(1, 2);
    auto w = genWorld(c, o);
    c.note(w->describe());
    return w;
}

static void programs(Ctx& c)
{
    auto w = world(c);
    size_t n = (size_t)c.in(1, 24);
    std::vector<MProg> mp;
    std::vector<std::shared_ptr<Program::Program>> ps;
    for (size_t i = 0; i < n; i++) {
        mp.push_back(genProg(c, *w, 12));
        ps.push_back(build(*w, mp.back()));
        if (c.chance(1, 2))
            ps.back()->identifyIntrons();
    }
    std::vector<uint64_t> ids;
    uint64_t id = 0;
    for (size_t i = 0; i < n; i++)
        ids.push_back(id += 1 + (c.chance(1, 4) ? c.below(1000) : 0));
    Dir dir;
    std::string name = c.pick(std::vector<std::string>{"prog", "P", "my_programs", "x1"});
    bool stale = c.chance(1, 4);
    if (stale) { // left by a previous generation
        write(dir.path + name + ".c", std::string(c.below(3000), 'z'));
        write(dir.path + name + ".h", std::string(c.below(3000), 'z'));
    }
    {
        std::unique_ptr<CodeGen::ProgramGenerationEngine> e;
        size_t first = 0;
        if (c.chance(1, 2)) {
            e = std::make_unique<CodeGen::ProgramGenerationEngine>(name, *ps[0], dir.path);
            e->generateProgram(ids[0]);
            first = 1;
        }
        else
            e = std::make_unique<CodeGen::ProgramGenerationEngine>(name, *w->env, dir.path);
        for (size_t i = first; i < n; i++) {
            e->setProgram(*ps[i]);
            e->generateProgram(ids[i], c.chance(1, 4));
        }
    }
    for (size_t i = 0; i < n; i++)
        c.check(readProg(*w, *ps[i]) == mp[i], "the generation changed program ", i);
    write(dir.path + "externHeader.h", EXTERN);
    write(dir.path + "glue.c", Globals::glue(*w));
    Lib lib(c, dir.path, name, {name + ".c"});
    size_t arrays = 0, distinct = 0;
    for (auto& m : mp) {
        auto u = refUseful(*w, m);
        for (size_t k = 0; k < m.lines.size(); k++)
            if (u[k])
                for (auto& t : w->ins.at(m.lines[k].ins)->ops)
                    arrays += t.rank > 0;
    }
    size_t rounds = (size_t)c.in(2, 6);
    Globals g;
    std::set<double> seen;
    for (size_t r = 0; r < rounds; r++) {
        if (r > 0)
            refill(c, *w);
        g.load(*w);
        lib.connect(c, g);
        for (size_t i = 0; i < n; i++) {
            double expected = refRun(*w, mp[i]);
            double got = ((double (*)())lib.sym(c, "P" + std::to_string(ids[i])))();
            seen.insert(expected);
            c.check(sameDouble(got, expected), "round ", r, ", generated program ", i, " returns ", show(got), ", the program ", show(expected), ": ", describe(*w, mp[i]));
        }
    }
    distinct = seen.size();
    // The header declares what the source defines.
    std::string main = "#include \"" + name + ".h\"\n#include \"" + name + ".h\"\ndouble all(){ double s = 0;\n";
    for (auto i : ids)
        main += " s += P" + std::to_string(i) + "();\n";
    main += "return s;}\n";
    write(dir.path + "user.c", main);
    Lib user(c, dir.path, "user", {name + ".c", "user.c"});
    c.nontrivial(distinct > 3);
    c.label("programs", n);
    c.label("array operands used", arrays);
}

static void graphs(Ctx& c)
{
    auto w = world(c);
    TPG::TPGGraph g(*w->env);
    GraphOpts o;
    o.maxTeams = 8;
    o.uniqueActions = true;
    o.actionBase = c.chance(1, 2) ? 0 : c.below(100000);
    o.actionStep = c.chance(1, 2) ? 1 : (uint64_t)c.in(1, 5000);
    genGraph(c, *w, g, o);
    // A single root
    while (g.getNbRootVertices() > 1) {
        auto roots = g.getRootVertices();
        size_t keep = c.below(roots.size());
        if (c.chance(7, 8)) // the last team
            for (size_t i = 0; i < roots.size(); i++)
                if (dynamic_cast<const TPG::TPGTeam*>(roots[i]))
                    keep = i;
        for (size_t i = 0; i < roots.size(); i++)
            if (i != keep)
                g.removeVertex(*roots[i]);
    }
    if (c.chance(1, 3))
        for (auto v : g.getVertices())
            for (auto e : v->getOutgoingEdges())
                e->getProgram().identifyIntrons();
    const TPG::TPGVertex* root = g.getRootVertices().at(0);
    std::string before = describe(*w, g);
    c.note(before);
    Dir dir;
    write(dir.path + "externHeader.h", EXTERN);
    write(dir.path + "glue.c", Globals::glue(*w));
    struct Mode {
        CodeGen::TPGGenerationEngineFactory::generationEngineMode mode;
        std::string name;
    };
    std::string base = c.pick(std::vector<std::string>{"tpg", "a_b", "X"});
    std::vector<Mode> modes{{CodeGen::TPGGenerationEngineFactory::stackMode, base + "_stack"}, {CodeGen::TPGGenerationEngineFactory::switchMode, base + "_switch"}};
    std::vector<std::unique_ptr<Lib>> libs;
    for (auto& m : modes) {
        {
            auto e = CodeGen::TPGGenerationEngineFactory(m.mode).create(m.name, g, dir.path);
            c.check(e != nullptr, "the factory returns no engine");
            e->generateTPGGraph();
        }
        c.check(describe(*w, g) == before, "the generation changed the graph");
        libs.push_back(std::make_unique<Lib>(c, dir.path, m.name, std::vector<std::string>{m.name + ".c", m.name + "_program.c"}));
    }
    std::set<uint64_t> reached;
    size_t longest = 0;
    size_t rounds = (size_t)c.in(6, 40);
    Globals gl;
    TPG::TPGExecutionEngine engine(*w->env);
    for (size_t r = 0; r < rounds; r++) {
        if (r > 0)
            refill(c, *w);
        gl.load(*w);
        auto path = refPath(*w, *root);
        longest = std::max(longest, path.size());
        auto action = dynamic_cast<const TPG::TPGAction*>(path.back());
        c.check(action, "the path of the reference does not end with an action");
        uint64_t id = action->getActionID();
        reached.insert(id);
        auto trace = engine.executeFromRoot(*root);
        uint64_t lib = dynamic_cast<const TPG::TPGAction*>(trace.back())->getActionID();
        for (size_t k = 0; k < modes.size(); k++) {
            libs[k]->connect(c, gl);
            int got = ((int (*)())libs[k]->sym(c, "inferenceTPG"))();
            c.check(got == (int)id && got == (int)lib, "round ", r, ", the code of ", modes[k].name, " chooses action ", got, ", the library ", lib, ", the reference ", id);
        }
    }
    c.nontrivial(reached.size() > 1);
    c.label("rounds", rounds);
    if (longest > 2)
        c.label("path through several teams");
    if (dynamic_cast<const TPG::TPGAction*>(root))
        c.label("root is an action");
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C19";
    cfg.rule = "programs: their results take more than three values; graphs: the graph chooses more than one action over the contents tried";
    cfg.assumptions = {"all instructions have a print template that computes what the instruction computes", "one root, action identifiers are unique and fit an int",
                       "the generated code is compiled with gcc -O0, without fused operations"};
    cfg.subs = {{"programs", programs, 1200, 12000}, {"graphs", graphs, 1500, 15000}};
    return pbt::run(argc, argv, cfg);
}
