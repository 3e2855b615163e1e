// Generators of GEGELATI worlds (data sources, instruction sets, environments,
// programs, graphs) and the reference models they are judged against. The
// models are written from the documentation and share no code with the library.
#ifndef GG_H
#define GG_H
#include "pbt.h"
#include <cmath>
#include <cstring>
#include <functional>
#include <gegelati.h>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace gg {

// ---------------------------------------------------------------- values ---
bool sameDouble(double a, double b); // bitwise, except that all NaN are equal
                                     // and 0.0 == -0.0
std::string show(double v);

// Element types of data sources
enum Elem { ED, EI, EF, EU, EC }; // double, int, float, uint8_t, Constant
const char* elemName(Elem e);

// Types of the operands of instructions
struct OpType {
    Elem elem;
    int rank; // 0 scalar, 1: [a], 2: [a][b]
    int a, b;
    const std::type_info* type;
    std::string name;
};

// --------------------------------------------------------------- sources ---
enum Shape { SH_ARRAY, SH_ARRAY2D, SH_WRAP, SH_WRAP2D, SH_PTR };
const char* shapeName(Shape s);

// A data source of the library together with its flat model.
class Src {
  public:
    Elem elem;
    Shape shape;
    size_t w, h;                // h == 1 for 1D
    std::vector<double> values; // row-major
    virtual ~Src() = default;
    virtual Data::DataHandler& dh() = 0;
    const Data::DataHandler& dh() const { return const_cast<Src*>(this)->dh(); }
    // Writes one element, in the library object and in the model.
    virtual void set(size_t idx, double v) = 0;
    // Independent copy, whose data handler keeps its identifier.
    virtual std::unique_ptr<Src> clone() const = 0;
    // Quantises a double to a value of the element type.
    double quant(double v) const;
    std::string describe() const;
    size_t size() const { return values.size(); }
};
std::unique_ptr<Src> makeSrc(Elem e, Shape s, size_t w, size_t h);
std::unique_ptr<Src> genSrc(pbt::Ctx& c, bool plainTypesOnly = false,
                            size_t maxDim = 6);
void fillSrc(pbt::Ctx& c, Src& s);

// Model of what a source can provide.
struct SrcModel {
    Elem elem;
    bool twoD;
    bool ptr;
    size_t w, h;
    const std::vector<double>* values;
};
SrcModel modelOf(const Src& s);
// Number of addresses providing this type (0: not provided).
size_t modelSpace(const SrcModel& s, const OpType& t);
// Indexes (row-major) of the elements read at this address.
std::vector<size_t> modelAddresses(const SrcModel& s, const OpType& t,
                                   size_t address);

// ---------------------------------------------------------- instructions ---
struct Ins {
    std::string name;
    std::vector<OpType> ops;
    std::function<double(const std::vector<std::vector<double>>&)> ref;
    std::shared_ptr<Instructions::Instruction> lib;
    bool mayBeNonFinite;
    bool codegenOnly = false; // only in the worlds of the code generator
};
// The complete catalogue.
const std::vector<Ins>& catalogue();

// ----------------------------------------------------------- environment ---
struct World {
    std::vector<std::unique_ptr<Src>> srcs;
    size_t nbRegs = 8, nbConst = 0;
    std::vector<const Ins*> offered; // instructions given to the Environment
    std::vector<const Ins*> ins;     // those it must keep
    Instructions::Set set;
    std::unique_ptr<Environment> env;
    std::vector<std::reference_wrapper<const Data::DataHandler>> refs() const;
    // Number of operand data sources (registers [+ constants] + sources)
    size_t nbOperandSources() const
    {
        return srcs.size() + 1 + (nbConst > 0 ? 1 : 0);
    }
    // Model of the operand data source of this index. regs/consts give the
    // content of the registers and constants.
    SrcModel operandSource(size_t idx, const std::vector<double>& regs,
                           const std::vector<double>& consts) const;
    bool provides(size_t idx, const OpType& t) const;
    size_t largestSpace() const;
    std::string describe() const;
};
struct WorldOpts {
    size_t minRegs = 1, maxRegs = 8;
    size_t maxConst = 4;
    size_t maxSrc = 4;
    size_t maxDim = 5;
    bool finiteOnly = false;   // no instruction producing NaN/inf
    bool doubleOnly = false;   // only double sources
    bool codegen = false;      // only instructions usable by the code generator
    size_t maxIns = 8;
    size_t large = 0; // size of an additional, large source
    bool rich = false; // able to produce many different values: a source of
                       // 4 to 9 doubles, a subtraction and a product
};
std::unique_ptr<World> genWorld(pbt::Ctx& c, const WorldOpts& o = WorldOpts());
void refill(pbt::Ctx& c, World& w); // new content for the data sources

// -------------------------------------------------------------- programs ---
struct MLine {
    uint64_t ins = 0, dest = 0;
    std::vector<std::pair<uint64_t, uint64_t>> ops;
    bool operator==(const MLine& o) const
    {
        return ins == o.ins && dest == o.dest && ops == o.ops;
    }
};
struct MProg {
    std::vector<MLine> lines;
    std::vector<double> consts;
    bool operator==(const MProg& o) const
    {
        return lines == o.lines && consts == o.consts;
    }
};
MLine genLine(pbt::Ctx& c, const World& w, bool smallLoc = false);
MProg genProg(pbt::Ctx& c, const World& w, size_t maxLines);
void writeLine(const MLine& m, Program::Line& l);
std::shared_ptr<Program::Program> build(const World& w, const MProg& m);
MProg readProg(const World& w, const Program::Program& p);
std::string describe(const World& w, const MProg& m);
// Reference interpreter. `regs` (optional) receives the final registers.
double refRun(const World& w, const MProg& m,
              std::vector<double>* regs = nullptr);
// Same, on given source contents (same shapes as w.srcs).
double refRunOn(const World& w, const MProg& m,
                const std::vector<SrcModel>& srcs,
                std::vector<double>* regs = nullptr);
// Which lines can influence the result (backward liveness).
std::vector<bool> refUseful(const World& w, const MProg& m);
// Checks that the line is executable in the world: all indexes within bounds,
// each operand of the instruction provided by its source.
std::string invalidity(const World& w, const MLine& l);

// ---------------------------------------------------------------- graphs ---
struct GraphOpts {
    size_t maxTeams = 6, maxActions = 5, maxEdges = 5, maxLines = 6;
    bool shareProgramsFreely = true; // a program may lead to several vertices
    bool uniqueActions = false;
    uint64_t actionBase = 0, actionStep = 1; // identifiers of unique actions
    bool rootAction = true; // isolated actions allowed
    bool ties = true;       // allow a program to appear twice in a team
};
// Adds teams, actions and edges to g: acyclic, every team has an edge and
// (through the order of creation) reaches an action.
void genGraph(pbt::Ctx& c, const World& w, TPG::TPGGraph& g,
              const GraphOpts& o);
std::string describe(const World& w, const TPG::TPGGraph& g,
                     bool programs = true);
// Bid of an edge according to the reference interpreter.
double refBid(const World& w, const TPG::TPGEdge& e);
// Bids of programs already computed for the present content of the sources.
typedef std::map<const Program::Program*, double> BidCache;
// Path from a root according to the documented semantics.
std::vector<const TPG::TPGVertex*> refPath(const World& w,
                                           const TPG::TPGVertex& root);
// Number the vertices of a graph, in the order of getVertices().
std::map<const TPG::TPGVertex*, size_t> numbering(const TPG::TPGGraph& g);
// Structural integrity; returns a description of the first problem, or "".
std::string graphProblem(const TPG::TPGGraph& g);
bool hasCycle(const TPG::TPGGraph& g);

} // namespace gg
#endif
