#include "gg.h"
#include <algorithm>
#include <limits>

namespace gg {

using pbt::Ctx;

bool sameDouble(double a, double b)
{
    if (std::isnan(a) || std::isnan(b))
        return std::isnan(a) && std::isnan(b);
    return a == b;
}

std::string show(double v)
{
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}

const char* elemName(Elem e)
{
    static const char* n[] = {"double", "int", "float", "uint8", "Constant"};
    return n[e];
}

const char* shapeName(Shape s)
{
    static const char* n[] = {"Array", "Array2D", "Wrapper", "Wrapper2D", "Ptr"};
    return n[s];
}

// ------------------------------------------------------------- sources -----
template <class T> static T conv(double v) { return (T)v; }
template <> Data::Constant conv<Data::Constant>(double v)
{
    return Data::Constant{(int32_t)v};
}

double Src::quant(double v) const
{
    switch (elem) {
    case ED:
        return v;
    case EF:
        return (double)(float)v;
    case EU:
        if (!(v > -1e9 && v < 1e9))
            v = 7;
        return (double)(uint8_t)(int64_t)v;
    default:
        if (!(v > -2e9 && v < 2e9))
            v = 7;
        return (double)(int32_t)v;
    }
}

std::string Src::describe() const
{
    std::ostringstream o;
    o << shapeName(shape) << "<" << elemName(elem) << ">(";
    if (h > 1 || shape == SH_ARRAY2D || shape == SH_WRAP2D)
        o << "w=" << w << ",h=" << h;
    else
        o << w;
    o << "){";
    for (size_t i = 0; i < values.size() && i < 24; i++)
        o << (i ? "," : "") << show(values[i]);
    o << "}";
    return o.str();
}

template <class T> class SrcT : public Src {
  public:
    std::vector<T> store;
    T scalar{};
    std::unique_ptr<Data::DataHandler> handler;
    Data::PrimitiveTypeArray<T>* a1 = nullptr;
    Data::PrimitiveTypeArray2D<T>* a2 = nullptr;
    Data::ArrayWrapper<T>* w1 = nullptr;
    SrcT(Elem e, Shape s, size_t w_, size_t h_)
    {
        elem = e;
        shape = s;
        w = w_;
        h = h_;
        values.assign(w * h, 0.0);
        switch (s) {
        case SH_ARRAY:
            handler.reset(a1 = new Data::PrimitiveTypeArray<T>(w));
            break;
        case SH_ARRAY2D:
            handler.reset(a2 = new Data::PrimitiveTypeArray2D<T>(w, h));
            break;
        case SH_WRAP:
            store.assign(w, T{});
            handler.reset(w1 = new Data::ArrayWrapper<T>(w, &store));
            break;
        case SH_WRAP2D: {
            store.assign(w * h, T{});
            auto* p = new Data::Array2DWrapper<T>(w, h, &store);
            w1 = p;
            handler.reset(p);
            break;
        }
        case SH_PTR:
            handler.reset(new Data::PointerWrapper<T>(&scalar));
            break;
        }
        if (a1)
            a1->resetData();
        if (a2)
            a2->resetData();
    }
    std::unique_ptr<Src> clone() const override
    {
        auto r = std::make_unique<SrcT<T>>(elem, shape, w, h, *this);
        return r;
    }
    SrcT(Elem e, Shape s, size_t w_, size_t h_, const SrcT<T>& o) : store(o.store), scalar(o.scalar)
    {
        elem = e;
        shape = s;
        w = w_;
        h = h_;
        values = o.values;
        switch (s) {
        case SH_ARRAY:
            handler.reset(a1 = new Data::PrimitiveTypeArray<T>(*o.a1));
            break;
        case SH_ARRAY2D:
            handler.reset(a2 = new Data::PrimitiveTypeArray2D<T>(*o.a2));
            break;
        case SH_WRAP:
            handler.reset(w1 = new Data::ArrayWrapper<T>(*o.w1));
            w1->setPointer(&store);
            break;
        case SH_WRAP2D: {
            auto* p = new Data::Array2DWrapper<T>(*(const Data::Array2DWrapper<T>*)o.w1);
            w1 = p;
            handler.reset(p);
            w1->setPointer(&store);
            break;
        }
        case SH_PTR: {
            auto* p = new Data::PointerWrapper<T>(*(const Data::PointerWrapper<T>*)o.handler.get());
            p->setPointer(&scalar);
            handler.reset(p);
            break;
        }
        }
    }
    Data::DataHandler& dh() override { return *handler; }
    void set(size_t idx, double v) override
    {
        v = quant(v);
        values.at(idx) = v;
        T t = conv<T>(v);
        if (a1)
            a1->setDataAt(typeid(T), idx, t);
        else if (a2)
            a2->setDataAt(typeid(T), idx, t);
        else if (w1) {
            store.at(idx) = t;
            w1->invalidateCachedHash();
        }
        else
            scalar = t;
    }
};

std::unique_ptr<Src> makeSrc(Elem e, Shape s, size_t w, size_t h)
{
    switch (e) {
    case ED:
        return std::make_unique<SrcT<double>>(e, s, w, h);
    case EI:
        return std::make_unique<SrcT<int>>(e, s, w, h);
    case EF:
        return std::make_unique<SrcT<float>>(e, s, w, h);
    case EU:
        return std::make_unique<SrcT<uint8_t>>(e, s, w, h);
    default:
        return std::make_unique<SrcT<Data::Constant>>(e, s, w, h);
    }
}

void fillSrc(Ctx& c, Src& s)
{
    for (size_t i = 0; i < s.size(); i++)
        s.set(i, s.elem == ED || s.elem == EF ? c.real()
              : c.chance(1, 12)            ? (double)c.in(-1900000000, 1900000000)
                                           : (double)c.in(-300, 300));
}

std::unique_ptr<Src> genSrc(Ctx& c, bool doubleOnly, size_t maxDim)
{
    Elem e = doubleOnly ? ED : (Elem)c.pick(std::vector<int>{ED, ED, ED, EI, EI, EF, EU});
    Shape s = (Shape)c.pick(std::vector<int>{SH_ARRAY, SH_ARRAY, SH_ARRAY2D, SH_ARRAY2D,
                                             SH_WRAP, SH_WRAP2D, SH_PTR});
    size_t w = s == SH_PTR ? 1 : (size_t)c.in(1, (int64_t)maxDim);
    size_t h =
        s == SH_ARRAY2D || s == SH_WRAP2D ? (size_t)c.in(1, (int64_t)maxDim) : 1;
    auto p = makeSrc(e, s, w, h);
    fillSrc(c, *p);
    return p;
}

SrcModel modelOf(const Src& s)
{
    return SrcModel{s.elem, s.shape == SH_ARRAY2D || s.shape == SH_WRAP2D,
                    s.shape == SH_PTR, s.w, s.h, &s.values};
}

size_t modelSpace(const SrcModel& s, const OpType& t)
{
    if (s.elem != t.elem)
        return 0;
    if (t.rank == 0)
        return s.w * s.h;
    if (s.ptr)
        return 0;
    size_t th = t.rank == 2 ? t.a : 1;
    size_t tw = t.rank == 2 ? t.b : t.a;
    if (!s.twoD) {
        if (t.rank != 1)
            return 0;
        return tw <= s.w ? s.w - tw + 1 : 0;
    }
    if (tw > s.w || th > s.h)
        return 0;
    return (s.w - tw + 1) * (s.h - th + 1);
}

std::vector<size_t> modelAddresses(const SrcModel& s, const OpType& t,
                                   size_t address)
{
    std::vector<size_t> r;
    if (t.rank == 0) {
        r.push_back(address);
        return r;
    }
    size_t th = t.rank == 2 ? t.a : 1;
    size_t tw = t.rank == 2 ? t.b : t.a;
    // The windows of a 2D source are numbered row by row.
    size_t cols = s.w - tw + 1;
    size_t row = s.twoD ? address / cols : 0;
    size_t col = s.twoD ? address % cols : address;
    for (size_t y = 0; y < th; y++)
        for (size_t x = 0; x < tw; x++)
            r.push_back((row + y) * s.w + col + x);
    return r;
}

// -------------------------------------------------------- instructions -----
#define OP(E, T) OpType{E, 0, 0, 0, &typeid(T), #T}
#define OP1(E, T, N) OpType{E, 1, N, 0, &typeid(T[N]), #T "[" #N "]"}
#define OP2(E, T, N, M) OpType{E, 2, N, M, &typeid(T[N][M]), #T "[" #N "][" #M "]"}
typedef std::vector<std::vector<double>> Args;

const std::vector<Ins>& catalogue()
{
    static std::vector<Ins> cat;
    if (!cat.empty())
        return cat;
    using Data::Constant;
    using namespace Instructions;
    auto add = [&](const std::string& name, std::vector<OpType> ops,
                   std::function<double(const Args&)> ref, Instruction* lib,
                   bool nf = false) {
        cat.push_back(
            Ins{name, ops, ref, std::shared_ptr<Instruction>(lib), nf});
    };
    const OpType D = OP(ED, double), I = OP(EI, int), F = OP(EF, float),
                 U = OP(EU, uint8_t), C = OP(EC, Constant);
    add("add", {D, D}, [](const Args& a) { return a[0][0] + a[1][0]; },
        new AddPrimitiveType<double>("$0 = $1 + $2;"));
    add("sub", {D, D}, [](const Args& a) { return a[0][0] - a[1][0]; },
        new LambdaInstruction<double, double>(
            [](double a, double b) { return a - b; }, "$0 = $1 - $2;"));
    add("max", {D, D},
        [](const Args& a) { return a[0][0] > a[1][0] ? a[0][0] : a[1][0]; },
        new LambdaInstruction<double, double>(
            [](double a, double b) { return a > b ? a : b; },
            "$0 = ($1 > $2) ? $1 : $2;"));
    add("negHalf", {D}, [](const Args& a) { return -0.5 * a[0][0] + 1.0; },
        new LambdaInstruction<double>([](double a) { return -0.5 * a + 1.0; },
                                      "$0 = -0.5 * $1 + 1.0;"));
    add("mul", {D, D}, [](const Args& a) { return a[0][0] * a[1][0]; },
        new LambdaInstruction<double, double>(
            [](double a, double b) { return a * b; }, "$0 = $1 * $2;"),
        true);
    add("div", {D, D}, [](const Args& a) { return a[0][0] / a[1][0]; },
        new LambdaInstruction<double, double>(
            [](double a, double b) { return a / b; }, "$0 = $1 / $2;"),
        true);
    add("multByConst", {D, C}, [](const Args& a) { return a[0][0] * a[1][0]; },
        new MultByConstant<double>("$0 = $1 * $2;"));
    add("addConst", {C, D}, [](const Args& a) { return a[0][0] + a[1][0]; },
        new LambdaInstruction<Constant, double>(
            [](Constant k, double a) { return (double)k + a; },
            "$0 = $1 + $2;"));
    add("subInt", {I, I}, [](const Args& a) { return a[0][0] - a[1][0]; },
        new LambdaInstruction<int, int>(
            [](int a, int b) { return (double)a - (double)b; },
            "$0 = (double)$1 - (double)$2;"));
    add("addInt", {I, I}, [](const Args& a) { return a[0][0] + a[1][0]; },
        new AddPrimitiveType<int>("$0 = $1 + (double)$2;"));
    add("mixDI", {D, I}, [](const Args& a) { return a[0][0] + 2.0 * a[1][0]; },
        new LambdaInstruction<double, int>(
            [](double a, int b) { return a + 2.0 * (double)b; },
            "$0 = $1 + 2.0 * (double)$2;"));
    add("floatMax", {F, D},
        [](const Args& a) { return a[0][0] < a[1][0] ? a[1][0] : a[0][0]; },
        new LambdaInstruction<float, double>(
            [](float a, double b) { return a < b ? b : (double)a; },
            "$0 = ((double)$1 < $2) ? $2 : (double)$1;"));
    add("byteSel", {U, D, D},
        [](const Args& a) {
            return ((int)a[0][0] & 1) ? a[1][0] : a[2][0];
        },
        new LambdaInstruction<uint8_t, double, double>(
            [](uint8_t s, double a, double b) { return (s & 1) ? a : b; },
            "$0 = ($1 & 1) ? $2 : $3;"));
    add("dot3", {OP1(ED, double, 3), D},
        [](const Args& a) {
            return a[0][0] + 2.0 * a[0][1] - a[0][2] * 0.5 + a[1][0];
        },
        new LambdaInstruction<const double[3], double>(
            [](const double a[3], double b) {
                return a[0] + 2.0 * a[1] - a[2] * 0.5 + b;
            },
            "$0 = $1[0] + 2.0 * $1[1] - $1[2] * 0.5 + $2;"));
    add("diff2", {OP1(ED, double, 2), OP1(ED, double, 2)},
        [](const Args& a) {
            return (a[0][0] - a[1][0]) + 3.0 * (a[0][1] - a[1][1]);
        },
        new LambdaInstruction<const double[2], const double[2]>(
            [](const double a[2], const double b[2]) {
                return (a[0] - b[0]) + 3.0 * (a[1] - b[1]);
            },
            "$0 = ($1[0] - $2[0]) + 3.0 * ($1[1] - $2[1]);"));
    add("det22", {OP2(ED, double, 2, 2)},
        [](const Args& a) {
            return a[0][0] + 2.0 * a[0][1] + 4.0 * a[0][2] + 8.0 * a[0][3];
        },
        new LambdaInstruction<const double[2][2]>(
            [](const double a[2][2]) {
                return a[0][0] + 2.0 * a[0][1] + 4.0 * a[1][0] + 8.0 * a[1][1];
            },
            "$0 = $1[0][0] + 2.0 * $1[0][1] + 4.0 * $1[1][0] + 8.0 * $1[1][1];"));
    add("win32", {OP2(ED, double, 3, 2), D},
        [](const Args& a) {
            return a[0][0] - a[0][1] + 3.0 * a[0][2] + 5.0 * a[0][3] -
                   7.0 * a[0][4] + a[0][5] + a[1][0];
        },
        new LambdaInstruction<const double[3][2], double>(
            [](const double a[3][2], double b) {
                return a[0][0] - a[0][1] + 3.0 * a[1][0] + 5.0 * a[1][1] -
                       7.0 * a[2][0] + a[2][1] + b;
            },
            "$0 = $1[0][0] - $1[0][1] + 3.0 * $1[1][0] + 5.0 * $1[1][1] - "
            "7.0 * $1[2][0] + $1[2][1] + $2;"));
    add("sumInt2", {OP1(EI, int, 2), D},
        [](const Args& a) { return a[0][0] + 2.0 * a[0][1] + a[1][0]; },
        new LambdaInstruction<const int[2], double>(
            [](const int a[2], double b) {
                return (double)a[0] + 2.0 * (double)a[1] + b;
            },
            "$0 = (double)$1[0] + 2.0 * (double)$1[1] + $2;"));
    add("const2", {OP1(EC, Constant, 2), D},
        [](const Args& a) { return a[0][0] - 3.0 * a[0][1] + a[1][0]; },
        new LambdaInstruction<const Constant[2], double>(
            [](const Constant a[2], double b) {
                return (double)a[0] - 3.0 * (double)a[1] + b;
            },
            "$0 = (double)$1[0] - 3.0 * (double)$1[1] + $2;"));
    add("sin", {D}, [](const Args& a) { return std::sin(a[0][0]); },
        new LambdaInstruction<double>([](double a) { return std::sin(a); },
                                      "$0 = sin($1);"),
        true);
    // More than nine operands, in any order
    add("sum11", std::vector<OpType>(11, D),
        [](const Args& a) {
            return a[10][0] + 2.0 * a[0][0] - a[1][0] + 3.0 * a[2][0] -
                   a[3][0] + a[4][0] - 4.0 * a[5][0] + a[6][0] - a[7][0] +
                   5.0 * a[8][0] - 6.0 * a[9][0] + a[10][0];
        },
        new LambdaInstruction<double, double, double, double, double, double,
                              double, double, double, double, double>(
            [](double a, double b, double d, double e, double f, double g,
               double h, double i, double j, double k, double l) {
                return l + 2.0 * a - b + 3.0 * d - e + f - 4.0 * g + h - i +
                       5.0 * j - 6.0 * k + l;
            },
            "$0 = $11 + 2.0 * $1 - $2 + 3.0 * $3 - $4 + $5 - 4.0 * $6 + $7 - "
            "$8 + 5.0 * $9 - 6.0 * $10 + $11;"));
    cat.back().codegenOnly = true;
    return cat;
}

// --------------------------------------------------------- environment -----
std::vector<std::reference_wrapper<const Data::DataHandler>> World::refs() const
{
    std::vector<std::reference_wrapper<const Data::DataHandler>> r;
    for (auto& s : srcs)
        r.push_back(((const Src&)*s).dh());
    return r;
}

SrcModel World::operandSource(size_t idx, const std::vector<double>& regs,
                              const std::vector<double>& consts) const
{
    if (idx == 0)
        return SrcModel{ED, false, false, nbRegs, 1, &regs};
    idx--;
    if (nbConst > 0) {
        if (idx == 0)
            return SrcModel{EC, false, false, nbConst, 1, &consts};
        idx--;
    }
    return modelOf(*srcs.at(idx));
}

bool World::provides(size_t idx, const OpType& t) const
{
    static const std::vector<double> none;
    return modelSpace(operandSource(idx, none, none), t) > 0;
}

size_t World::largestSpace() const
{
    size_t r = std::max(nbRegs, nbConst);
    for (auto& s : srcs)
        r = std::max(r, s->size());
    return r;
}

std::string World::describe() const
{
    std::ostringstream o;
    o << "env: " << nbRegs << " registers, " << nbConst << " constants, {";
    for (auto& s : srcs)
        o << " " << s->describe();
    o << " } instructions {";
    for (auto i : ins)
        o << " " << i->name;
    o << " }";
    return o.str();
}

std::unique_ptr<World> genWorld(Ctx& c, const WorldOpts& o)
{
    auto w = std::make_unique<World>();
    w->nbRegs = (size_t)c.in((int64_t)o.minRegs, (int64_t)o.maxRegs);
    w->nbConst =
        o.maxConst > 0 && c.chance(1, 2) ? (size_t)c.in(1, (int64_t)o.maxConst)
                                         : 0;
    size_t ns = (size_t)c.in(1, (int64_t)o.maxSrc);
    for (size_t i = 0; i < ns; i++)
        w->srcs.push_back(genSrc(c, o.doubleOnly, o.maxDim));
    if (o.large > 0) {
        bool twoD = c.chance(1, 2);
        size_t n = (size_t)c.in(2, (int64_t)o.large);
        size_t h = twoD ? (size_t)c.in(1, (int64_t)std::min<size_t>(n, 600)) : 1;
        Elem e = o.doubleOnly ? ED : (Elem)c.pick(std::vector<int>{ED, ED, EI, EF, EU});
        Shape sh = twoD ? (c.chance(1, 2) ? SH_ARRAY2D : SH_WRAP2D) : (c.chance(1, 2) ? SH_ARRAY : SH_WRAP);
        auto s = makeSrc(e, sh, std::max<size_t>(1, n / h), h);
        uint64_t k = c.below(1u << 30) * 2 + 1;
        for (size_t i = 0; i < s->size(); i++)
            s->set(i, (double)((i * k) % 30011 % 251) + (e == ED || e == EF ? 0.125 * (double)(i % 7) : 0.0));
        w->srcs.insert(w->srcs.begin() + (long)c.below(w->srcs.size() + 1), std::move(s));
    }
    if (o.rich) {
        auto s = makeSrc(ED, c.chance(1, 2) ? SH_ARRAY : SH_WRAP, (size_t)c.in(4, 9), 1);
        fillSrc(c, *s);
        w->srcs.insert(w->srcs.begin() + (long)c.below(w->srcs.size() + 1), std::move(s));
    }
    // The first two instructions guarantee a usable environment.
    const auto& cat = catalogue();
    std::vector<const Ins*> usable;
    for (auto& i : cat) {
        if (o.finiteOnly && i.mayBeNonFinite)
            continue;
        if (o.codegen ? i.lib->getPrintTemplate().empty() : i.codegenOnly)
            continue;
        usable.push_back(&i);
    }
    // First, simple instructions that any environment can run.
    std::vector<const Ins*> simple;
    for (auto i : usable) {
        bool all = true;
        for (auto& t : i->ops)
            all &= t.elem == ED && t.rank == 0;
        if (all)
            simple.push_back(i);
    }
    size_t n = (size_t)c.in(0, (int64_t)o.maxIns - 2);
    size_t p0 = c.below(simple.size());
    size_t p1 = c.below(simple.size());
    w->offered.push_back(simple[p0]);
    w->offered.push_back(simple[p1]);
    if (o.rich) // instructions able to produce many different values
        for (auto i : simple)
            if (i->name == "sub" || i->name == "negHalf")
                w->offered.push_back(i);
    for (size_t i = 0; i < n; i++)
        w->offered.insert(w->offered.begin() +
                              (long)c.below(w->offered.size() + 1),
                          c.pick(usable));
    static const std::vector<double> none;
    for (auto i : w->offered) {
        w->set.add(*i->lib);
        bool all = true;
        for (auto& t : i->ops) {
            bool any = false;
            for (size_t s = 0; s < w->nbOperandSources(); s++)
                any |= w->provides(s, t);
            all &= any;
        }
        if (all)
            w->ins.push_back(i);
    }
    w->env = std::make_unique<Environment>(w->set, w->refs(), w->nbRegs,
                                           w->nbConst);
    return w;
}

void refill(Ctx& c, World& w)
{
    for (auto& s : w.srcs)
        fillSrc(c, *s);
}

// ------------------------------------------------------------ programs -----
MLine genLine(Ctx& c, const World& w, bool smallLoc)
{
    MLine l;
    l.ins = c.below(w.ins.size());
    l.dest = c.below(w.nbRegs);
    size_t maxOps = w.env->getMaxNbOperands();
    size_t largest = w.env->getLargestAddressSpace();
    for (size_t i = 0; i < maxOps; i++) {
        uint64_t src;
        if (i < w.ins[l.ins]->ops.size()) {
            std::vector<uint64_t> ok;
            for (size_t s = 0; s < w.nbOperandSources(); s++)
                if (w.provides(s, w.ins[l.ins]->ops[i]))
                    ok.push_back(s);
            // Registers are favoured: data flow between lines.
            if (ok.front() == 0 && c.chance(1, 2))
                src = 0;
            else
                src = c.pick(ok);
        }
        else
            src = c.below(w.nbOperandSources());
        uint64_t loc = c.below(largest);
        if (smallLoc && src == 0)
            loc %= w.nbRegs;
        l.ops.push_back({src, loc});
    }
    return l;
}

MProg genProg(Ctx& c, const World& w, size_t maxLines)
{
    MProg m;
    for (size_t i = 0; i < w.nbConst; i++)
        m.consts.push_back(c.chance(1, 12) ? (double)c.in(INT32_MIN, INT32_MAX) : (double)c.in(-20, 20));
    size_t n = (size_t)c.in(0, (int64_t)maxLines);
    for (size_t i = 0; i < n; i++)
        m.lines.push_back(genLine(c, w));
    return m;
}

void writeLine(const MLine& m, Program::Line& l)
{
    l.setInstructionIndex(m.ins);
    l.setDestinationIndex(m.dest);
    for (size_t i = 0; i < m.ops.size(); i++)
        l.setOperand(i, m.ops[i].first, m.ops[i].second);
}

std::shared_ptr<Program::Program> build(const World& w, const MProg& m)
{
    auto p = std::make_shared<Program::Program>(*w.env);
    for (size_t i = 0; i < m.consts.size(); i++)
        p->getConstantHandler().setDataAt(
            typeid(Data::Constant), i, Data::Constant{(int32_t)m.consts[i]});
    for (auto& ml : m.lines)
        writeLine(ml, p->addNewLine());
    return p;
}

MProg readProg(const World& w, const Program::Program& p)
{
    MProg m;
    for (size_t i = 0; i < w.nbConst; i++)
        m.consts.push_back((double)p.getConstantAt(i));
    for (size_t i = 0; i < p.getNbLines(); i++) {
        const Program::Line& l = p.getLine(i);
        MLine ml;
        ml.ins = l.getInstructionIndex();
        ml.dest = l.getDestinationIndex();
        for (size_t k = 0; k < w.env->getMaxNbOperands(); k++)
            ml.ops.push_back(l.getOperand(k));
        m.lines.push_back(ml);
    }
    return m;
}

std::string describe(const World& w, const MProg& m)
{
    std::ostringstream o;
    for (auto& l : m.lines) {
        o << "  r" << l.dest << " = "
          << (l.ins < w.ins.size() ? w.ins[l.ins]->name : "?") << "(";
        for (size_t i = 0; i < l.ops.size(); i++)
            o << (i ? ", " : "") << l.ops[i].first << "@" << l.ops[i].second;
        o << ");";
    }
    if (!m.consts.empty()) {
        o << " consts[";
        for (auto k : m.consts)
            o << k << " ";
        o << "]";
    }
    return o.str();
}

double refRunOn(const World& w, const MProg& m,
                const std::vector<SrcModel>& srcs, std::vector<double>* out)
{
    std::vector<double> regs(w.nbRegs, 0.0);
    for (auto& l : m.lines) {
        const Ins& ins = *w.ins.at(l.ins);
        Args args;
        for (size_t i = 0; i < ins.ops.size(); i++) {
            size_t idx = l.ops[i].first;
            SrcModel s = w.operandSource(idx, regs, m.consts);
            size_t off = w.nbOperandSources() - w.srcs.size();
            if (idx >= off)
                s = srcs.at(idx - off);
            size_t space = modelSpace(s, ins.ops[i]);
            if (space == 0)
                throw pbt::Failure("reference: operand not provided");
            std::vector<double> v;
            for (size_t a :
                 modelAddresses(s, ins.ops[i], l.ops[i].second % space))
                v.push_back(s.values->at(a));
            args.push_back(v);
        }
        regs.at(l.dest) = ins.ref(args);
    }
    if (out)
        *out = regs;
    return regs.at(0);
}

double refRun(const World& w, const MProg& m, std::vector<double>* regs)
{
    std::vector<SrcModel> s;
    for (auto& x : w.srcs)
        s.push_back(modelOf(*x));
    return refRunOn(w, m, s, regs);
}

std::vector<bool> refUseful(const World& w, const MProg& m)
{
    std::vector<bool> useful(m.lines.size(), false);
    std::set<size_t> live{0};
    static const std::vector<double> none;
    for (size_t k = m.lines.size(); k-- > 0;) {
        const MLine& l = m.lines[k];
        if (!live.count(l.dest))
            continue;
        useful[k] = true;
        live.erase(l.dest);
        const Ins& ins = *w.ins.at(l.ins);
        for (size_t i = 0; i < ins.ops.size(); i++) {
            if (l.ops[i].first != 0)
                continue;
            SrcModel s = w.operandSource(0, none, none);
            size_t space = modelSpace(s, ins.ops[i]);
            for (size_t a : modelAddresses(s, ins.ops[i], l.ops[i].second % space))
                live.insert(a);
        }
    }
    return useful;
}

std::string invalidity(const World& w, const MLine& l)
{
    std::ostringstream o;
    if (l.ins >= w.ins.size()) {
        o << "instruction index " << l.ins << " of " << w.ins.size();
        return o.str();
    }
    if (l.dest >= w.nbRegs) {
        o << "destination register " << l.dest << " of " << w.nbRegs;
        return o.str();
    }
    const Ins& ins = *w.ins[l.ins];
    for (size_t i = 0; i < l.ops.size(); i++) {
        if (l.ops[i].first >= w.nbOperandSources()) {
            o << "operand " << i << " has source index " << l.ops[i].first
              << " of " << w.nbOperandSources();
            return o.str();
        }
        if (l.ops[i].second >= w.largestSpace()) {
            o << "operand " << i << " has location " << l.ops[i].second
              << " of " << w.largestSpace();
            return o.str();
        }
        if (i < ins.ops.size() && !w.provides(l.ops[i].first, ins.ops[i])) {
            o << "operand " << i << " (" << ins.ops[i].name << ") of "
              << ins.name << " cannot be provided by source "
              << l.ops[i].first;
            return o.str();
        }
    }
    return "";
}

// -------------------------------------------------------------- graphs -----
void genGraph(Ctx& c, const World& w, TPG::TPGGraph& g, const GraphOpts& o)
{
    size_t na = (size_t)c.in(1, (int64_t)o.maxActions);
    size_t nt = (size_t)c.in(0, (int64_t)o.maxTeams);
    std::vector<const TPG::TPGVertex*> targets;
    std::vector<const TPG::TPGVertex*> teams;
    // Interleave the creation of actions and teams.
    size_t a = 0, t = 0;
    while (a < na || t < nt) {
        if (a < na && (a == 0 || t >= nt || c.chance(1, 2))) {
            uint64_t id = o.uniqueActions ? o.actionBase + a * o.actionStep : c.below(o.maxActions);
            targets.push_back(&g.addNewAction(id));
            a++;
        }
        else {
            teams.push_back(&g.addNewTeam());
            t++;
        }
    }
    std::vector<std::shared_ptr<Program::Program>> progs;
    std::map<Program::Program*, const TPG::TPGVertex*> progDest;
    for (auto team : teams) {
        size_t ne = (size_t)c.in(1, (int64_t)o.maxEdges);
        for (size_t e = 0; e < ne; e++) {
            std::shared_ptr<Program::Program> p;
            if (!progs.empty() && c.chance(1, 3)) {
                p = c.pick(progs);
                if (!o.ties)
                    for (auto edge : team->getOutgoingEdges())
                        if (&edge->getProgram() == p.get())
                            p = nullptr;
            }
            const TPG::TPGVertex* dest = c.pick(targets);
            if (!p) {
                p = build(w, genProg(c, w, o.maxLines));
                progs.push_back(p);
                progDest[p.get()] = dest;
            }
            else if (!o.shareProgramsFreely) {
                dest = progDest.at(p.get());
            }
            g.addNewEdge(*team, *dest, p);
        }
        targets.push_back(team);
    }
}

std::map<const TPG::TPGVertex*, size_t> numbering(const TPG::TPGGraph& g)
{
    std::map<const TPG::TPGVertex*, size_t> r;
    size_t n = 0;
    for (auto v : g.getVertices())
        r[v] = n++;
    return r;
}

std::string describe(const World& w, const TPG::TPGGraph& g, bool programs)
{
    std::ostringstream o;
    auto num = numbering(g);
    std::map<const Program::Program*, size_t> pn;
    for (auto v : g.getVertices()) {
        if (auto a = dynamic_cast<const TPG::TPGAction*>(v)) {
            o << "v" << num[v] << "=action" << a->getActionID() << "; ";
            continue;
        }
        o << "v" << num[v] << "=team{";
        for (auto e : v->getOutgoingEdges()) {
            auto p = &e->getProgram();
            if (!pn.count(p)) {
                size_t k = pn.size();
                pn[p] = k;
            }
            o << " P" << pn[p] << "->v" << num[e->getDestination()];
        }
        o << " }; ";
    }
    if (programs)
    {
        std::vector<const Program::Program*> order(pn.size());
        for (auto& x : pn)
            order[x.second] = x.first;
        for (size_t i = 0; i < order.size(); i++)
            o << "\n P" << i << ":" << describe(w, readProg(w, *order[i]));
    }
    return o.str();
}

double refBid(const World& w, const TPG::TPGEdge& e)
{
    double r = refRun(w, readProg(w, e.getProgram()));
    return std::isnan(r) ? -std::numeric_limits<double>::infinity() : r;
}

std::vector<const TPG::TPGVertex*> refPath(const World& w,
                                           const TPG::TPGVertex& root)
{
    std::vector<const TPG::TPGVertex*> path{&root};
    while (dynamic_cast<const TPG::TPGAction*>(path.back()) == nullptr) {
        const TPG::TPGEdge* best = nullptr;
        double bestBid = 0;
        for (auto e : path.back()->getOutgoingEdges()) {
            double b = refBid(w, *e);
            if (best == nullptr || b >= bestBid) {
                best = e;
                bestBid = b;
            }
        }
        if (best == nullptr)
            throw pbt::Failure("reference: team without edge");
        path.push_back(best->getDestination());
        if (path.size() > 10000)
            throw pbt::Failure("reference: cyclic graph");
    }
    return path;
}

std::string graphProblem(const TPG::TPGGraph& g)
{
    std::ostringstream o;
    auto vs = g.getVertices();
    std::set<const TPG::TPGVertex*> set(vs.begin(), vs.end());
    if (set.size() != vs.size())
        return "a vertex is listed twice";
    if (g.getNbVertices() != vs.size())
        return "getNbVertices differs from getVertices";
    std::set<const TPG::TPGEdge*> edges;
    for (auto& e : g.getEdges())
        if (!edges.insert(e.get()).second)
            return "an edge is listed twice";
    std::map<const TPG::TPGEdge*, int> in, out;
    for (auto v : vs) {
        if (!g.hasVertex(*v))
            return "hasVertex denies a listed vertex";
        for (auto e : v->getIncomingEdges()) {
            if (!edges.count(e))
                return "a vertex has an incoming edge that is not in the graph";
            if (e->getDestination() != v)
                return "an incoming edge leads to another vertex";
            in[e]++;
        }
        for (auto e : v->getOutgoingEdges()) {
            if (!edges.count(e))
                return "a vertex has an outgoing edge that is not in the graph";
            if (e->getSource() != v)
                return "an outgoing edge comes from another vertex";
            out[e]++;
        }
        if (dynamic_cast<const TPG::TPGAction*>(v) &&
            !v->getOutgoingEdges().empty())
            return "an action has an outgoing edge";
    }
    for (auto e : edges) {
        if (!set.count(e->getSource()))
            return "the source of an edge is not in the graph";
        if (!set.count(e->getDestination()))
            return "the destination of an edge is not in the graph";
        if (in[e] != 1)
            return "an edge is registered " + std::to_string(in[e]) +
                   " times at its destination";
        if (out[e] != 1)
            return "an edge is registered " + std::to_string(out[e]) +
                   " times at its source";
    }
    std::vector<const TPG::TPGVertex*> roots;
    for (auto v : vs)
        if (v->getIncomingEdges().empty())
            roots.push_back(v);
    auto listed = g.getRootVertices();
    if (std::set<const TPG::TPGVertex*>(roots.begin(), roots.end()) !=
            std::set<const TPG::TPGVertex*>(listed.begin(), listed.end()) ||
        listed.size() != roots.size())
        return "getRootVertices is not the set of vertices without incoming edge";
    if (g.getNbRootVertices() != roots.size())
        return "getNbRootVertices differs from getRootVertices";
    return "";
}

bool hasCycle(const TPG::TPGGraph& g)
{
    std::map<const TPG::TPGVertex*, int> state;
    std::function<bool(const TPG::TPGVertex*)> go =
        [&](const TPG::TPGVertex* v) {
            state[v] = 1;
            for (auto e : v->getOutgoingEdges()) {
                int s = state[e->getDestination()];
                if (s == 1 || (s == 0 && go(e->getDestination())))
                    return true;
            }
            state[v] = 2;
            return false;
        };
    for (auto v : g.getVertices())
        if (state[v] == 0 && go(v))
            return true;
    return false;
}

} // namespace gg

// The identifiers of the data sources are numbered by a counter of the process,
// and the hashes of the data depend on them.
namespace {
struct Ambient {
    Ambient()
    {
        pbt::ambientGet = [] {
            Data::PrimitiveTypeArray<double> a(1);
            return (uint64_t)a.getId();
        };
        pbt::ambientSet = [](uint64_t v) {
            for (uint64_t n = 0; n <= v; n++) {
                Data::PrimitiveTypeArray<double> a(1);
                if (a.getId() >= v)
                    break;
            }
        };
    }
};
}
static Ambient ambient;
