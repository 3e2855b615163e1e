// C09: data sources give access to exactly their content.
#include "gg.h"
#include <algorithm>
#include <limits>
using pbt::Ctx;
using namespace gg;

#ifdef NDEBUG
static const bool checked = false;
#else
static const bool checked = true;
#endif

#define T0(E, T) OpType{E, 0, 0, 0, &typeid(T), #T}
#define T1(E, T, N) OpType{E, 1, N, 0, &typeid(T[N]), #T "[" #N "]"}, OpType{E, 1, N, 0, &typeid(const T[N]), "const " #T "[" #N "]"}
#define T2(E, T, N, M) OpType{E, 2, N, M, &typeid(T[N][M]), #T "[" #N "][" #M "]"}, OpType{E, 2, N, M, &typeid(const T[N][M]), "const " #T "[" #N "][" #M "]"}
#define ALL(E, T)                                                                                                      \
    T0(E, T), T1(E, T, 1), T1(E, T, 2), T1(E, T, 3), T1(E, T, 5), T1(E, T, 8), T1(E, T, 12), T2(E, T, 1, 1),           \
        T2(E, T, 1, 3), T2(E, T, 2, 1), T2(E, T, 2, 2), T2(E, T, 2, 3), T2(E, T, 3, 2), T2(E, T, 5, 4), T2(E, T, 1, 10)
static const std::vector<OpType>& types()
{
    static const std::vector<OpType> t = {ALL(ED, double), ALL(EI, int), ALL(EF, float), ALL(EU, uint8_t), ALL(EC, Data::Constant)};
    return t;
}

template <class T> static double val(const T& v) { return (double)v; }

template <class T> static std::vector<double> content(const Data::DataHandler& d, const OpType& t, size_t address, size_t n)
{
    std::vector<double> r;
    Data::UntypedSharedPtr p = d.getDataAt(*t.type, address);
    if (t.rank == 0)
        r.push_back(val(*p.getSharedPointer<const T>()));
    else {
        auto a = p.getSharedPointer<const T[]>();
        for (size_t i = 0; i < n; i++)
            r.push_back(val(a.get()[i]));
    }
    return r;
}
static std::vector<double> read(const Data::DataHandler& d, const OpType& t, size_t address, size_t n)
{
    switch (t.elem) {
    case ED:
        return content<double>(d, t, address, n);
    case EI:
        return content<int>(d, t, address, n);
    case EF:
        return content<float>(d, t, address, n);
    case EU:
        return content<uint8_t>(d, t, address, n);
    default:
        return content<Data::Constant>(d, t, address, n);
    }
}

static void access(Ctx& c, const Src& s, const Data::DataHandler& d, bool scalarOnly = false)
{
    SrcModel m = modelOf(s);
    c.eq(d.getLargestAddressSpace(), s.size(), "largest address space");
    c.check(d.getNativeType() == *[&]() -> const std::type_info* {
        for (auto& t : types())
            if (t.elem == s.elem && t.rank == 0)
                return t.type;
        return nullptr;
    }(), "native type");
    auto dims = d.getDimensionsSize();
    if (m.twoD) {
        c.eq(dims.size(), (size_t)2, "number of dimensions");
        c.eq(dims[0], s.h, "first dimension (height)");
        c.eq(dims[1], s.w, "second dimension (width)");
    }
    else {
        c.eq(dims.size(), (size_t)1, "number of dimensions");
        c.eq(dims[0], s.size(), "dimension");
    }
    // a random order, so that a cached answer is not always the first one
    std::vector<size_t> order(types().size());
    for (size_t i = 0; i < order.size(); i++)
        order[i] = i;
    for (size_t i = order.size(); i-- > 1;)
        std::swap(order[i], order[c.below(i + 1)]);
    size_t stop = c.thorough ? order.size() : 40;
    for (size_t i = 0; i < stop; i++) {
        const OpType& t = types()[order[i]];
        // std::type_info ignores top-level const only: const T[N] is a distinct type
        size_t space = modelSpace(m, t);
        if (scalarOnly && t.rank > 0)
            continue; // the copy of a pointed value is an array of one element
        c.eq(d.getAddressSpace(*t.type), space, "address space of ", t.name);
        c.eq(d.canHandle(*t.type), space > 0, "canHandle(", t.name, ")");
        c.eq(d.getAddressSpace(*t.type), space, "second address space of ", t.name);
        if (space == 0) {
            c.check(d.getAddressesAccessed(*t.type, 0).empty(), "addresses accessed for a type that is not provided");
            bool domain = false;
            try {
                d.scaleLocation(c.below(1000), *t.type);
            }
            catch (std::domain_error&) {
                domain = true;
            }
            c.check(domain, "scaleLocation of an unsupported type does not throw std::domain_error");
            if (checked) {
                bool thrown = false;
                try {
                    d.getDataAt(*t.type, 0);
                }
                catch (std::invalid_argument&) {
                    thrown = true;
                }
                c.check(thrown, "getDataAt(", t.name, ") does not throw std::invalid_argument");
            }
            continue;
        }
        if (t.rank > 0 && t.type != nullptr)
            c.label("array types");
        for (size_t a = 0; a < space; a++) {
            auto idx = modelAddresses(m, t, a);
            c.check(d.getAddressesAccessed(*t.type, a) == idx, "addresses accessed by ", t.name, " at ", a);
            auto got = read(d, t, a, idx.size());
            for (size_t k = 0; k < idx.size(); k++)
                c.check(sameDouble(got[k], s.values.at(idx[k])), t.name, " at ", a, ": element ", k, " is ", show(got[k]), ", expected ", show(s.values.at(idx[k])));
            uint64_t raw = a + space * c.below(1000);
            c.eq(d.scaleLocation(raw, *t.type), a, "scaled location");
        }
        c.check(d.getAddressesAccessed(*t.type, space).empty(), "addresses accessed out of bounds");
        if (checked) {
            bool thrown = false;
            try {
                d.getDataAt(*t.type, space + c.below(3));
            }
            catch (std::out_of_range&) {
                thrown = true;
            }
            c.check(thrown, "getDataAt(", t.name, ") out of bounds does not throw std::out_of_range");
        }
    }
}

static std::unique_ptr<Src> gen(Ctx& c)
{
    Elem e = (Elem)c.below(5);
    Shape sh = (Shape)c.below(5);
    if (e == EC && sh == SH_PTR)
        sh = SH_ARRAY;
    size_t w = sh == SH_PTR ? 1 : (size_t)c.in(1, 13);
    size_t h = sh == SH_ARRAY2D || sh == SH_WRAP2D ? (size_t)c.in(1, 6) : 1;
    auto s = makeSrc(e, sh, w, h);
    fillSrc(c, *s);
    return s;
}

static void sources(Ctx& c)
{
    auto s = gen(c);
    c.note(s->describe());
    size_t rounds = (size_t)c.in(1, 2);
    for (size_t r = 0; r < rounds; r++) {
        access(c, *s, s->dh());
        if (c.chance(1, 2)) {
            std::unique_ptr<Data::DataHandler> k(s->dh().clone());
            access(c, *s, *k, s->shape == SH_PTR);
            c.label("clones");
        }
        for (size_t i = 0; i < 3; i++)
            s->set(c.below(s->size()), c.smallReal());
    }
    if (s->size() > 2)
        c.nontrivial();
}

template <class T> static void pointersOf(Ctx& c)
{
    size_t w = (size_t)c.in(1, 6), h = (size_t)c.in(1, 5);
    int kind = (int)c.below(3);
    std::unique_ptr<Data::DataHandler> d;
    Data::ArrayWrapper<T>* a = nullptr;
    Data::PointerWrapper<T>* p = nullptr;
    if (kind == 0)
        d.reset(a = new Data::ArrayWrapper<T>(w * h));
    else if (kind == 1)
        d.reset(a = new Data::Array2DWrapper<T>(w, h));
    else
        d.reset(p = new Data::PointerWrapper<T>());
    c.note(kind == 0 ? "ArrayWrapper " : kind == 1 ? "Array2DWrapper " : "PointerWrapper ", w, "x", h);
    bool thrown = false;
    try {
        d->getDataAt(typeid(T), 0);
    }
    catch (std::runtime_error&) {
        thrown = true;
    }
    c.check(thrown, "access through a null pointer does not throw std::runtime_error");
    c.eq(d->getAddressSpace(typeid(T)), p ? (size_t)1 : w * h, "address space without data");
    if (a) {
        std::vector<T> bad(w * h + 1 + c.below(3)), small(w * h - 1), good(w * h), other(w * h);
        for (auto x : {&bad, &small}) {
            thrown = false;
            try {
                a->setPointer(x);
            }
            catch (std::domain_error&) {
                thrown = true;
            }
            c.check(thrown, "a vector of the wrong size is accepted");
        }
        for (size_t i = 0; i < w * h; i++) {
            good[i] = T((int)(i + 1));
            other[i] = T((int)(100 - i));
        }
        a->setPointer(&good);
        for (size_t i = 0; i < w * h; i++)
            c.check(*a->getDataAt(typeid(T), i).template getSharedPointer<const T>() == good[i], "wrong element ", i);
        size_t h1 = a->getHash();
        a->setPointer(&other);
        for (size_t i = 0; i < w * h; i++)
            c.check(*a->getDataAt(typeid(T), i).template getSharedPointer<const T>() == other[i], "wrong element ", i, " after a change of pointer");
        c.check(a->getHash() != h1, "the hash does not follow the pointer");
        a->setPointer(&good);
        c.eq(a->getHash(), h1, "hash of the same content");
        a->resetData();
        c.check(good[0] == T(1), "resetData of a wrapper altered the data");
        a->setPointer(nullptr);
        thrown = false;
        try {
            a->getDataAt(typeid(T), 0);
        }
        catch (std::runtime_error&) {
            thrown = true;
        }
        c.check(thrown, "access after setPointer(nullptr) does not throw");
    }
    else {
        T x = T(5), y = T(9);
        p->setPointer(&x);
        size_t h1 = p->getHash();
        c.check(*p->getDataAt(typeid(T), 0).template getSharedPointer<const T>() == x, "wrong value");
        x = T(6);
        c.check(*p->getDataAt(typeid(T), 0).template getSharedPointer<const T>() == x, "wrong value");
        c.check(p->getHash() != h1, "the hash does not follow the value");
        p->setPointer(&y);
        c.check(*p->getDataAt(typeid(T), 0).template getSharedPointer<const T>() == y, "wrong value");
        p->resetData();
        c.check(y == T(9), "resetData of a wrapper altered the data");
    }
    c.nontrivial();
}
static void pointers(Ctx& c)
{
    switch (c.below(4)) {
    case 0:
        return pointersOf<double>(c);
    case 1:
        return pointersOf<int>(c);
    case 2:
        return pointersOf<float>(c);
    default:
        return pointersOf<uint8_t>(c);
    }
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C09";
    cfg.rule = "Random sources (5 shapes, 5 element types, up to 13x6), all the scalar, 1D and 2D operand types of 5 element types in random order, every address: address space, elements read, addresses reported, scaling; clones; exceptions of invalid types and addresses in a build with assertions under AddressSanitizer; wrappers with null and changing pointers. Non-trivial: more than two elements, or a wrapper.";
    cfg.subs = {{"sources", sources, checked ? 700u : 2500u, checked ? 10000u : 60000u}, {"pointers", pointers, 1000, 10000}};
    return pbt::run(argc, argv, cfg);
}
