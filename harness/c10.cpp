// C10: copies of data are faithful and independent, hashes identify contents.
#include "gg.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;

// Histories on a pool of handlers of one type.
template <class T> struct Obj {
    std::unique_ptr<Data::DataHandler> d;
    Data::PrimitiveTypeArray<T>* a1 = nullptr;
    Data::PrimitiveTypeArray2D<T>* a2 = nullptr;
    Data::ArrayWrapper<T>* w = nullptr; // wrapper of `store`
    Data::PointerWrapper<T>* p = nullptr;
    std::shared_ptr<std::vector<T>> store;
    size_t group; // copies of each other
    size_t width, height;
    bool twoD;
    std::vector<T> model;
    size_t hash = 0; // last hash seen, with this content
    bool hashed = false;
};

template <class T> static T gen(Ctx& c)
{
    if (c.chance(1, 3))
        return T((int)c.below(2));
    return T((int)c.in(-100, 100));
}
template <class T> static bool eqv(const T& a, const T& b) { return a == b; }

template <class T> static void run(Ctx& c)
{
    std::vector<Obj<T>> pool;
    size_t groups = 0;
    size_t n = (size_t)c.in(2, c.thorough ? 60 : 30);
    size_t copies = 0, assigns = 0;
    auto type = [](const Obj<T>& o) { return o.a1 ? "Array" : o.a2 ? "Array2D" : o.p ? "Ptr" : o.twoD ? "Wrapper2D" : "Wrapper"; };
    auto adopt = [&](Obj<T>& o) {
        o.a1 = dynamic_cast<Data::PrimitiveTypeArray<T>*>(o.d.get());
        o.a2 = dynamic_cast<Data::PrimitiveTypeArray2D<T>*>(o.d.get());
        if (!o.a1 && !o.a2)
            c.fail("the clone is neither a PrimitiveTypeArray nor a PrimitiveTypeArray2D");
    };
    for (size_t k = 0; k < n; k++) {
        size_t op = pool.empty() ? 0 : c.below(12);
        if (op <= 1 && pool.size() < 8) {
            Obj<T> o;
            o.group = groups++;
            int kind = (int)c.below(5);
            o.twoD = kind == 1 || kind == 3;
            bool big = c.chance(1, 6);
            o.width = kind == 4 ? 1 : (size_t)c.in(1, big ? 140 : 4);
            o.height = o.twoD ? (size_t)c.in(1, 3) : 1;
            size_t sz = o.width * o.height;
            o.model.assign(sz, T(0));
            switch (kind) {
            case 0:
                o.d.reset(o.a1 = new Data::PrimitiveTypeArray<T>(sz));
                o.a1->resetData();
                break;
            case 1:
                o.d.reset(o.a2 = new Data::PrimitiveTypeArray2D<T>(o.width, o.height));
                o.a2->resetData();
                break;
            case 4:
                o.store = std::make_shared<std::vector<T>>(1, T(0));
                o.d.reset(o.p = new Data::PointerWrapper<T>(o.store->data()));
                break;
            default:
                o.store = std::make_shared<std::vector<T>>(sz, T(0));
                if (o.twoD)
                    o.d.reset(o.w = new Data::Array2DWrapper<T>(o.width, o.height, o.store.get()));
                else
                    o.d.reset(o.w = new Data::ArrayWrapper<T>(sz, o.store.get()));
            }
            c.note("#", pool.size(), " = new ", type(o), " ", o.width, "x", o.height);
            pool.push_back(std::move(o));
        }
        else if (op <= 6) {
            size_t i = c.below(pool.size());
            Obj<T>& o = pool[i];
            size_t times = c.chance(1, 3) ? 2 : 1;
            for (size_t t = 0; t < times; t++) {
                size_t at = c.below(o.model.size());
                T v = gen<T>(c);
                o.model[at] = v;
                if (o.a1)
                    o.a1->setDataAt(typeid(T), at, v);
                else if (o.a2)
                    o.a2->setDataAt(typeid(T), at, v);
                else {
                    (*o.store)[at] = v;
                    if (o.w)
                        o.w->invalidateCachedHash();
                }
                o.hashed = false;
                c.note("#", i, "[", at, "] = ", (double)v);
            }
        }
        else if (op == 7) {
            size_t i = c.below(pool.size());
            Obj<T>& o = pool[i];
            o.d->resetData();
            if (!o.w && !o.p) {
                o.model.assign(o.model.size(), T(0));
                o.hashed = false;
            }
            c.note("#", i, " reset");
        }
        else if (op == 8 || op == 9) {
            // copy: clone, or copy constructor
            size_t i = c.below(pool.size());
            if (pool.size() >= 8)
                continue;
            Obj<T> o;
            Obj<T>& s = pool[i];
            o.group = s.group;
            o.width = s.width;
            o.height = s.height;
            o.twoD = s.twoD;
            o.model = s.model;
            bool hashFirst = c.chance(1, 2);
            size_t h = hashFirst ? s.d->getHash() : 0;
            if (c.chance(1, 2) || s.w || s.p) {
                o.d.reset(s.d->clone());
                adopt(o);
            }
            else if (s.a1)
                o.d.reset(o.a1 = new Data::PrimitiveTypeArray<T>(*s.a1));
            else
                o.d.reset(o.a2 = new Data::PrimitiveTypeArray2D<T>(*s.a2));
            if (s.twoD)
                c.check(o.a2 != nullptr, "the copy of a 2D source is not 2D");
            if (hashFirst)
                c.eq(o.d->getHash(), h, "hash of a fresh copy");
            copies++;
            c.note("#", pool.size(), " = copy of #", i);
            pool.push_back(std::move(o));
        }
        else if (op == 10) {
            // assignment
            size_t i = c.below(pool.size()), j = c.below(pool.size());
            Obj<T>&x = pool[i], &y = pool[j];
            bool two = x.a2 && y.a2;
            if (!(x.a1 && y.a1) && !two)
                continue;
            if (two && x.model.size() == y.model.size() && x.width != y.width)
                continue; // not specified
            bool thrown = false;
            if (c.chance(1, 2))
                x.d->getHash();
            try {
                if (two)
                    *x.a2 = *y.a2;
                else
                    *x.a1 = *y.a1;
            }
            catch (std::domain_error&) {
                thrown = true;
            }
            c.eq(thrown, x.model.size() != y.model.size(), "std::domain_error on assignment");
            if (!thrown) {
                x.model = y.model;
                x.hashed = false;
                assigns++;
            }
            c.note("#", i, " = #", j, thrown ? " (refused)" : "");
        }
        else if (pool.size() > 1) {
            size_t i = c.below(pool.size());
            pool.erase(pool.begin() + (long)i);
            c.note("#", i, " deleted");
        }
        // Everything has the expected content
        for (size_t i = 0; i < pool.size(); i++) {
            Obj<T>& o = pool[i];
            c.eq(o.d->getLargestAddressSpace(), o.model.size(), "size of #", i);
            if (o.model.size() > 20 && !c.chance(1, 4) && k + 1 < n)
                continue;
            for (size_t a = 0; a < o.model.size(); a++) {
                T v = *o.d->getDataAt(typeid(T), a).template getSharedPointer<const T>();
                c.check(eqv(v, o.model[a]), "#", i, "[", a, "] is ", (double)v, ", expected ", (double)o.model[a]);
            }
            auto dims = o.d->getDimensionsSize();
            c.check(o.twoD ? dims == std::vector<size_t>{o.height, o.width} : dims == std::vector<size_t>{o.model.size()}, "dimensions of #", i);
        }
        // Hashes: asked for some of them only, so that caches live
        for (size_t i = 0; i < pool.size(); i++) {
            Obj<T>& o = pool[i];
            if (!c.chance(1, 2))
                continue;
            size_t h = o.d->getHash();
            if (o.hashed)
                c.eq(h, o.hash, "hash of #", i, ", which did not change");
            o.hash = h;
            o.hashed = true;
            c.eq(o.d->getHash(), h, "second hash of #", i);
        }
        for (size_t i = 0; i < pool.size(); i++)
            for (size_t j = 0; j < i; j++) {
                Obj<T>&x = pool[i], &y = pool[j];
                c.eq(x.d->getId() == y.d->getId(), x.group == y.group, "identifiers of #", i, " and #", j);
                if (!x.hashed || !y.hashed)
                    continue;
                bool same = x.group == y.group && x.model == y.model;
                c.check((x.hash == y.hash) == same, "hashes of #", j, " and #", i, " are ", same ? "different, for the same content of copies" : "equal, for different sources or contents");
            }
    }
    if (copies)
        c.label("copies", copies);
    if (assigns)
        c.label("assignments", assigns);
    if (copies + assigns > 0)
        c.nontrivial();
}
static void histories(Ctx& c)
{
    switch (c.below(4)) {
    case 0:
        return run<double>(c);
    case 1:
        return run<int>(c);
    case 2:
        return run<float>(c);
    default:
        return run<uint8_t>(c);
    }
}

// Different contents have different hashes, also combined.
static void collisions(Ctx& c)
{
    size_t ns = (size_t)c.in(1, 4);
    std::vector<std::unique_ptr<Src>> srcs;
    std::vector<std::reference_wrapper<const Data::DataHandler>> refs;
    Elem e = (Elem)c.below(4);
    size_t total = 0;
    for (size_t i = 0; i < ns; i++) {
        bool big = c.chance(1, 3);
        Shape sh = (Shape)c.below(5);
        size_t w = sh == SH_PTR ? 1 : (size_t)c.in(1, big ? 200 : 5), h = sh == SH_ARRAY2D || sh == SH_WRAP2D ? (size_t)c.in(1, big ? 70 : 4) : 1;
        srcs.push_back(makeSrc(c.chance(3, 4) ? e : (Elem)c.below(4), sh, w, h));
        refs.push_back(((const Src&)*srcs.back()).dh());
        total += srcs.back()->size();
        c.note(shapeName(sh), "<", elemName(srcs.back()->elem), "> ", w, "x", h);
    }
    // few distinct values: changes that could cancel each other
    std::map<size_t, std::vector<std::vector<double>>> seen;
    std::map<std::vector<std::vector<double>>, size_t> contents;
    size_t n = 60;
    for (size_t k = 0; k < n; k++) {
        size_t changes = (size_t)c.in(1, 3);
        for (size_t i = 0; i < changes; i++) {
            Src& s = *c.pick(srcs);
            size_t at = c.below(s.size());
            int kind = (int)c.below(3);
            size_t other = kind == 0 ? c.below(s.size()) : (at + 64 * c.below(3)) % s.size();
            if (kind == 2) {
                // two elements take the same value
                double v = (double)c.below(2);
                s.set(at, v);
                s.set(other, v);
            }
            else {
                double v = s.values[at];
                s.set(at, s.values[other]);
                s.set(other, v);
                s.set(c.below(s.size()), (double)c.below(3));
            }
        }
        std::vector<std::vector<double>> now;
        for (auto& s : srcs)
            now.push_back(s->values);
        size_t h = Archive::getCombinedHash(refs);
        auto it = seen.find(h);
        c.check(it == seen.end() || it->second == now, "two different contents have the same combined hash");
        auto jt = contents.find(now);
        c.check(jt == contents.end() || jt->second == h, "the same content has two hashes");
        seen[h] = now;
        contents[now] = h;
    }
    if (total > 64) {
        c.label("more than 64 elements");
    }
    if (total > 1)
        c.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C10";
    cfg.rule = "histories: random creations, modifications, resets, clones, copies, assignments and deletions in a pool of up to 8 sources of any shape and of 4 element types, contents, identifiers and hashes compared with a model after each operation; collisions: sequences of local changes of few values in up to 4 sources of up to 14000 elements, all the combined hashes of distinct contents must differ. Non-trivial: at least one copy or assignment; more than one element.";
    cfg.assumptions = {"two hashes of different contents collide with a negligible probability (fixed seeds give fixed hashes)"};
    cfg.subs = {{"histories", histories, 150000, 3000000}, {"collisions", collisions, 20000, 300000}};
    return pbt::run(argc, argv, cfg);
}
