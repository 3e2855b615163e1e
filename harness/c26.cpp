// C26: typed operands and instructions.
#include "gg.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;
using Data::UntypedSharedPtr;

// ------------------------------------------------------ untyped pointers ---
static int live = 0;     // Tracked objects alive
static int deletions = 0; // calls to custom deleters
struct Tracked {
    int v = 0;
    Tracked() { live++; }
    Tracked(const Tracked&) = delete;
    virtual ~Tracked() { live--; }
};
struct Derived : Tracked {
    double w = 1.5;
};

// A type that may be stored or asked for. `family` is shared by a type and its
// const variant.
struct Type {
    std::string name;
    int family;
    bool isConst;
    const std::type_info* info;
    // Creation: returns the untyped pointer, and the address of the object
    std::function<UntypedSharedPtr(int how, const void*& where)> make;
    // Access: the address of the object, with a keeper
    std::function<std::shared_ptr<const void>(const UntypedSharedPtr&, const void*& where)> get;
    bool tracked = false;
    bool array = false;
};

template <class T> static const void* addressOf(T* p) { return (const void*)const_cast<const std::remove_const_t<T>*>(p); }

template <class T> struct DeleteCounting {
    void operator()(T* p) const
    {
        deletions++;
        delete p;
    }
};

template <class T> static Type scalar(const std::string& n, int family, bool tracked = false)
{
    Type t;
    t.name = n;
    t.family = family;
    t.isConst = std::is_const_v<T>;
    t.info = &typeid(T);
    t.tracked = tracked;
    t.make = [](int how, const void*& where) {
        T* p = new std::remove_const_t<T>();
        where = addressOf(p);
        if (how == 0)
            return UntypedSharedPtr(p);
        if (how == 1)
            return UntypedSharedPtr(p, DeleteCounting<T>());
        return UntypedSharedPtr(std::make_shared<UntypedSharedPtr::Model<T>>(p, DeleteCounting<T>()));
    };
    t.get = [](const UntypedSharedPtr& u, const void*& where) -> std::shared_ptr<const void> {
        std::shared_ptr<T> p = u.getSharedPointer<T>();
        where = addressOf(p.get());
        return p;
    };
    return t;
}
template <class T> static Type arrayOf(const std::string& n, int family, bool tracked = false)
{
    Type t;
    t.name = n;
    t.family = family;
    t.isConst = std::is_const_v<T>;
    t.info = &typeid(T[]);
    t.tracked = tracked;
    t.array = true;
    t.make = [](int, const void*& where) {
        T* p = new std::remove_const_t<T>[3]();
        where = addressOf(p);
        return UntypedSharedPtr(std::make_shared<UntypedSharedPtr::Model<T[]>>(p));
    };
    t.get = [](const UntypedSharedPtr& u, const void*& where) -> std::shared_ptr<const void> {
        std::shared_ptr<T> p = u.getSharedPointer<T[]>();
        where = addressOf(p.get());
        return p;
    };
    return t;
}

static const std::vector<Type>& types()
{
    static std::vector<Type> r;
    if (!r.empty())
        return r;
    int f = 0;
#define SCALAR(T, ...)                                                         \
    r.push_back(scalar<T>(#T, f, ##__VA_ARGS__));                              \
    r.push_back(scalar<const T>("const " #T, f++, ##__VA_ARGS__));
#define ARRAY(T, ...)                                                          \
    r.push_back(arrayOf<T>(#T "[]", f, ##__VA_ARGS__));                        \
    r.push_back(arrayOf<const T>("const " #T "[]", f++, ##__VA_ARGS__));
    SCALAR(double)
    SCALAR(int)
    SCALAR(float)
    SCALAR(uint8_t)
    SCALAR(uint64_t)
    SCALAR(char)
    SCALAR(std::string)
    SCALAR(Data::Constant)
    SCALAR(Tracked, true)
    SCALAR(Derived, true)
    ARRAY(double)
    ARRAY(int)
    ARRAY(uint8_t)
    ARRAY(Data::Constant)
    ARRAY(Tracked, true)
    return r;
}

struct Obj {
    const Type* t;
    const void* where;
    int how;
    int holders = 0; // untyped pointers and shared pointers
};

static void untyped(Ctx& c)
{
    auto& all = types();
    live = deletions = 0;
    int expLive = 0, expDel = 0;
    std::vector<Obj> objs;
    struct U {
        UntypedSharedPtr p;
        size_t obj;
    };
    struct S {
        std::shared_ptr<const void> p;
        size_t obj;
        size_t order;
    };
    std::vector<U> us;
    std::vector<S> ss;
    size_t refused = 0, given = 0, n = (size_t)c.in(1, 30);
    auto released = [&](size_t o) {
        if (--objs[o].holders == 0) {
            expLive -= objs[o].t->tracked ? (objs[o].t->array ? 3 : 1) : 0;
            expDel += !objs[o].t->array && objs[o].how > 0;
        }
    };
    auto counts = [&](const char* when) {
        c.eq(live, expLive, "objects alive ", when);
        c.eq(deletions, expDel, "calls to the deleters ", when);
    };
    auto create = [&] {
        Obj o{&c.pick(all), nullptr, (int)c.below(3), 1};
        UntypedSharedPtr p = o.t->make(o.how, o.where);
        c.note("object ", objs.size(), ": ", o.t->name, ", construction ", o.how);
        expLive += o.t->tracked ? (o.t->array ? 3 : 1) : 0;
        us.push_back({p, objs.size()});
        objs.push_back(o);
    };
    create();
    for (size_t k = 0; k < n; k++) {
        size_t op = c.below(9);
        if (us.empty() || op == 0) {
            create();
        }
        else if (op == 1) {
            us.push_back(us[c.below(us.size())]);
            objs[us.back().obj].holders++;
            c.note("copy of an untyped pointer to ", us.back().obj);
        }
        else if (op == 2) {
            size_t i = c.below(us.size());
            size_t o = us[i].obj;
            c.note("an untyped pointer to ", o, " disappears");
            us.erase(us.begin() + (long)i);
            released(o);
        }
        else if (op == 3 && !ss.empty()) {
            size_t i = c.below(ss.size());
            size_t o = ss[i].obj;
            c.note("a shared pointer to ", o, " disappears");
            ss.erase(ss.begin() + (long)i);
            released(o);
        }
        else if (op == 4) {
            // assignment
            size_t i = c.below(us.size()), j = c.below(us.size());
            size_t old = us[i].obj;
            c.note("untyped pointer to ", old, " is replaced with one to ", us[j].obj);
            objs[us[j].obj].holders++;
            us[i].p = us[j].p;
            us[i].obj = us[j].obj;
            released(old);
        }
        else {
            size_t i = c.below(us.size());
            const Obj& o = objs[us[i].obj];
            // often a close type
            const Type* t = &c.pick(all);
            if (c.chance(1, 2)) {
                std::vector<const Type*> close;
                for (auto& x : all)
                    if (x.family == o.t->family)
                        close.push_back(&x);
                t = c.pick(close);
            }
            bool ok = t->family == o.t->family && (t->isConst || !o.t->isConst);
            c.note("object ", us[i].obj, " asked as ", t->name);
            c.check(us[i].p.getType() == *o.t->info, "getType() is not ", o.t->name);
            bool thrown = false;
            const void* where = nullptr;
            try {
                auto p = t->get(us[i].p, where);
                if (ok) {
                    objs[us[i].obj].holders++;
                    ss.push_back({p, us[i].obj, k});
                }
            }
            catch (const std::runtime_error&) {
                thrown = true;
            }
            c.check(thrown != ok, "a ", o.t->name, thrown ? " is not given as a " : " is given as a ", t->name);
            if (ok)
                c.check(where == o.where, "another object is given");
            (ok ? given : refused)++;
        }
        counts("after an operation");
    }
    // everything goes, in any order
    while (!us.empty() || !ss.empty()) {
        size_t i = c.below(us.size() + ss.size());
        size_t o;
        if (i < us.size()) {
            o = us[i].obj;
            us.erase(us.begin() + (long)i);
        }
        else {
            i -= us.size();
            o = ss[i].obj;
            ss.erase(ss.begin() + (long)i);
        }
        released(o);
        counts("at the end");
    }
    c.label("given", given);
    c.label("refused", refused);
    c.nontrivial(given > 0 && refused > 0);
}

// ---------------------------------------------------------- instructions ---
template <class T> static UntypedSharedPtr operandOf(const std::vector<double>& v, bool array, bool constant)
{
    auto val = [](double d) {
        if constexpr (std::is_same_v<T, Data::Constant>)
            return Data::Constant{(int32_t)d};
        else
            return (T)d;
    };
    if (!array) {
        T* p = new T(val(v.at(0)));
        if (constant)
            return UntypedSharedPtr((const T*)p);
        return UntypedSharedPtr(p);
    }
    T* p = new T[v.size()];
    for (size_t i = 0; i < v.size(); i++)
        p[i] = val(v[i]);
    if (constant)
        return UntypedSharedPtr(std::make_shared<UntypedSharedPtr::Model<const T[]>>(p));
    return UntypedSharedPtr(std::make_shared<UntypedSharedPtr::Model<T[]>>(p));
}
static UntypedSharedPtr operand(Elem e, const std::vector<double>& v, bool array, bool constant)
{
    switch (e) {
    case ED: return operandOf<double>(v, array, constant);
    case EI: return operandOf<int>(v, array, constant);
    case EF: return operandOf<float>(v, array, constant);
    case EU: return operandOf<uint8_t>(v, array, constant);
    default: return operandOf<Data::Constant>(v, array, constant);
    }
}
static std::vector<double> values(Ctx& c, Elem e, size_t n)
{
    std::vector<double> r;
    for (size_t i = 0; i < n; i++)
        switch (e) {
        case ED: r.push_back(c.chance(1, 2) ? c.real() : c.smallReal()); break;
        case EF: r.push_back(c.smallReal()); break;
        case EU: r.push_back((double)c.below(256)); break;
        default: r.push_back(c.chance(1, 5) ? (double)c.in(INT32_MIN, INT32_MAX) : (double)c.in(-2000, 2000));
        }
    return r;
}

static void instructions(Ctx& c)
{
    std::vector<const Ins*> offered;
    for (auto& i : catalogue())
        offered.push_back(&i);
    Instructions::Set set;
    std::vector<const Ins*> model;
    size_t n = (size_t)c.in(0, 10);
    for (size_t k = 0; k < n; k++) {
        model.push_back(c.pick(offered));
        c.check(set.add(*model.back()->lib), "add");
        if (c.chance(1, 3)) {
            Instructions::Set copy(set);
            c.eq(copy.getNbInstructions(), model.size(), "instructions of the copy of a set");
        }
    }
    c.eq(set.getNbInstructions(), model.size(), "instructions of the set");
    size_t most = 0;
    for (size_t k = 0; k < n; k++) {
        c.check(&set.getInstruction(k) == model[k]->lib.get(), "instruction ", k, " of the set");
        most = std::max(most, model[k]->ops.size());
    }
    c.eq(set.getMaxNbOperands(), most, "maximum number of operands");
    bool thrown = false;
    try {
        set.getInstruction(n + (c.chance(1, 4) ? UINT64_MAX - n : c.below(3)));
    }
    catch (const std::out_of_range&) {
        thrown = true;
    }
    c.check(thrown, "a missing instruction is given");

    size_t calls = (size_t)c.in(1, 6), bad = 0, good = 0;
    for (size_t k = 0; k < calls; k++) {
        const Ins& ins = model.empty() ? *c.pick(offered) : *c.pick(model);
        c.eq(ins.lib->getNbOperands(), ins.ops.size(), "operands of ", ins.name);
        for (size_t i = 0; i < ins.ops.size(); i++)
            c.check(ins.lib->getOperandTypes().at(i).get() == *ins.ops[i].type, "type of operand ", i, " of ", ins.name);
        // The last one or two may not be operands of the instruction
        std::vector<UntypedSharedPtr> args;
        std::vector<std::vector<double>> vals;
        std::ostringstream o;
        int wrong = 0; // 1: types, 2: too few, 3: too many
        for (auto& t : ins.ops) {
            size_t len = t.rank == 0 ? 1 : (size_t)(t.a * (t.rank == 2 ? t.b : 1));
            auto v = values(c, t.elem, len);
            vals.push_back(v);
            Elem e = t.elem;
            bool array = t.rank > 0, constant = c.chance(1, 2);
            if (c.chance(1, 12)) {
                if (c.chance(1, 2))
                    array = !array;
                else {
                    e = (Elem)c.below(5);
                    if (e != t.elem)
                        v = values(c, e, len);
                }
                if (array != (t.rank > 0) || e != t.elem)
                    wrong = 1;
            }
            o << " " << (constant ? "const " : "") << elemName(e) << (array ? "[]" : "") << "(";
            for (auto x : v)
                o << x << " ";
            o << ")";
            args.push_back(operand(e, v, array, constant));
        }
        if (c.chance(1, 12)) {
            wrong = 2;
            args.pop_back();
            o << " without the last one";
        }
        else if (c.chance(1, 12)) {
            wrong = wrong == 1 ? 1 : 3;
            args.push_back(operand(ED, {1.0}, false, true));
            o << " and one more";
        }
        c.note(ins.name, o.str());
        c.check(ins.lib->checkOperandTypes(args) == (wrong == 0), ins.name, ": operands are ", wrong ? "accepted" : "refused");
        if (wrong == 0) {
            good++;
            double e = ins.ref(vals);
            for (int r = 0; r < 2; r++) {
                double g = ins.lib->execute(args);
                c.check(sameDouble(g, e), ins.name, " gives ", show(g), ", expected ", show(e));
            }
        }
        else {
            bad++;
#ifdef NDEBUG
            // No verification is made on the number of operands in excess.
            if (wrong != 3) {
                bool refused = false;
                try {
                    ins.lib->execute(args);
                }
                catch (const std::exception&) {
                    refused = true;
                }
                c.check(refused, ins.name, " is executed on wrong operands");
            }
#else
            double g = ins.lib->execute(args);
            c.check(g == 0.0, ins.name, " gives ", show(g), " on wrong operands");
#endif
        }
    }
    c.label("right operands", good);
    c.label("wrong operands", bad);
    c.nontrivial(good > 0);
}

// Instructions made by the user: the function gets the operands, in order, and
// is called once.
static std::vector<double> seen;
static int nbCalls = 0;
template <class T> static void see(const T& v)
{
    if constexpr (std::is_same_v<T, Data::Constant>)
        seen.push_back((double)v.value);
    else
        seen.push_back((double)v);
}
static void functions(Ctx& c)
{
    using namespace Instructions;
    struct Fn {
        std::string name;
        std::vector<std::pair<Elem, size_t>> ops; // length 0: not an array
        std::shared_ptr<Instruction> ins;
    };
    static std::vector<Fn> fns;
    if (fns.empty()) {
        fns.push_back({"three", {{ED, 0}, {EI, 0}, {EU, 0}}, std::make_shared<LambdaInstruction<double, int, uint8_t>>([](double a, int b, uint8_t d) { nbCalls++; see(a); see(b); see(d); return 3.25; })});
        fns.push_back({"array and scalar", {{ED, 4}, {EI, 0}}, std::make_shared<LambdaInstruction<const double[4], int>>([](const double a[4], int b) { nbCalls++; for (int i = 0; i < 4; i++) see(a[i]); see(b); return -1.5; })});
        fns.push_back({"2D and 1D arrays", {{EI, 6}, {EF, 2}, {ED, 0}}, std::make_shared<LambdaInstruction<const int[2][3], const float[2], double>>([](const int a[2][3], const float b[2], double d) { nbCalls++; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) see(a[i][j]); see(b[0]); see(b[1]); see(d); return 8.0; })});
        fns.push_back({"constants", {{EC, 0}, {EC, 3}, {EC, 0}}, std::make_shared<LambdaInstruction<Data::Constant, const Data::Constant[3], Data::Constant>>([](Data::Constant a, const Data::Constant b[3], Data::Constant d) { nbCalls++; see(a); for (int i = 0; i < 3; i++) see(b[i]); see(d); return 0.5; })});
        fns.push_back({"five", {{ED, 0}, {ED, 0}, {ED, 2}, {ED, 0}, {ED, 0}}, std::make_shared<LambdaInstruction<double, double, const double[2], double, double>>([](double a, double b, const double d[2], double e, double f) { nbCalls++; see(a); see(b); see(d[0]); see(d[1]); see(e); see(f); return 1e300; })});
    }
    const double results[] = {3.25, -1.5, 8.0, 0.5, 1e300};
    size_t n = (size_t)c.in(1, 4);
    for (size_t k = 0; k < n; k++) {
        size_t f = c.below(fns.size());
        Fn& fn = fns[f];
        std::vector<UntypedSharedPtr> args;
        std::vector<double> want;
        for (auto& o : fn.ops) {
            auto v = values(c, o.first, std::max<size_t>(o.second, 1));
            if (o.first == EF || o.first == ED)
                for (auto& x : v)
                    x = o.first == EF ? (double)(float)x : x;
            want.insert(want.end(), v.begin(), v.end());
            args.push_back(operand(o.first, v, o.second > 0, c.chance(1, 2)));
        }
        seen.clear();
        nbCalls = 0;
        double g = fn.ins->execute(args);
        c.eq(nbCalls, 1, "calls of the function of ", fn.name);
        c.eq(seen.size(), want.size(), "values given to ", fn.name);
        for (size_t i = 0; i < want.size(); i++)
            c.check(sameDouble(seen[i], want[i]), "value ", i, " given to ", fn.name, " is ", show(seen[i]), ", expected ", show(want[i]));
        c.check(g == results[f], fn.name, " gives ", show(g));
    }
    c.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C26";
    cfg.rule = "untyped: an object given and a request refused; instructions: an execution on right operands; functions: every case";
    cfg.assumptions = {"arrays given as operands have at least the number of elements that the instruction reads",
                       "operands in excess are not verified when the library is compiled with NDEBUG"};
#if defined(__SANITIZE_ADDRESS__)
    const uint64_t scale = 4;
#else
    const uint64_t scale = 1;
#endif
    cfg.subs = {
        {"untyped", untyped, 400000 / scale, 6000000 / scale},
        {"instructions", instructions, 300000 / scale, 6000000 / scale},
        {"functions", functions, 60000 / scale, 100000 / scale},
    };
    return pbt::run(argc, argv, cfg);
}
