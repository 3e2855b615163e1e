// C25: random numbers are within their bounds, uniform, and a function of the
// seed.
#include "pbt.h"
#include <cmath>
#include <gegelati.h>
#include <memory>
#include <unordered_set>
using pbt::Ctx;
using Mutator::RNG;
typedef unsigned __int128 u128;

// ------------------------------------------------------------------ draws --
struct Draw {
    int kind = 0; // 0 unsigned 64 bits, 1 signed 32 bits, 2 double
    uint64_t umin = 0, umax = 0;
    int32_t imin = 0, imax = 0;
    double dmin = 0, dmax = 0;
};

struct Value {
    uint64_t u = 0; // offset from the lower bound for integers
    double d = 0;
    bool operator==(const Value& o) const { return u == o.u && d == o.d; }
};

static std::string text(const Draw& d)
{
    std::ostringstream o;
    o.precision(17);
    if (d.kind == 0)
        o << "getUnsignedInt64(" << d.umin << ", " << d.umax << ")";
    else if (d.kind == 1)
        o << "getInt32(" << d.imin << ", " << d.imax << ")";
    else
        o << "getDouble(" << d.dmin << ", " << d.dmax << ")";
    return o.str();
}

// Number of values minus one.
static uint64_t width(const Draw& d)
{
    return d.kind == 0 ? d.umax - d.umin : (uint64_t)((int64_t)d.imax - d.imin);
}

// Draws, and checks the bounds.
static Value draw(Ctx& c, RNG& r, const Draw& d)
{
    Value v;
    if (d.kind == 0) {
        uint64_t x = r.getUnsignedInt64(d.umin, d.umax);
        c.check(x >= d.umin && x <= d.umax, text(d), " gives ", x);
        v.u = x - d.umin;
    }
    else if (d.kind == 1) {
        int32_t x = r.getInt32(d.imin, d.imax);
        c.check(x >= d.imin && x <= d.imax, text(d), " gives ", x);
        v.u = (uint64_t)((int64_t)x - d.imin);
    }
    else {
        v.d = r.getDouble(d.dmin, d.dmax);
        c.check(v.d >= d.dmin && v.d <= d.dmax, text(d), " gives ", v.d);
    }
    return v;
}

// An interval with `w` + 1 values.
static Draw interval(Ctx& c, int kind, uint64_t w)
{
    Draw d;
    d.kind = kind;
    if (kind == 0) {
        uint64_t room = UINT64_MAX - w;
        switch (c.below(4)) {
        case 0: d.umin = 0; break;
        case 1: d.umin = std::min<uint64_t>(room, c.below(1000)); break;
        case 2: d.umin = room - std::min<uint64_t>(room, c.below(10)); break;
        default: d.umin = room == UINT64_MAX ? c.below(0) : c.below(room + 1);
        }
        d.umax = d.umin + w;
    }
    else {
        uint64_t room = UINT32_MAX - w;
        int64_t lo;
        switch (c.below(4)) {
        case 0: lo = std::min<int64_t>(INT32_MAX - (int64_t)w, 0); break;
        case 1: lo = std::max<int64_t>(INT32_MIN, std::min<int64_t>(INT32_MAX - (int64_t)w, -(int64_t)c.below(w + 2))); break;
        case 2: lo = c.chance(1, 2) ? INT32_MIN : INT32_MAX - (int64_t)w; break;
        default: lo = INT32_MIN + (int64_t)c.below(room + 1);
        }
        d.imin = (int32_t)lo;
        d.imax = (int32_t)(lo + (int64_t)w);
    }
    return d;
}

static Draw reals(Ctx& c)
{
    Draw d;
    d.kind = 2;
    switch (c.below(4)) {
    case 0: d.dmin = 0, d.dmax = 1; break;
    case 1: d.dmin = c.smallReal(), d.dmax = d.dmin + std::abs(c.smallReal()); break;
    case 2: d.dmin = c.real(), d.dmax = c.real(); break;
    default: d.dmin = d.dmax = c.real();
    }
    if (d.dmin > d.dmax)
        std::swap(d.dmin, d.dmax);
    if (!std::isfinite(d.dmax - d.dmin))
        d.dmin = 0, d.dmax = std::abs(d.dmax);
    return d;
}

static uint64_t wide(Ctx& c, int kind)
{
    uint64_t all = kind == 0 ? UINT64_MAX : UINT32_MAX;
    int bits = kind == 0 ? 64 : 32;
    switch (c.below(6)) {
    case 0: return all;
    case 1: return all - c.below(3);
    case 2: return (all >> 2) * 3 - c.below(2); // three quarters
    case 3: return (all >> 1) + (uint64_t)c.in(-2, 2);
    case 4: { // around a power of two
        int b = (int)c.in(17, bits - 1);
        return (1ull << b) + (uint64_t)c.in(-2, 2);
    }
    default: {
        uint64_t w = kind == 0 ? c.below(0) : c.below(1ull << 32);
        return std::max<uint64_t>(w >> c.below((uint64_t)bits - 17), 1u << 16);
    }
    }
}

static Draw anyDraw(Ctx& c)
{
    int kind = (int)c.below(3);
    if (kind == 2)
        return reals(c);
    return interval(c, kind, c.chance(1, 2) ? c.below(12) : wide(c, kind));
}

static uint64_t anySeed(Ctx& c)
{
    switch (c.below(4)) {
    case 0: return c.below(20);
    case 1: return (1ull << c.below(64)) - c.below(2);
    case 2: return c.below(1ull << 32);
    default: return c.below(0);
    }
}

// ------------------------------------------------------------- histories ---
struct Gen {
    std::unique_ptr<RNG> rng;
    uint64_t seed;
    std::vector<Draw> draws;
    std::vector<Value> values;
};

static void histories(Ctx& c)
{
    std::vector<Gen> gens;
    auto fresh = [&](uint64_t seed) {
        Gen g;
        g.seed = seed;
        g.rng = seed == 0 && c.chance(1, 2) ? std::make_unique<RNG>() : std::make_unique<RNG>(seed);
        gens.push_back(std::move(g));
        c.note("generator ", gens.size() - 1, " with seed ", seed);
    };
    auto replays = [&](const Gen& g, const char* what) {
        RNG r(g.seed);
        for (size_t i = 0; i < g.draws.size(); i++)
            c.check(draw(c, r, g.draws[i]) == g.values[i], what, ": draw ", i, ", ", text(g.draws[i]), ", differs from that of a new generator with seed ", g.seed);
    };
    fresh(anySeed(c));
    size_t n = (size_t)c.in(1, 24), nbCopies = 0, nbSeeds = 0;
    for (size_t k = 0; k < n; k++) {
        size_t i = c.below(gens.size());
        switch (c.below(8)) {
        case 0:
            if (gens.size() < 5)
                fresh(c.chance(1, 2) ? gens[i].seed : anySeed(c));
            break;
        case 1:
            if (gens.size() < 5) {
                Gen g;
                g.rng = std::make_unique<RNG>(*gens[i].rng);
                g.seed = gens[i].seed;
                g.draws = gens[i].draws;
                g.values = gens[i].values;
                gens.push_back(std::move(g));
                c.note("generator ", gens.size() - 1, " is a copy of ", i);
                nbCopies++;
            }
            break;
        case 2: {
            Gen& g = gens[i];
            g.seed = c.chance(1, 2) ? gens[c.below(gens.size())].seed : anySeed(c);
            g.rng->setSeed(g.seed);
            g.draws.clear();
            g.values.clear();
            c.note("generator ", i, " gets seed ", g.seed);
            nbSeeds++;
            break;
        }
        case 3:
            if (gens.size() > 1) {
                replays(gens[i], "before the destruction");
                c.note("generator ", i, " is destroyed");
                gens.erase(gens.begin() + (long)i);
            }
            break;
        default: {
            Gen& g = gens[i];
            size_t m = c.chance(1, 8) ? 330 : (size_t)c.in(1, 6);
            Draw d = anyDraw(c);
            c.note("generator ", i, ": ", m, " x ", text(d));
            for (size_t j = 0; j < m; j++) {
                g.draws.push_back(d);
                g.values.push_back(draw(c, *g.rng, d));
            }
        }
        }
    }
    for (auto& g : gens)
        replays(g, "at the end");
    // Same state, same future
    Draw full = interval(c, 0, UINT64_MAX);
    for (size_t i = 0; i < gens.size(); i++) {
        RNG a(*gens[i].rng), b(gens[i].seed);
        for (auto& d : gens[i].draws)
            draw(c, b, d);
        for (int k = 0; k < 3; k++)
            c.check(draw(c, a, full) == draw(c, b, full), "future draws of generator ", i);
    }
    // Another seed, other numbers
    uint64_t s = anySeed(c), t = c.chance(1, 2) ? s ^ (1ull << c.below(64)) : anySeed(c);
    if (s != t) {
        RNG a(s), b(t);
        int same = 0;
        for (int k = 0; k < 4; k++)
            same += draw(c, a, full) == draw(c, b, full);
        c.check(same < 3, "seeds ", s, " and ", t, " give the same numbers");
    }
    c.label("copies", nbCopies);
    c.label("seeds set", nbSeeds);
    c.nontrivial(nbCopies + nbSeeds > 0 && gens[0].draws.size() > 0);
}

// ------------------------------------------------------------ uniformity ---
// Threshold crossed with a probability below exp(-25) (Laurent and Massart).
static double limit(size_t cells)
{
    double d = (double)cells - 1;
    return d + 2 * std::sqrt(d * 25) + 50;
}

// `weights` sum to 1.
static void chi2(Ctx& c, const std::vector<size_t>& counts, const std::vector<double>& weights, const Draw& d, const char* what)
{
    double n = 0, x2 = 0;
    for (auto x : counts)
        n += (double)x;
    for (size_t i = 0; i < counts.size(); i++) {
        double e = n * weights[i];
        x2 += ((double)counts[i] - e) * ((double)counts[i] - e) / e;
    }
    if (x2 > limit(counts.size())) {
        std::ostringstream o;
        for (size_t i = 0; i < counts.size() && i < 20; i++)
            o << " " << counts[i] << "/" << n * weights[i];
        c.fail(text(d), ": ", what, " not uniform, chi2 = ", x2, " for ", counts.size(), " cells:", o.str());
    }
}

static void uniform(Ctx& c)
{
    uint64_t seed = anySeed(c);
    RNG r(seed);
    Draw d;
    int mode = (int)c.below(3);
    int kind = (int)c.below(2);
    bool mixed = c.chance(1, 3); // other draws are interleaved
    Draw between = anyDraw(c);
    std::vector<Value> v;
    auto gather = [&](size_t n) {
        c.note("seed ", seed, ", ", n, " x ", text(d), mixed ? " after each time " + text(between) : "");
        for (size_t i = 0; i < n; i++) {
            if (mixed)
                draw(c, r, between);
            v.push_back(draw(c, r, d));
        }
    };
    std::vector<size_t> cell;
    size_t cells = 0;
    std::vector<double> weights;
    if (mode == 0) {
        // few values
        uint64_t w = c.in(1, 40);
        d = interval(c, kind, w);
        cells = w + 1;
        gather(60 * cells);
        weights.assign(cells, 1.0 / (double)cells);
        for (auto& x : v)
            cell.push_back(x.u);
        std::vector<size_t> counts(cells);
        for (auto x : cell)
            counts[x]++;
        for (size_t i = 0; i < cells; i++)
            c.check(counts[i] > 0, text(d), ": value ", i, " of ", cells, " is never drawn in ", v.size(), " draws");
        c.label("few values");
    }
    else if (mode == 1) {
        uint64_t w = wide(c, kind);
        d = interval(c, kind, w);
        cells = (size_t)c.in(2, 12);
        gather(4000);
        u128 size = (u128)w + 1;
        std::vector<u128> per(cells);
        for (size_t i = 0; i < cells; i++) {
            // number of values whose cell is i
            u128 lo = (size * i + cells - 1) / cells, hi = (size * (i + 1) + cells - 1) / cells;
            weights.push_back((double)(hi - lo) / (double)size);
        }
        for (auto& x : v)
            cell.push_back((size_t)((u128)x.u * cells / size));
        // low bits
        std::vector<size_t> low(16);
        for (auto& x : v)
            low[x.u % 16]++;
        std::vector<double> lw(16);
        for (size_t i = 0; i < 16; i++)
            lw[i] = (double)((size - i + 15) / 16) / (double)size;
        chi2(c, low, lw, d, "low bits");
        c.label("many values");
    }
    else {
        d = reals(c);
        if (d.dmin == d.dmax)
            d.dmax = d.dmin + 1;
        if (d.dmin == d.dmax)
            c.discard();
        size_t n = 4000;
        double range = d.dmax - d.dmin;
        double ulp = std::nextafter(std::max(std::abs(d.dmin), std::abs(d.dmax)), INFINITY) - std::max(std::abs(d.dmin), std::abs(d.dmax));
        if (range / ulp < 1e6)
            c.discard();
        cells = (size_t)c.in(2, 12);
        gather(n);
        weights.assign(cells, 1.0 / (double)cells);
        for (auto& x : v) {
            double f = (x.d - d.dmin) / range;
            cell.push_back(std::min(cells - 1, (size_t)(f * (double)cells)));
        }
        if (range / ulp > 1e15) {
            std::unordered_set<double> all;
            size_t dup = 0;
            for (auto& x : v)
                dup += !all.insert(x.d).second;
            c.check(dup < 3, text(d), ": ", dup, " values are drawn twice in ", n, " draws");
        }
        c.label("reals");
    }
    std::vector<size_t> counts(cells);
    for (auto x : cell)
        counts[x]++;
    chi2(c, counts, weights, d, "values are");
    // successive values
    size_t q = cells <= 6 ? cells : 4;
    std::vector<double> one(q), pw;
    std::vector<size_t> fold(cells);
    for (size_t i = 0; i < cells; i++) {
        fold[i] = i * q / cells;
        one[fold[i]] += weights[i];
    }
    bool enough = true;
    for (size_t a = 0; a < q; a++)
        for (size_t b = 0; b < q; b++) {
            pw.push_back(one[a] * one[b]);
            enough &= pw.back() * (double)(cell.size() / 2) >= 8;
        }
    if (enough) {
        std::vector<size_t> pairs(q * q);
        for (size_t i = 0; i + 1 < cell.size(); i += 2)
            pairs[fold[cell[i]] * q + fold[cell[i + 1]]]++;
        chi2(c, pairs, pw, d, "pairs of successive values are");
        c.label("pairs");
    }
    c.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C25";
    cfg.rule = "histories: at least one copy or change of seed, and one draw; uniform: every case kept (intervals reduced to one value, or too narrow for the precision of a double, are discarded)";
    cfg.assumptions = {
        "lower bounds do not exceed upper bounds, bounds of doubles are finite and so is their difference",
        "uniformity is judged by chi-square tests whose threshold is crossed with a probability below exp(-25) by a uniform source",
    };
    cfg.subs = {
        {"histories", histories, 100000, 1000000},
        {"uniform", uniform, 15000, 200000},
    };
    return pbt::run(argc, argv, cfg);
}
