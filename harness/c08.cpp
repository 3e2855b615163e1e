// C08: the archive is a bounded FIFO of recordings, with faithful copies of the data.
#include "gg.h"
#include <algorithm>
#include <deque>
#include <limits>
using pbt::Ctx;
using namespace gg;

struct Rec {
    size_t prog;
    size_t hash;
    double result;
};
struct Content { // what the sources contained
    std::vector<std::vector<double>> values;
};

static void checkArchive(Ctx& c, const Archive& a, const std::deque<Rec>& model, const std::map<size_t, Content>& contents,
                         const std::vector<std::shared_ptr<Program::Program>>& progs, const World& w)
{
    c.eq(a.getNbRecordings(), model.size(), "number of recordings");
    std::set<size_t> hashes;
    for (size_t i = 0; i < model.size(); i++) {
        const ArchiveRecording& r = a.at(i);
        c.check(r.prog == progs[model[i].prog].get(), "recording ", i, " is of another program");
        c.eq(r.dataHash, model[i].hash, "hash of recording ", i);
        c.check(sameDouble(r.result, model[i].result), "result of recording ", i, " is ", show(r.result), ", expected ", show(model[i].result));
        hashes.insert(model[i].hash);
    }
    bool thrown = false;
    try {
        a.at(model.size());
    }
    catch (std::out_of_range&) {
        thrown = true;
    }
    c.check(thrown, "a recording is accessible after the last one");
    c.eq(a.getNbDataHandlers(), hashes.size(), "number of archived sets of data");
    c.eq(a.getDataHandlers().size(), hashes.size(), "number of archived sets of data");
    for (auto& x : contents)
        c.eq(a.hasDataHandlers(x.first), hashes.count(x.first) > 0, "hasDataHandlers of a set of data ", hashes.count(x.first) ? "in use" : "that is not used any more");
    for (auto& x : a.getDataHandlers()) {
        c.check(hashes.count(x.first), "a set of data is kept without any recording");
        const Content& m = contents.at(x.first);
        c.eq(x.second.size(), w.srcs.size(), "data handlers of an archived set");
        c.eq(Archive::getCombinedHash(x.second), x.first, "hash of the copies");
        for (size_t s = 0; s < w.srcs.size(); s++) {
            const Data::DataHandler& d = x.second[s].get();
            c.check(&d != &((const Src&)*w.srcs[s]).dh(), "the archive refers to the original data");
            for (size_t i = 0; i < m.values[s].size(); i++) {
                double v = 0;
                switch (w.srcs[s]->elem) {
                case ED:
                    v = *d.getDataAt(typeid(double), i).getSharedPointer<const double>();
                    break;
                case EF:
                    v = *d.getDataAt(typeid(float), i).getSharedPointer<const float>();
                    break;
                case EI:
                    v = *d.getDataAt(typeid(int), i).getSharedPointer<const int>();
                    break;
                default:
                    v = *d.getDataAt(typeid(uint8_t), i).getSharedPointer<const uint8_t>();
                }
                c.check(sameDouble(v, m.values[s][i]), "archived data ", s, "[", i, "] is ", show(v), ", it was ", show(m.values[s][i]), " when recorded");
            }
        }
    }
}

static bool close(double a, double b, double tau)
{
    if (std::isinf(a) || std::isinf(b))
        return a == b;
    return std::fabs(a - b) <= tau;
}

static bool refUnique(const std::deque<Rec>& model, const std::map<size_t, double>& res, double tau)
{
    std::map<size_t, std::pair<size_t, size_t>> per; // compared, equal
    for (auto& r : model) {
        auto it = res.find(r.hash);
        if (it == res.end())
            continue;
        per[r.prog].first++;
        per[r.prog].second += close(it->second, r.result, tau);
    }
    for (auto& p : per)
        if (p.second.first == p.second.second)
            return false;
    return true;
}

static void histories(Ctx& c)
{
    WorldOpts o;
    o.maxDim = 3;
    o.maxSrc = 3;
    auto w = genWorld(c, o);
    // integers, small doubles: contents come back
    auto fill = [&](bool any) {
        for (auto& s : w->srcs)
            for (size_t i = 0; i < s->size(); i++)
                s->set(i, any ? s->elem == ED ? c.real() : (double)c.in(-100, 100) : (double)c.in(0, 1));
    };
    fill(false);
    size_t maxSize = (size_t)c.in(1, c.thorough ? 20 : 9);
    double probas[] = {1.0, 1.0, 0.5, 0.0, 0.9};
    double proba = probas[c.below(5)];
    size_t seed = c.below(0);
    auto a = std::make_unique<Archive>(maxSize, proba, seed);
    c.note(w->describe());
    c.note("archive of ", maxSize, " recordings, probability ", proba);
    std::vector<std::shared_ptr<Program::Program>> progs;
    for (size_t i = 0; i < 4; i++)
        progs.push_back(build(*w, genProg(c, *w, 2)));
    std::deque<Rec> model;
    std::map<size_t, Content> contents;
    size_t n = (size_t)c.in(1, c.thorough ? 120 : 50);
    size_t evicted = 0, skipped = 0, notUnique = 0;
    static const double special[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e300, 0.0};
    double counter = 0;
    for (size_t k = 0; k < n; k++) {
        switch (c.below(8)) {
        case 0:
            fill(c.chance(1, 3));
            c.note("new data");
            break;
        case 1:
            if (!w->srcs.empty()) {
                Src& s = *c.pick(w->srcs);
                s.set(c.below(s.size()), (double)c.in(0, 2));
                c.note("one element changed");
            }
            break;
        case 2: {
            // uniqueness query
            std::map<size_t, double> q;
            for (auto& x : contents)
                if (c.chance(2, 3))
                    q[x.first] = (double)c.in(0, 2) + (c.chance(1, 3) ? 5e-5 : c.chance(1, 4) ? 3e-4 : 0);
            // often, the results of an archived program
            if (!model.empty() && c.chance(2, 3)) {
                size_t p = model[c.below(model.size())].prog;
                for (auto& r : model)
                    if (r.prog == p && !c.chance(1, 8))
                        q[r.hash] = r.result + (c.chance(1, 4) ? 4e-5 : 0);
            }
            double tau = c.chance(1, 3) ? 0.5 : 1e-4;
            bool expected = refUnique(model, q, tau);
            bool got = tau == 1e-4 ? a->areProgramResultsUnique(q) : a->areProgramResultsUnique(q, tau);
            if (got != expected) {
                std::ostringstream s;
                s.precision(17);
                for (auto& r : model)
                    s << " {P" << r.prog << " h" << r.hash % 1000 << " " << r.result << "}";
                s << " query:";
                for (auto& x : q)
                    s << " h" << x.first % 1000 << "=" << x.second;
                c.fail("areProgramResultsUnique returned ", got, " with tau=", tau, ", archive:", s.str());
            }
            notUnique += !expected;
            break;
        }
        case 3:
            if (c.chance(1, 8)) {
                a->clear();
                model.clear();
                c.note("clear");
            }
            else if (c.chance(1, 4)) {
                a->setRandomSeed(c.below(0));
                c.note("new seed");
            }
            break;
        default: {
            size_t p = c.below(progs.size());
            double result = c.chance(1, 4) ? special[c.below(5)] : c.chance(1, 3) ? ++counter : (double)c.in(0, 2);
            bool forced = c.chance(1, 5);
            size_t h = Archive::getCombinedHash(w->refs());
            Content now;
            for (auto& s : w->srcs)
                now.values.push_back(s->values);
            auto it = contents.find(h);
            if (it != contents.end()) {
                for (size_t s = 0; s < now.values.size(); s++)
                    for (size_t i = 0; i < now.values[s].size(); i++)
                        c.check(sameDouble(now.values[s][i], it->second.values[s][i]), "two different contents have the same hash");
            }
            else
                contents[h] = now;
            // Was it accepted?
            std::deque<Rec> with(model);
            with.push_back({p, h, result});
            if (with.size() > maxSize) {
                with.pop_front();
            }
            // model of the stochastic choice: only its determinism and its
            // frequency are specified (sub "probability"); here the outcome
            // is deduced from the content.
            bool certain = forced || proba == 1.0;
            a->addRecording(progs[p].get(), w->refs(), result, forced);
            bool accepted = certain;
            if (!certain) {
                auto same = [&](const std::deque<Rec>& m) {
                    if (a->getNbRecordings() != m.size())
                        return false;
                    for (size_t i = 0; i < m.size(); i++)
                        if (a->at(i).prog != progs[m[i].prog].get() || a->at(i).dataHash != m[i].hash || !sameDouble(a->at(i).result, m[i].result))
                            return false;
                    return true;
                };
                accepted = !same(model);
                if (proba == 0.0)
                    c.check(!accepted, "recorded with a probability of 0");
            }
            if (accepted) {
                evicted += model.size() == maxSize;
                model = with;
            }
            else
                skipped++;
            c.note("record P", p, " h", h % 1000, " ", show(result), forced ? " forced" : "", accepted ? "" : " (not archived)");
        }
        }
        checkArchive(c, *a, model, contents, progs, *w);
    }
    if (evicted)
        c.label("recordings evicted", evicted);
    if (skipped)
        c.label("recordings not archived", skipped);
    if (notUnique)
        c.label("results not unique", notUnique);
    if (evicted > 0 || notUnique > 0)
        c.nontrivial();
    // the copies are released
    a.reset();
}

// Two archives with the same seed take the same decisions, with the expected frequency.
static void probability(Ctx& c)
{
    WorldOpts o;
    o.maxDim = 2;
    o.maxSrc = 1;
    o.maxConst = 0;
    auto w = genWorld(c, o);
    auto p = build(*w, genProg(c, *w, 1));
    double proba = c.chance(1, 2) ? c.proba() : 0.05 * (double)c.in(1, 19);
    size_t seed = c.below(0);
    c.note("probability ", proba, ", seed ", seed);
    size_t n = 3000;
    Archive a(n, proba, seed), b(n, proba, c.below(0)), d(n, proba, seed);
    b.setRandomSeed(seed);
    for (size_t i = 0; i < n; i++) {
        a.addRecording(p.get(), w->refs(), (double)i);
        b.addRecording(p.get(), w->refs(), (double)i);
    }
    // clear does not change what is accepted afterwards; reseeding does
    for (size_t i = 0; i < n; i++)
        d.addRecording(p.get(), w->refs(), (double)i);
    c.eq(a.getNbRecordings(), b.getNbRecordings(), "recordings with the same seed");
    c.eq(a.getNbRecordings(), d.getNbRecordings(), "recordings with the same seed");
    for (size_t i = 0; i < a.getNbRecordings(); i++) {
        c.eq(a.at(i).result, b.at(i).result, "recording ", i, " with the same seed");
        c.eq(a.at(i).result, d.at(i).result, "recording ", i, " with the same seed");
    }
    double sigma = std::sqrt((double)n * proba * (1 - proba)) + 1;
    double dev = std::fabs((double)a.getNbRecordings() - n * proba);
    c.check(dev < 7 * sigma, a.getNbRecordings(), " of ", n, " results recorded with a probability of ", proba);
    if (proba > 0.2 && proba < 0.8) {
        Archive e(n, proba, seed + 1);
        for (size_t i = 0; i < n; i++)
            e.addRecording(p.get(), w->refs(), (double)i);
        bool same = e.getNbRecordings() == a.getNbRecordings();
        for (size_t i = 0; same && i < a.getNbRecordings(); i++)
            same = a.at(i).result == e.at(i).result;
        c.check(!same, "another seed takes the same ", n, " decisions");
    }
    c.nontrivial();
}

// The archive records what the execution engine evaluates.
static void engine(Ctx& c)
{
    auto w = genWorld(c);
    TPG::TPGGraph g(*w->env);
    GraphOpts go;
    go.maxTeams = 4;
    go.maxLines = 4;
    genGraph(c, *w, g, go);
    Archive a(400, 1.0, 0);
    TPG::TPGExecutionEngine eng(*w->env, &a);
    std::deque<Rec> expected;
    std::vector<const Program::Program*> progs;
    c.note(w->describe());
    c.note(describe(*w, g));
    size_t rounds = (size_t)c.in(1, 3);
    for (size_t r = 0; r < rounds; r++) {
        for (auto v : g.getRootVertices()) {
            auto path = eng.executeFromRoot(*v);
            for (auto t : path)
                for (auto e : t->getOutgoingEdges()) {
                    progs.push_back(&e->getProgram());
                    expected.push_back({progs.size() - 1, Archive::getCombinedHash(w->refs()), refBid(*w, *e)});
                }
        }
        refill(c, *w);
    }
    if (expected.size() > 400)
        c.discard();
    c.eq(a.getNbRecordings(), expected.size(), "recordings of the inference");
    for (size_t i = 0; i < expected.size(); i++) {
        c.check(a.at(i).prog == progs[i], "recording ", i, " is of another program");
        c.eq(a.at(i).dataHash, expected[i].hash, "hash of recording ", i);
        c.check(sameDouble(a.at(i).result, expected[i].result), "recorded bid ", show(a.at(i).result), ", expected ", show(expected[i].result));
    }
    if (expected.size() > 4)
        c.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C08";
    cfg.rule = "histories: random sequences of recordings (forced or not, probabilities 0 to 1), changes of the data, uniqueness queries, clears and reseedings, on archives of 1-20 recordings, compared after each operation with a list model including the content of the archived copies; probability: frequency and reproducibility of the stochastic archiving; engine: the recordings made by inferences. Non-trivial: a recording was evicted, a query was not unique, or more than four bids recorded.";
    cfg.assumptions = {"hashes of different data do not collide (a collision on the explored data is reported)"};
    cfg.subs = {{"histories", histories, 5000, 80000}, {"probability", probability, 40, 400}, {"engine", engine, 500, 8000}};
    return pbt::run(argc, argv, cfg);
}
