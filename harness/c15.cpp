// C15: evaluation results combine as weighted means, whatever the order.
#include "la.h"
#include <algorithm>
using pbt::Ctx;
using namespace gg;

enum Kind { PLAIN, CLASSIF, ADV };

// Samples: score and weight, per component.
struct M {
    Kind kind;
    std::vector<double> sum; // sum of score*weight
    std::vector<double> first; // score while the weight is 0
    std::vector<uint64_t> nb;
    double score(size_t i) const { return nb[i] == 0 ? first[i] : sum[i] / (double)nb[i]; }
    double magnitude = 1;
};
struct AdvN : public Learn::AdversarialEvaluationResult {
    AdvN(const std::vector<double>& v, size_t nb) : AdversarialEvaluationResult(v.size(), nb) { scores = v; }
};
typedef std::shared_ptr<Learn::EvaluationResult> P;

static std::vector<double> gen(Ctx& c, M& m, Kind kind, size_t n)
{
    m.kind = kind;
    std::vector<double> v;
    uint64_t nb = c.chance(1, 5) ? 0 : (uint64_t)c.in(1, 30);
    for (size_t i = 0; i < n; i++) {
        double x = c.smallReal();
        if (kind == CLASSIF)
            nb = c.chance(1, 3) ? 0 : (uint64_t)c.in(1, 30);
        v.push_back(x);
        m.nb.push_back(nb);
        m.first.push_back(x);
        m.sum.push_back(x * (double)nb);
    }
    return v;
}
static P make(const M& m)
{
    std::vector<double> v;
    for (size_t i = 0; i < m.nb.size(); i++)
        v.push_back(m.score(i));
    if (m.kind == PLAIN)
        return std::make_shared<Learn::EvaluationResult>(v[0], m.nb[0]);
    if (m.kind == CLASSIF)
        return std::make_shared<Learn::ClassificationEvaluationResult>(v, std::vector<size_t>(m.nb.begin(), m.nb.end()));
    AdvN a(v, m.nb[0]);
    return std::make_shared<Learn::AdversarialEvaluationResult>((const Learn::AdversarialEvaluationResult&)a);
}
static void add(M& a, const M& b)
{
    for (size_t i = 0; i < a.nb.size(); i++) {
        a.sum[i] += b.sum[i];
        a.nb[i] += b.nb[i];
    }
}
static std::string text(const Learn::EvaluationResult& r)
{
    std::ostringstream o;
    o << show(r.getResult()) << "/" << r.getNbEvaluation();
    if (auto k = dynamic_cast<const Learn::ClassificationEvaluationResult*>(&r))
        for (size_t i = 0; i < k->getScorePerClass().size(); i++)
            o << " " << show(k->getScorePerClass()[i]) << "/" << k->getNbEvaluationPerClass()[i];
    if (auto k = dynamic_cast<const Learn::AdversarialEvaluationResult*>(&r))
        for (size_t i = 0; i < k->getSize(); i++)
            o << " " << show(const_cast<Learn::AdversarialEvaluationResult*>(k)->getScoreOf((int)i));
    return o.str();
}
static void compare(Ctx& c, const M& m, Learn::EvaluationResult& r, const std::string& when)
{
    double mean = 0;
    uint64_t total = 0;
    auto close = [](double a, double b) { return std::fabs(a - b) <= 1e-8; };
    for (size_t i = 0; i < m.nb.size(); i++) {
        mean += m.score(i) / (double)m.nb.size();
        total += m.nb[i];
    }
    c.check(close(r.getResult(), mean), when, ": result is ", r.getResult(), " instead of ", mean);
    c.eq(r.getNbEvaluation(), m.kind == CLASSIF ? total : m.nb[0], when, ": number of evaluations");
    if (m.kind == CLASSIF) {
        auto& k = dynamic_cast<Learn::ClassificationEvaluationResult&>(r);
        c.eq(k.getScorePerClass().size(), m.nb.size(), when, ": number of classes");
        for (size_t i = 0; i < m.nb.size(); i++) {
            c.check(close(k.getScorePerClass()[i], m.score(i)), when, ": score of class ", i, " is ", k.getScorePerClass()[i], " instead of ", m.score(i));
            c.eq(k.getNbEvaluationPerClass()[i], m.nb[i], when, ": evaluations of class ", i);
        }
    }
    if (m.kind == ADV) {
        auto& k = dynamic_cast<Learn::AdversarialEvaluationResult&>(r);
        c.eq(k.getSize(), m.nb.size(), when, ": number of scores");
        for (size_t i = 0; i < m.nb.size(); i++)
            c.check(close(k.getScoreOf((int)i), m.score(i)), when, ": score ", i, " is ", k.getScoreOf((int)i), " instead of ", m.score(i));
    }
}

// A pool of results combined at random.
static void casePool(Ctx& c)
{
    std::vector<M> m;
    std::vector<P> r;
    size_t nbSizes = (size_t)c.in(1, 2);
    std::vector<size_t> sizes;
    for (size_t i = 0; i < nbSizes; i++)
        sizes.push_back((size_t)c.in(1, 4));
    size_t n = (size_t)c.in(2, 6);
    for (size_t i = 0; i < n; i++) {
        Kind k = c.chance(1, 2) && i > 0 ? m[0].kind : (Kind)c.below(3);
        M x;
        gen(c, x, k, k == PLAIN ? 1 : c.pick(sizes));
        m.push_back(x);
        r.push_back(make(x));
        compare(c, m.back(), *r.back(), "new result");
    }
    size_t ops = (size_t)c.in(1, 14), added = 0, refused = 0;
    for (size_t o = 0; o < ops; o++) {
        size_t a = c.below(n), b = c.below(n);
        if (c.chance(1, 8) && m[a].kind == ADV) {
            double d = (double)c.in(1, 4);
            dynamic_cast<Learn::AdversarialEvaluationResult&>(*r[a]) /= d;
            for (size_t i = 0; i < m[a].nb.size(); i++) {
                m[a].sum[i] /= d;
                m[a].first[i] /= d;
            }
            c.note("result ", a, " divided by ", d);
        }
        else {
            bool ok = m[a].kind == m[b].kind && m[a].nb.size() == m[b].nb.size();
            std::string ta = text(*r[a]), tb = text(*r[b]);
            c.note(ta, "  +=  ", tb, a == b ? " (itself)" : "");
            bool thrown = false;
            try {
                auto& back = (*r[a] += *r[b]);
                c.check(&back == r[a].get(), "operator+= does not return the result");
            }
            catch (const std::runtime_error&) {
                thrown = true;
            }
            c.eq(thrown, !ok, "refusal of an addition of ", ta, " and ", tb);
            if (ok) {
                M copy = m[b];
                add(m[a], copy);
                added++;
                if (a != b)
                    c.check(text(*r[b]) == tb, "the added result changes");
            }
            else {
                refused++;
                c.check(text(*r[a]) == ta && text(*r[b]) == tb, "a refused addition changes a result: ", ta, " -> ", text(*r[a]));
            }
        }
        for (size_t i = 0; i < n; i++)
            compare(c, m[i], *r[i], "after the operations");
        size_t x = c.below(n), y = c.below(n);
        c.eq(*r[x] < *r[y], r[x]->getResult() < r[y]->getResult(), "operator<");
    }
    c.nontrivial(added >= 2);
    c.label("additions", added);
    c.label("refused additions", refused);
}

// The same results, combined in any order and grouping.
static void caseOrder(Ctx& c)
{
    Kind k = (Kind)c.below(3);
    size_t size = k == PLAIN ? 1 : (size_t)c.in(1, 4);
    size_t n = (size_t)c.in(2, 8);
    std::vector<M> m(n);
    for (auto& x : m)
        gen(c, x, k, size);
    // a class without any evaluation keeps the score it has first
    M total = m[0];
    for (size_t i = 1; i < n; i++)
        add(total, m[i]);
    for (int round = 0; round < 2; round++) {
        std::vector<size_t> order(n);
        for (size_t i = 0; i < n; i++)
            order[i] = i;
        for (size_t i = n; i > 1; i--)
            std::swap(order[i - 1], order[c.below(i)]);
        std::vector<P> r;
        for (auto i : order)
            r.push_back(make(m[i]));
        while (r.size() > 1) {
            size_t i = c.below(r.size() - 1);
            *r[i] += *r[i + 1];
            r.erase(r.begin() + (long)i + 1);
        }
        M want = total;
        for (size_t i = 0; i < size; i++)
            want.first[i] = m[order[0]].first[i];
        compare(c, want, *r[0], "results combined in another order");
    }
    uint64_t weights = 0;
    for (auto& x : m)
        for (auto w : x.nb)
            weights += w > 0;
    c.nontrivial(weights >= 2);
}

int main(int argc, char** argv)
{
    pbt::Config cfg;
    cfg.id = "C15";
    cfg.rule = "at least two combined results with evaluations";
    cfg.assumptions = {"scores are moderate; they are compared within 1e-8"};
    cfg.subs = {
        {"pool", casePool, 40000, 600000},
        {"order", caseOrder, 20000, 300000},
    };
    return pbt::run(argc, argv, cfg);
}
