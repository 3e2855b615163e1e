#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <typeinfo>
#include <unistd.h>

namespace pbt {

static uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

// Shared memory of one executing process.
struct Slot {
    static constexpr uint64_t MAXC = 1 << 20;
    volatile uint64_t sub, index; // case being executed
    volatile uint64_t nb;         // choices recorded so far
    volatile double started;      // wall clock of the start of the case
    volatile int active;
    volatile uint64_t ambient;             // see ambientGet
    volatile uint64_t done[32];            // cases executed, by sub-property
    volatile uint64_t nextSub, nextIndex;  // where to continue
    char message[8192]; // failure message
    volatile uint64_t nbNotes;
    char notes[16384]; // notes of the case, for crashes
    uint64_t choices[MAXC];
};
static Slot* gSlot = nullptr;
static uint64_t noAmbient() { return 0; }
static void setNoAmbient(uint64_t) {}
uint64_t (*ambientGet)() = noAmbient; // constant-initialised
void (*ambientSet)(uint64_t) = setNoAmbient;
static std::string gScratch;

const std::string& scratchDir() { return gScratch; }

static std::set<std::string> gKnown;
bool known(const std::string& key) { return gKnown.count(key) > 0; }

static void readKnown(const std::string& id)
{
    const char* path = getenv("VERIF_KNOWN");
    std::ifstream f(path ? path : "known_findings.txt");
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string kind, prop, key;
        is >> kind >> prop >> key;
        // A defect recorded for one property may be met while others are checked.
        if (kind == "open:" && key.compare(0, 4, "key=") == 0)
            gKnown.insert(key.substr(4));
    }
}

static double now()
{
    return std::chrono::duration<double>(
               std::chrono::steady_clock::now().time_since_epoch())
        .count();
}

uint64_t Ctx::below(uint64_t n)
{
    uint64_t v;
    if (replay) {
        v = pos < input.size() ? input[pos] : 0;
        pos++;
    }
    else {
        v = mix(state);
        state += 0x9e3779b97f4a7c15ULL;
    }
    if (n != 0)
        v %= n;
    if (!detached && gSlot != nullptr && gSlot->nb < Slot::MAXC) {
        gSlot->choices[gSlot->nb] = v;
        gSlot->nb = gSlot->nb + 1;
    }
    fingerprint = (fingerprint ^ v) * 1099511628211ULL;
    fingerprint ^= fingerprint >> 29;
    return v;
}

void Ctx::keep(const std::string& s)
{
    if (detached || gSlot == nullptr)
        return;
    for (char ch : s)
        if (gSlot->nbNotes + 1 < sizeof gSlot->notes) {
            gSlot->notes[gSlot->nbNotes] = ch;
            gSlot->nbNotes = gSlot->nbNotes + 1;
        }
}

double Ctx::smallReal()
{
    uint64_t v = below(257);
    return (double)((v & 1) ? -(int64_t)((v + 1) / 2) : (int64_t)(v / 2)) / 8.0;
}

double Ctx::real()
{
    switch (below(8)) {
    case 0:
    case 1:
    case 2:
        return smallReal();
    case 3:
        return (double)in(-1000, 1000);
    case 4: {
        // uniform in [-1, 1)
        return (double)(int64_t)below(0) / 9223372036854775808.0;
    }
    case 5: {
        // wide exponent range
        double m = (double)(int64_t)below(0) / 9223372036854775808.0;
        return std::ldexp(m, (int)in(-60, 60));
    }
    case 6: {
        static const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.5, 1e-4, 1e-300,
                                    -1e-300, 1e300, -1e300, 1e15, 0.1};
        return sp[below(sizeof(sp) / sizeof(sp[0]))];
    }
    default:
        return (double)in(-100000, 100000) / 1000.0;
    }
}

double Ctx::proba()
{
    switch (below(4)) {
    case 0:
        return (double)below(11) / 10.0;
    case 1:
        return below(2) ? 1.0 : 0.0;
    default:
        return (double)below(1001) / 1000.0;
    }
}

// ---------------------------------------------------------------------------

static std::string jsonEscape(const std::string& s)
{
    std::string r;
    for (unsigned char ch : s) {
        switch (ch) {
        case '"': r += "\\\""; break;
        case '\\': r += "\\\\"; break;
        case '\n': r += "\\n"; break;
        case '\t': r += "\\t"; break;
        case '\r': r += "\\r"; break;
        default:
            if (ch < 0x20 || ch >= 0x7f) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", ch);
                r += b;
            }
            else
                r += (char)ch;
        }
    }
    return r;
}

enum { EX_PASS = 0, EX_FAIL = 41, EX_HANG = 42 };

static void onProf(int) { _exit(EX_HANG); }

static void armCpu(int seconds)
{
    struct itimerval it = {};
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr);
}

// Executes one case in the current process. Returns true when it passed.
static bool execCase(const Sub& sub, Ctx& c)
{
    try {
        sub.fn(c);
        return true;
    }
    catch (Discard&) {
        c.label("discarded");
        c.isNontrivial = false;
        return true;
    }
    catch (Failure& e) {
        snprintf(gSlot->message, sizeof gSlot->message, "%s", e.what());
    }
    catch (std::exception& e) {
        int st;
        char* n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
        snprintf(gSlot->message, sizeof gSlot->message,
                 "unexpected exception %s: %s", n ? n : "?", e.what());
    }
    catch (...) {
        snprintf(gSlot->message, sizeof gSlot->message, "unexpected exception");
    }
    return false;
}

struct Outcome {
    enum Kind { PASS, FAIL, CRASH, HANG } kind = PASS;
    std::string message;
    std::vector<uint64_t> choices;
    std::string notes;
};

static std::string tailOf(const std::string& file, size_t max)
{
    std::ifstream f(file);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    // Prefer the sanitizer summary.
    size_t p = s.find("ERROR: AddressSanitizer");
    if (p == std::string::npos)
        p = s.find("WARNING: ThreadSanitizer");
    if (p == std::string::npos)
        p = s.find("runtime error:");
    if (p != std::string::npos) {
        size_t b = s.rfind('\n', p);
        s = s.substr(b == std::string::npos ? 0 : b + 1);
        return s.substr(0, max);
    }
    return s.size() > max ? s.substr(s.size() - max) : s;
}

static std::string describeStatus(int st)
{
    std::ostringstream o;
    if (WIFSIGNALED(st))
        o << "killed by signal " << WTERMSIG(st) << " ("
          << strsignal(WTERMSIG(st)) << ")";
    else
        o << "exit status " << WEXITSTATUS(st);
    return o.str();
}

// Runs one choice stream in a forked child.
static Outcome runForked(const Config& cfg, const Sub& sub, Slot* slot,
                         const std::vector<uint64_t>* choices, uint64_t seed,
                         bool thorough, bool wantNotes, uint64_t ambient = 0)
{
    Outcome out;
    slot->nb = 0;
    slot->message[0] = 0;
    slot->nbNotes = 0;
    std::string errFile = gScratch + "/stderr." + std::to_string(getpid());
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        int fd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        gSlot = slot;
        signal(SIGPROF, onProf);
        if (ambient)
            ambientSet(ambient);
        armCpu(cfg.cpuLimit);
        Ctx c;
        c.thorough = thorough;
        if (choices) {
            c.replay = true;
            c.input = *choices;
        }
        else
            c.state = seed;
        bool ok = execCase(sub, c);
        _exit(ok ? EX_PASS : EX_FAIL);
    }
    double t0 = now();
    int st = 0;
    bool killed = false;
    int spins = 0;
    while (waitpid(pid, &st, WNOHANG) == 0) {
        if (now() - t0 > cfg.wallLimit && !killed) {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            killed = true;
        }
        usleep(spins < 200 ? 200 : 5000);
        spins++;
    }
    kill(-pid, SIGKILL);
    size_t nb = std::min<uint64_t>((uint64_t)slot->nb, (uint64_t)Slot::MAXC);
    out.choices.assign(slot->choices, slot->choices + nb);
    if (killed || (WIFEXITED(st) && WEXITSTATUS(st) == EX_HANG)) {
        out.kind = Outcome::HANG;
        out.message = "the case did not terminate within its limit of CPU or "
                      "wall-clock time";
    }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == EX_PASS)
        out.kind = Outcome::PASS;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == EX_FAIL) {
        out.kind = Outcome::FAIL;
        out.message = slot->message;
    }
    else {
        out.kind = Outcome::CRASH;
        out.message =
            "crash: " + describeStatus(st) + "\n" + tailOf(errFile, 3000);
    }
    if (wantNotes)
        out.notes.assign(slot->notes, (size_t)slot->nbNotes);
    return out;
}

static uint64_t caseSeed(uint64_t seed, size_t sub, uint64_t index)
{
    return mix(mix(mix(seed) + sub) + index);
}

struct Found {
    size_t sub;
    uint64_t index;
    uint64_t ambient;
    int worker;
    std::vector<uint64_t> done;
    Outcome out;
};

static std::vector<uint64_t> shrink(const Config& cfg, const Sub& sub,
                                    Slot* slot, std::vector<uint64_t> best,
                                    Outcome& bestOut, bool thorough,
                                    double budget, uint64_t ambient)
{
    double t0 = now();
    uint64_t execs = 0;
    auto attempt = [&](const std::vector<uint64_t>& cand) {
        if (now() - t0 > budget)
            return false;
        execs++;
        Outcome o = runForked(cfg, sub, slot, &cand, 0, thorough, false, ambient);
        if (o.kind != bestOut.kind)
            return false;
        // the consumed stream is the canonical form of the candidate
        if (o.choices.size() < best.size() ||
            (o.choices.size() == best.size() && o.choices < best)) {
            best = o.choices;
            bestOut = o;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        // delete chunks
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1;
             len /= 2) {
            for (size_t i = 0; i + len <= best.size() && now() - t0 < budget;) {
                std::vector<uint64_t> c(best);
                c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c))
                    progress = true;
                else
                    i += len;
            }
            if (len == 1)
                break;
        }
        // zero chunks
        for (size_t len : {64, 16, 4, 1}) {
            for (size_t i = 0; i < best.size() && now() - t0 < budget;
                 i += len) {
                std::vector<uint64_t> c(best);
                bool any = false;
                for (size_t k = i; k < std::min(i + len, c.size()); k++) {
                    any |= c[k] != 0;
                    c[k] = 0;
                }
                if (any && attempt(c))
                    progress = true;
            }
        }
        // minimise values
        for (size_t i = 0; i < best.size() && now() - t0 < budget; i++) {
            while (i < best.size() && best[i] > 1) {
                std::vector<uint64_t> c(best);
                c[i] /= 2;
                if (!attempt(c))
                    break;
                progress = true;
            }
            if (i < best.size() && best[i] > 0) {
                std::vector<uint64_t> c(best);
                c[i]--;
                if (attempt(c))
                    progress = true;
            }
        }
    }
    fprintf(stderr, "[pbt] shrinking: %lu executions, %zu choices left\n",
            (unsigned long)execs, best.size());
    return best;
}

static std::string writeReplay(const Config& cfg, const Sub& sub,
                               const Outcome& o, bool thorough, uint64_t seed,
                               uint64_t index, uint64_t ambient,
                               const std::string& history)
{
    const char* dir = getenv("VERIF_REPLAY_DIR");
    std::string d = dir ? dir : "replays";
    mkdir(d.c_str(), 0755);
    std::string path = d + "/" + cfg.id + "-" + sub.name + ".replay";
    std::ofstream f(path);
    f << "property " << cfg.id << "\n";
    f << "sub " << sub.name << "\n";
    f << "thorough " << (thorough ? 1 : 0) << "\n";
    f << "seed " << seed << " case " << index << "\n";
    f << "ambient " << ambient << "\n";
    if (!history.empty())
        f << "history " << history << "\n";
    f << "choices " << o.choices.size() << "\n";
    for (size_t i = 0; i < o.choices.size(); i++)
        f << o.choices[i] << ((i % 16 == 15) ? "\n" : " ");
    f << "\n--- failure\n" << o.message << "\n--- case\n" << o.notes << "\n";
    return path;
}

static int replayFile(const Config& cfg, Slot* slot, const std::string& path)
{
    std::ifstream f(path);
    if (!f) {
        std::cerr << "cannot read " << path << "\n";
        return 2;
    }
    std::string word, id, subName;
    bool thorough = false;
    uint64_t ambient = 0;
    std::vector<uint64_t> choices;
    while (f >> word) {
        if (word == "property")
            f >> id;
        else if (word == "sub")
            f >> subName;
        else if (word == "thorough")
            f >> thorough;
        else if (word == "ambient")
            f >> ambient;
        else if (word == "seed" || word == "history") {
            std::string s;
            std::getline(f, s);
        }
        else if (word == "choices") {
            size_t n;
            f >> n;
            choices.resize(n);
            for (auto& v : choices)
                f >> v;
            break;
        }
    }
    for (const Sub& s : cfg.subs)
        if (s.name == subName) {
            Outcome o = runForked(cfg, s, slot, &choices, 0, thorough, true, ambient);
            std::cout << o.notes << "\n";
            if (o.kind == Outcome::PASS) {
                std::cout << "replay passes\n";
                return 0;
            }
            std::cout << o.message << "\n";
            std::cout << "VIOLATION property=" << cfg.id << " replay=" << path
                      << "\n";
            return 1;
        }
    std::cerr << "no sub-property " << subName << "\n";
    return 2;
}

int run(int argc, char** argv, Config cfg)
{
    double t0 = now();
    const char* sd = getenv("VERIF_SEED");
    uint64_t seed = sd && *sd ? strtoull(sd, nullptr, 10) : 1;
    const char* td = getenv("VERIF_TIER");
    bool thorough = td && std::string(td) == "thorough";
    std::string replay, only;
    uint64_t forceCases = 0;
    std::string evidence;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--replay" && i + 1 < argc)
            replay = argv[++i];
        else if (a == "--only" && i + 1 < argc)
            only = argv[++i];
        else if (a == "--cases" && i + 1 < argc)
            forceCases = strtoull(argv[++i], nullptr, 10);
        else if (a == "--evidence" && i + 1 < argc)
            evidence = argv[++i];
    }
    double cap = thorough ? cfg.thoroughCap : cfg.quickCap;
    if (getenv("VERIF_CAP"))
        cap = atof(getenv("VERIF_CAP"));

    {
        const char* tmp = getenv("TMPDIR");
        std::string t = std::string(tmp ? tmp : "/tmp") + "/verif-" + cfg.id +
                        "-XXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) {
            perror("mkdtemp");
            return 2;
        }
        gScratch = b.data();
    }
    struct Cleaner {
        pid_t owner = getpid();
        ~Cleaner()
        {
            if (owner == getpid())
                (void)!system(("rm -rf '" + gScratch + "'").c_str());
        }
    } cleaner;

    readKnown(cfg.id);
    int W = cfg.workers;
    auto alloc = [](size_t n) {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            exit(2);
        }
        return p;
    };
    Slot* slots = (Slot*)alloc(sizeof(Slot) * (W + 1));
    volatile int* stop = (volatile int*)alloc(sizeof(int));
    if (!replay.empty())
        return replayFile(cfg, &slots[W], replay);

    for (const Probe& pr : cfg.probes) {
        if (!known(pr.key))
            continue;
        Sub s;
        s.fn = [&pr](Ctx&) {
            if (pr.reproduces())
                throw Failure("reproduced");
        };
        if (runForked(cfg, s, &slots[W], nullptr, 0, thorough, false).kind !=
            Outcome::PASS)
            std::cout << "KNOWN-FINDING: property=" << cfg.id << " " << pr.what
                      << std::endl;
        else
            fprintf(stderr, "[pbt] the known finding %s does not reproduce\n",
                    pr.key.c_str());
    }

    std::vector<pid_t> pids(W);
    // Runs the cases of worker w, starting from the given one. `again` makes
    // it execute the very same cases as a worker that failed.
    auto spawn = [&](int w, size_t fromSub, uint64_t fromIndex, int gen, const Found* again) {
        Slot* slot = again ? &slots[W] : &slots[w];
        slot->active = 0;
        for (auto& d : slot->done)
            d = 0;
        slot->nextSub = fromSub;
        slot->nextIndex = fromIndex;
        slot->message[0] = 0;
        fflush(stdout);
        fflush(stderr);
        pid_t pid = fork();
        if (pid != 0)
            return pid;
        // --- worker
        setpgid(0, 0);
        std::string base = gScratch + (again ? "/again" : "/w") + std::to_string(w) + "." +
                           std::to_string(gen);
        int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY,
                      0600);
        dup2(fd, 2);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        gSlot = slot;
        signal(SIGPROF, onProf);
        struct Acc {
            uint64_t evals = 0, nontrivial = 0;
            std::map<std::string, uint64_t> labels;
            std::vector<uint64_t> fps;
            std::vector<std::string> samples;
        };
        std::vector<Acc> accs(cfg.subs.size());
        auto dump = [&]() {
            FILE* f = fopen((base + ".res").c_str(), "w");
            for (size_t s = 0; s < accs.size(); s++) {
                fprintf(f, "sub %zu %lu %lu\n", s, (unsigned long)accs[s].evals,
                        (unsigned long)accs[s].nontrivial);
                for (auto& l : accs[s].labels)
                    fprintf(f, "label %lu %s\n", (unsigned long)l.second,
                            l.first.c_str());
                for (auto& x : accs[s].samples)
                    fprintf(f, "sample %s\n", jsonEscape(x).c_str());
                for (auto fp : accs[s].fps)
                    fprintf(f, "fp %lu\n", (unsigned long)fp);
            }
            fprintf(f, "end\n");
            fclose(f);
        };
        int rc = EX_PASS;
        for (size_t s = fromSub; s < cfg.subs.size() && rc == EX_PASS; s++) {
            const Sub& sub = cfg.subs[s];
            if (!only.empty() && sub.name != only)
                continue;
            uint64_t n = forceCases ? forceCases
                                    : (thorough ? sub.thorough : sub.quick);
            uint64_t i = (s == fromSub) ? fromIndex : (uint64_t)w;
            // Each sub-property gets its share of the soft time cap.
            double subEnd = t0 + cap * (double)(s + 1) / cfg.subs.size();
            for (; i < n; i += W) {
                slot->nextSub = s;
                slot->nextIndex = i;
                if (again) {
                    if (s == again->sub ? i > again->index : slot->done[s] >= again->done[s])
                        break;
                }
                else if (*stop || now() > subEnd)
                    break;
                slot->sub = s;
                slot->index = i;
                slot->nb = 0;
                slot->nbNotes = 0;
                slot->started = now();
                slot->ambient = ambientGet();
                slot->active = 1;
                armCpu(cfg.cpuLimit);
                Ctx c;
                c.thorough = thorough;
                c.state = caseSeed(seed, s, i);
                bool ok = execCase(sub, c);
                if (!ok) {
                    rc = EX_FAIL;
                    break;
                }
                slot->active = 0;
                slot->done[s] = slot->done[s] + 1;
                Acc& a = accs[s];
                a.evals++;
                for (auto& l : c.labels)
                    a.labels[l.first] += l.second;
                if (c.isNontrivial) {
                    a.nontrivial++;
                    a.fps.push_back(c.fingerprint);
                    if (a.samples.size() < 2 && !c.notes.empty() &&
                        c.notes.size() < 2500)
                        a.samples.push_back(c.notes);
                }
            }
            if (again && s == again->sub)
                break;
            if (*stop && !again)
                break;
            if (rc == EX_PASS) {
                slot->nextSub = s + 1;
                slot->nextIndex = w;
            }
        }
        armCpu(0);
        dump();
        _exit(rc);
    };
    std::vector<int> gens(W, 0);
    std::vector<size_t> startSub(W, 0);
    std::vector<uint64_t> startIndex(W);
    for (int w = 0; w < W; w++)
        startIndex[w] = (uint64_t)w;
    int violations = 0;
    std::vector<std::string> unconfirmed;
    std::set<size_t> reported;
    // Failures that could not be confirmed do not end the exploration.
    for (int round = 0; round < 6; round++) {
    *stop = 0;
    for (int w = 0; w < W; w++)
        gens[w] = round;
    std::vector<Found> found;
    for (int w = 0; w < W; w++)
        pids[w] = spawn(w, startSub[w], startIndex[w], round, nullptr);

    int alive = W;
    std::vector<bool> wallKilled(W, false);
    while (alive > 0) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            for (int w = 0; w < W; w++)
                if (pids[w] > 0 && slots[w].active &&
                    now() - slots[w].started > cfg.wallLimit &&
                    !wallKilled[w]) {
                    wallKilled[w] = true;
                    kill(-pids[w], SIGKILL);
                    kill(pids[w], SIGKILL);
                }
            usleep(5000);
            continue;
        }
        for (int w = 0; w < W; w++) {
            if (pids[w] != p)
                continue;
            kill(-p, SIGKILL);
            pids[w] = -1;
            alive--;
            if (WIFEXITED(st) && WEXITSTATUS(st) == EX_PASS)
                continue;
            if (!slots[w].active) {
                // died outside of a case (cannot be judged): engine error
                fprintf(stderr, "[pbt] worker %d died outside of a case: %s\n",
                        w, describeStatus(st).c_str());
                continue;
            }
            Found f;
            f.worker = w;
            f.ambient = slots[w].ambient;
            for (auto& d : slots[w].done)
                f.done.push_back((uint64_t)d);
            f.sub = slots[w].sub;
            f.index = slots[w].index;
            f.out.kind = wallKilled[w] ||
                                 (WIFEXITED(st) && WEXITSTATUS(st) == EX_HANG)
                             ? Outcome::HANG
                         : (WIFEXITED(st) && WEXITSTATUS(st) == EX_FAIL)
                             ? Outcome::FAIL
                             : Outcome::CRASH;
            f.out.message = f.out.kind == Outcome::FAIL ? slots[w].message
                                                        : describeStatus(st);
            found.push_back(f);
            *stop = 1;
        }
    }

    // --- confirm and shrink the failures
    std::sort(found.begin(), found.end(), [](const Found& a, const Found& b) {
        return std::make_tuple(a.out.kind == Outcome::HANG, a.sub, a.index) <
               std::make_tuple(b.out.kind == Outcome::HANG, b.sub, b.index);
    });
    for (Found& f : found) {
        if (reported.count(f.sub))
            continue;
        if (f.out.kind == Outcome::HANG && violations > 0)
            continue;
        const Sub& sub = cfg.subs[f.sub];
        fprintf(stderr, "[pbt] %s/%s case %lu: %s\n", cfg.id.c_str(),
                sub.name.c_str(), (unsigned long)f.index,
                f.out.message.c_str());
        int again = 0;
        int tries = f.out.kind == Outcome::HANG ? 2 : sub.tries;
        int needed = f.out.kind == Outcome::HANG ? 2 : sub.needed;
        Outcome last;
        uint64_t ambient = 0;
        int ran = 0;
        std::string history;
        for (int pass = 0; pass < 2 && again < needed; pass++) {
            // First alone, then with the identifiers it had
            ambient = pass == 0 ? 0 : f.ambient;
            again = ran = 0;
            for (int t = 0; t < tries; t++) {
                if (again >= needed && t >= 3)
                    break;
                Outcome o = runForked(cfg, sub, &slots[W], nullptr,
                                      caseSeed(seed, f.sub, f.index), thorough,
                                      true, ambient);
                ran++;
                if (o.kind != Outcome::PASS) {
                    again++;
                    last = o;
                }
                else if (again + (tries - t - 1) < needed)
                    break;
            }
            if (f.ambient == 0 || f.out.kind == Outcome::HANG)
                break;
        }
        if (again < needed && f.out.kind != Outcome::HANG) {
            // Last, after the same cases in the same process.
            again = 0;
            tries = needed = 2;
            for (int t = 0; t < tries; t++) {
                pid_t p = spawn(f.worker, startSub[f.worker],
                                startIndex[f.worker], round, &f);
                int st = 0;
                double t1 = now();
                while (waitpid(p, &st, WNOHANG) == 0) {
                    if (now() - t1 > cap)
                        kill(p, SIGKILL);
                    usleep(5000);
                }
                kill(-p, SIGKILL);
                Slot& sl = slots[W];
                if (sl.active && sl.sub == f.sub && sl.index == f.index &&
                    now() - t1 < cap && !(WIFEXITED(st) && WEXITSTATUS(st) == EX_PASS)) {
                    again++;
                    last = f.out;
                    size_t nb = std::min<uint64_t>((uint64_t)sl.nb, (uint64_t)Slot::MAXC);
                    last.choices.assign(sl.choices, sl.choices + nb);
                    last.notes.assign(sl.notes, (size_t)sl.nbNotes);
                    history = "fails after the other cases of worker " +
                              std::to_string(f.worker) + " of " + std::to_string(W) +
                              ": run the check again with the same VERIF_SEED";
                }
                else
                    break;
            }
        }
        if (again < needed) {
            unconfirmed.push_back(sub.name + " case " +
                                  std::to_string(f.index) + " failed again " +
                                  std::to_string(again) + "/" +
                                  std::to_string(tries) + ": " +
                                  f.out.message);
            fprintf(stderr, "[pbt] not confirmed (%d/%d)\n", again, tries);
            continue;
        }
        Outcome best = last;
        if (last.kind != Outcome::HANG &&
            last.choices.size() < Slot::MAXC && again == ran && history.empty()) {
            shrink(cfg, sub, &slots[W], last.choices, best, thorough, 40.0,
                   ambient);
            // final run of the shrunk case, for its notes
            Outcome fin = runForked(cfg, sub, &slots[W], &best.choices, 0,
                                    thorough, true, ambient);
            if (fin.kind == best.kind)
                best = fin;
            else
                best = last;
        }
        std::string path = writeReplay(cfg, sub, best, thorough, seed, f.index,
                                       ambient, history);
        std::cout << "---- " << cfg.id << "/" << sub.name << "\n"
                  << best.message << "\n"
                  << best.notes.substr(0, 3000) << "\n";
        std::cout << "VIOLATION property=" << cfg.id << " replay=" << path
                  << std::endl;
        reported.insert(f.sub);
        violations++;
    }

    if (violations > 0 || found.empty())
        break;
    for (int w = 0; w < W; w++) {
        startSub[w] = slots[w].nextSub;
        startIndex[w] = slots[w].nextIndex;
    }
    for (Found& f : found) {
        startSub[f.worker] = f.sub;
        startIndex[f.worker] = f.index + (uint64_t)W;
    }
    }

    // --- gather the statistics
    uint64_t evals = 0;
    uint64_t distinct = 0;
    std::ostringstream subsJson, samplesJson;
    bool firstSub = true, firstSample = true;
    struct Tot {
        uint64_t evals = 0, nontrivial = 0;
        std::map<std::string, uint64_t> labels;
        std::set<uint64_t> fps;
        std::vector<std::string> samples;
    };
    std::vector<Tot> tots(cfg.subs.size());
    for (int w = 0; w < W; w++)
        for (int g = 0; g <= gens[w]; g++) {
            std::ifstream f(gScratch + "/w" + std::to_string(w) + "." +
                            std::to_string(g) + ".res");
            std::string line;
            size_t cur = 0;
            while (std::getline(f, line)) {
                std::istringstream is(line);
                std::string k;
                is >> k;
                if (k == "sub") {
                    uint64_t e, n;
                    is >> cur >> e >> n;
                    tots[cur].evals += e;
                    tots[cur].nontrivial += n;
                }
                else if (k == "label") {
                    uint64_t n;
                    is >> n;
                    std::string rest;
                    std::getline(is, rest);
                    tots[cur].labels[rest.substr(rest.empty() ? 0 : 1)] += n;
                }
                else if (k == "sample") {
                    tots[cur].samples.push_back(line.substr(7));
                }
                else if (k == "fp") {
                    uint64_t v;
                    is >> v;
                    tots[cur].fps.insert(v);
                }
            }
        }
    for (size_t s = 0; s < tots.size(); s++) {
        evals += tots[s].evals;
        distinct += tots[s].fps.size();
        if (!firstSub)
            subsJson << ",\n";
        firstSub = false;
        subsJson << "   \"" << cfg.subs[s].name
                 << "\": {\"cases\": " << tots[s].evals
                 << ", \"nontrivial\": " << tots[s].nontrivial
                 << ", \"distinct_nontrivial\": " << tots[s].fps.size()
                 << ", \"classes\": {";
        bool fl = true;
        for (auto& l : tots[s].labels) {
            if (!fl)
                subsJson << ", ";
            fl = false;
            subsJson << "\"" << jsonEscape(l.first) << "\": " << l.second;
        }
        subsJson << "}}";
        // the shortest sample of each worker set, at most two per sub-property
        std::sort(tots[s].samples.begin(), tots[s].samples.end(),
                  [](const std::string& a, const std::string& b) {
                      return a.size() < b.size();
                  });
        size_t n = tots[s].samples.size();
        for (size_t k = 0; k < std::min<size_t>(2, n); k++) {
            if (!firstSample)
                samplesJson << ",\n";
            firstSample = false;
            samplesJson << "   \"[" << cfg.subs[s].name << "] "
                        << tots[s].samples[k == 0 ? n / 2 : n - 1] << "\"";
        }
    }
    double wall = now() - t0;
    if (!evidence.empty()) {
        std::ofstream f(evidence);
        f << "{\n \"property\": \"" << cfg.id << "\",\n \"tier\": \""
          << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
          << "  \"evaluations\": " << evals
          << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"rule\": \""
          << jsonEscape(cfg.rule) << "\",\n  \"samples\": [\n"
          << samplesJson.str() << "\n  ],\n  \"sub_properties\": {\n"
          << subsJson.str() << "\n  },\n  \"unconfirmed_failures\": [";
        for (size_t i = 0; i < unconfirmed.size(); i++)
            f << (i ? ", " : "") << "\"" << jsonEscape(unconfirmed[i]) << "\"";
        f << "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < cfg.assumptions.size(); i++)
            f << (i ? ", " : "") << "\"" << jsonEscape(cfg.assumptions[i])
              << "\"";
        f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations
          << "\n}\n";
    }
    std::cout << cfg.id << ": " << evals << " cases, " << distinct
              << " distinct non-trivial, " << violations << " violation(s), "
              << wall << " s\n";
    for (size_t s = 0; s < tots.size(); s++) {
        std::cout << "  " << cfg.subs[s].name << ": " << tots[s].evals
                  << " cases, " << tots[s].fps.size()
                  << " distinct non-trivial;";
        for (auto& l : tots[s].labels)
            std::cout << " " << l.first << "=" << l.second;
        std::cout << "\n";
    }
    return violations > 0 ? 1 : 0;
}

} // namespace pbt
