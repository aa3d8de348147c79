#include "engine.hh"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <set>
#include <unordered_set>

#if __has_include(<valgrind/valgrind.h>)
#include <valgrind/valgrind.h>
#else
#define VALGRIND_COUNT_ERRORS 0
#endif

namespace pbt {

// PBT_UB: only undefined behaviour counts (sanitizer reports, traps, memcheck errors, endless loops);
// wrong values are the business of the other properties
static bool g_ub = false;

static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
void Source::seed(uint64_t s) {
    st[0] = splitmix(s);
    st[1] = splitmix(s);
    rec.clear();
    pos = 0;
}
uint64_t Source::next() {
    uint64_t s1 = st[0], s0 = st[1], r = s0 + s1;
    st[0] = s0;
    s1 ^= s1 << 23;
    st[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}
uint64_t Source::draw(uint64_t bound) {
    uint64_t v;
    if (replay) {
        v = pos < replay->size() ? (*replay)[pos] : 0;
        pos++;
        if (bound && v >= bound) v = bound - 1;
    } else {
        v = next();
        if (bound) v = (uint64_t)(((unsigned __int128)v * bound) >> 64);
    }
    rec.push_back(v);
    return v;
}
uint64_t fnv(const std::string &s, uint64_t h) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

static std::string g_tier = "quick";
static uint64_t g_seed = 1;
static std::string g_dir = ".";
static std::set<std::string> g_known;
bool thorough() { return g_tier == "thorough"; }
uint64_t seed() { return g_seed; }
bool known_listed(const std::string &f) { return g_known.count(f) != 0; }

struct Shm {
    volatile uint64_t cur[64];   // case index being executed, per worker
    volatile uint64_t done[64];  // worker finished normally
    volatile int fail;           // single-case verdict: 1 fail, 2 pass
    volatile uint32_t msglen, nrec, desclen;
    char msg[1 << 16];
    char desc[1 << 16];
    uint64_t rec[1 << 16];
};
static Shm *shm;
static Property P;

static void cpu_limit(int sec) {
    struct itimerval it = {{0, 0}, {sec, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
}

static uint64_t case_seed(uint64_t w, uint64_t i) {
    return g_seed * 0x9E3779B97F4A7C15ull + (w + 1) * 0xD1B54A32D192ED03ull + i * 0x2545F4914F6CDD1Dull + 77;
}

struct Verdict {
    bool fail = false;
    std::string msg, desc;
    std::vector<uint64_t> rec;
};

static void run_guarded(Source &s, Case &c, bool &fail, std::string &msg) {
    fail = false;
    const unsigned errors = VALGRIND_COUNT_ERRORS;
    (void)errors;
    try {
        P.run(s, c);
    } catch (const Failure &f) {
        if (g_ub) {
            c.label("ended early by a value comparison");
        } else {
            fail = true;
            msg = f.msg;
        }
    } catch (const std::exception &e) {
        fail = true;
        msg = std::string("unexpected exception: ") + e.what();
    }
    if (VALGRIND_COUNT_ERRORS > errors) {
        fail = true;
        msg = "memcheck: use of uninitialised or invalid memory";
    }
}

static const char *signame(int s) {
    switch (s) {
        case SIGFPE: return "SIGFPE (arithmetic trap)";
        case SIGSEGV: return "SIGSEGV (invalid memory access or stack exhaustion)";
        case SIGABRT: return "SIGABRT (abort)";
        case SIGPROF: return "no termination within the CPU limit";
        case SIGILL: return "SIGILL (trap)";
        case SIGBUS: return "SIGBUS";
        case SIGKILL: return "SIGKILL";
    }
    return "signal";
}

static int g_stderr_null = -1;

// Evaluate one case (given by seed or by a choice sequence) in a child process.
static Verdict eval(const std::vector<uint64_t> *choices, uint64_t sd) {
    shm->fail = 0;
    shm->msglen = 0;
    shm->nrec = 0;
    shm->desclen = 0;
    pid_t pid = fork();
    if (pid == 0) {
        cpu_limit(10);
        const std::string errs = g_dir + "/stderr.txt";
        const int fd = open(errs.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (!getenv("VERIF_VERBOSE") && fd >= 0) dup2(fd, 2);
        Source s;
        s.seed(sd);
        s.replay = choices;
        Case c;
        bool f;
        std::string m;
        // keep the record available if the code under test kills us
        s.rec.reserve(1 << 16);
        struct Flush {
            static void go(const Source &s, const Case &c, const std::string &m) {
                shm->nrec = std::min<size_t>(s.rec.size(), 1 << 16);
                memcpy(shm->rec, s.rec.data(), shm->nrec * 8);
                shm->msglen = std::min<size_t>(m.size(), sizeof(shm->msg));
                memcpy(shm->msg, m.data(), shm->msglen);
                shm->desclen = std::min<size_t>(c.desc.size(), sizeof(shm->desc));
                memcpy(shm->desc, c.desc.data(), shm->desclen);
            }
        };
        static Source *gs;
        static Case *gc;
        gs = &s;
        gc = &c;
        auto handler = +[](int sig) {
            Flush::go(*gs, *gc, "");
            signal(sig, SIG_DFL);
            raise(sig);
        };
        stack_t ss = {};
        ss.ss_size = 1 << 16;
        ss.ss_sp = malloc(ss.ss_size);
        sigaltstack(&ss, nullptr);
        for (int sg : {SIGFPE, SIGSEGV, SIGABRT, SIGPROF, SIGILL, SIGBUS}) {
            struct sigaction sa = {};
            sa.sa_handler = handler;
            sa.sa_flags = SA_ONSTACK;
            sigaction(sg, &sa, nullptr);
        }
        run_guarded(s, c, f, m);
        Flush::go(s, c, m);
        shm->fail = f ? 1 : 2;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Verdict v;
    v.rec.assign(shm->rec, shm->rec + shm->nrec);
    v.msg.assign(shm->msg, shm->msglen);
    v.desc.assign(shm->desc, shm->desclen);
    if (shm->fail == 1) {
        v.fail = true;
    } else if (shm->fail != 2) {
        v.fail = true;
        if (WIFSIGNALED(st)) {
            v.msg = std::string("the code under test stopped the process: ") + signame(WTERMSIG(st));
        } else {
            v.msg = "the code under test ended the process (sanitizer report or exit), status " +
                    std::to_string(WEXITSTATUS(st));
        }
        if (FILE *f = fopen((g_dir + "/stderr.txt").c_str(), "r")) {
            char b[1500];
            size_t n = fread(b, 1, sizeof b, f);
            fclose(f);
            if (n) v.msg += "\n" + std::string(b, n);
        }
    }
    return v;
}

// Run the cases [from, to] of a worker one after another in one child process; does the last fail?
// (for failures that depend on state left behind by earlier cases)
static bool eval_history(int w, uint64_t from, uint64_t to, std::string &msg) {
    shm->fail = 0;
    shm->msglen = 0;
    pid_t pid = fork();
    if (pid == 0) {
        if (!getenv("VERIF_VERBOSE") && g_stderr_null >= 0) dup2(g_stderr_null, 2);
        Source s;
        for (uint64_t i = from; i <= to; i++) {
            if (((i - from) & 127) == 0) cpu_limit(30);
            s.seed(case_seed(w, i));
            Case c;
            bool f;
            std::string m;
            run_guarded(s, c, f, m);
            if (f || i == to) {
                std::string t = c.desc + "\n" + m;
                shm->msglen = std::min<size_t>(t.size(), sizeof(shm->msg));
                memcpy(shm->msg, t.data(), shm->msglen);
                shm->fail = f ? 1 : 2;
                _exit(0);
            }
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    msg.assign(shm->msg, shm->msglen);
    if (shm->fail == 0) msg = "the code under test stopped the process";
    return shm->fail != 2;
}

static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

static Verdict shrink(Verdict best) {
    int budget = 3000;
    auto t0 = std::chrono::steady_clock::now();
    auto try_ = [&](const std::vector<uint64_t> &cand) {
        if (budget <= 0) return false;
        if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(60)) return false;
        budget--;
        Verdict v = eval(&cand, 0);
        // normalise: compare what was actually consumed
        if (v.fail && simpler(v.rec, best.rec)) {
            best = v;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && budget > 0) {
        progress = false;
        // truncate / delete chunks
        for (size_t k : {64, 16, 8, 4, 2, 1}) {
            for (size_t i = 0; i + k <= best.rec.size() && budget > 0;) {
                auto c = best.rec;
                c.erase(c.begin() + i, c.begin() + i + k);
                if (try_(c))
                    progress = true;
                else
                    i += k;
            }
        }
        // zero chunks
        for (size_t k : {32, 8, 2}) {
            for (size_t i = 0; i + k <= best.rec.size() && budget > 0; i += k) {
                auto c = best.rec;
                if (std::all_of(c.begin() + i, c.begin() + i + k, [](uint64_t v) { return v == 0; })) continue;
                std::fill(c.begin() + i, c.begin() + i + k, 0);
                if (try_(c)) progress = true;
            }
        }
        // lower single values
        for (size_t i = 0; i < best.rec.size() && budget > 0; i++) {
            if (best.rec[i] == 0) continue;
            auto c = best.rec;
            c[i] = 0;
            if (try_(c)) {
                progress = true;
                continue;
            }
            uint64_t lo = 0, hi = best.rec[i];
            int steps = 0;
            while (lo + 1 < hi && budget > 0 && steps++ < 12) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best.rec;
                if (i >= c.size()) break;
                c[i] = mid;
                if (try_(c)) {
                    progress = true;
                    hi = mid;
                } else {
                    lo = mid;
                }
            }
            if (i < best.rec.size() && best.rec[i] > 0) {
                c = best.rec;
                c[i]--;
                if (try_(c)) progress = true;
            }
        }
    }
    return best;
}

static std::string jesc(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o + "\"";
}

static std::string write_replay(const Verdict &v) {
    std::string path = g_dir + "/replay-" + P.id + "-" + std::to_string(g_seed) + ".txt";
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return path;
    const char *st = getenv("PBT_STAGE");
    fprintf(f, "property %s\nstage %s\ntier %s\nseed %llu\nchoices", P.id.c_str(), st ? st : "", g_tier.c_str(), (unsigned long long)g_seed);
    for (auto c : v.rec) fprintf(f, " %llu", (unsigned long long)c);
    fprintf(f, "\n---\n%s\n%s\n", v.desc.c_str(), v.msg.c_str());
    fclose(f);
    return path;
}

struct WorkerOut {
    uint64_t evaluations = 0, nontrivial = 0;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, std::pair<uint64_t, std::string>> known;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> distinct;
};

// A worker runs its cases in segments of different lengths, each in a process that has not run any case
// yet, so that both state left behind by earlier cases and state set up by the very first ones can show.
static uint64_t seglen(uint64_t k) { return P.segments[k % P.segments.size()]; }
static uint64_t segment_start(uint64_t i) {
    uint64_t s = 0;
    for (uint64_t k = 0; s + seglen(k) <= i; k++) s += seglen(k);
    return s;
}

static void segment(int w, uint64_t from, uint64_t to, uint64_t n, const std::string &outpath) {
    WorkerOut o;
    int failed = 0;
    uint64_t failidx = 0;
    Source s;
    for (uint64_t i = from; i < to; i++) {
        if (((i - from) & 127) == 0) cpu_limit(60);
        shm->cur[w] = i + 1;
        s.seed(case_seed(w, i));
        Case c;
        bool f;
        std::string m;
        run_guarded(s, c, f, m);
        o.evaluations++;
        for (auto &l : c.labels) o.labels[l]++;
        for (auto &k : c.known) {
            auto &e = o.known[k.first];
            if (e.first++ == 0) e.second = k.second;
        }
        if (c.nontrivial) {
            o.nontrivial++;
            o.distinct.insert(c.hash ? c.hash : fnv(c.desc));
            if (o.samples.empty() && (i == 0 || i > n / 2)) o.samples.push_back(c.desc);
        }
        if (f) {
            failed = 1;
            failidx = i;
            break;
        }
    }
    FILE *f = fopen(outpath.c_str(), "ab");
    fprintf(f, "%llu %llu %d %llu\n", (unsigned long long)o.evaluations, (unsigned long long)o.nontrivial, failed,
            (unsigned long long)failidx);
    fprintf(f, "%zu\n", o.labels.size());
    for (auto &l : o.labels) fprintf(f, "%llu %s\n", (unsigned long long)l.second, l.first.c_str());
    fprintf(f, "%zu\n", o.known.size());
    for (auto &k : o.known) {
        std::string t = k.second.second;
        std::replace(t.begin(), t.end(), '\n', ' ');
        fprintf(f, "%llu %s %s\n", (unsigned long long)k.second.first, k.first.c_str(), t.c_str());
    }
    fprintf(f, "%zu\n", o.samples.size());
    for (auto t : o.samples) {
        std::replace(t.begin(), t.end(), '\n', ' ');
        fprintf(f, "%s\n", t.c_str());
    }
    fprintf(f, "%zu\n", o.distinct.size());
    for (auto h : o.distinct) fwrite(&h, 8, 1, f);
    fclose(f);
    _exit(failed ? 42 : 41);
}

static void worker(int w, int nw, uint64_t total, const std::string &outpath) {
    const uint64_t n = total / nw + (uint64_t(w) < total % nw ? 1 : 0);
    uint64_t from = 0, end = 0;
    for (uint64_t k = 0; from < n; k++, from = end) {
        end = std::min(n, from + seglen(k));
        pid_t pid = fork();
        if (pid == 0) segment(w, from, end, n, outpath);
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 42) break;
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 41) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
    }
    shm->done[w] = 1;
    _exit(0);
}

static std::string rdline(FILE *f) {
    std::string s;
    int c;
    while ((c = fgetc(f)) != EOF && c != '\n') s += (char)c;
    return s;
}

int run_main(int argc, char **argv, const Property &p) {
    P = p;
    if (auto e = getenv("VERIF_SEED")) g_seed = strtoull(e, nullptr, 10);
    if (auto e = getenv("VERIF_TIER")) g_tier = e;
    if (auto e = getenv("PBT_ID")) P.id = e;
    if (getenv("PBT_UB")) g_ub = true;
    if (auto e = getenv("PBT_DIR")) g_dir = e;
    if (auto e = getenv("PBT_KNOWN")) {  // space separated finding ids
        std::string s = e, cur;
        for (char c : s + " ") {
            if (c == ' ') {
                if (!cur.empty()) g_known.insert(cur);
                cur.clear();
            } else
                cur += c;
        }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_stderr_null = open("/dev/null", O_WRONLY);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);

    if (argc >= 3 && !strcmp(argv[1], "--replay")) {
        FILE *f = fopen(argv[2], "r");
        if (!f) return 2;
        std::vector<uint64_t> ch;
        std::string l;
        while (!feof(f)) {
            l = rdline(f);
            int hw;
            unsigned long long h0, h1;
            if (sscanf(l.c_str(), "history %d %llu %llu", &hw, &h0, &h1) == 3) {
                std::string m;
                bool f1 = eval_history(hw, h0, h1, m);
                printf("%s\n%s\n", m.c_str(), f1 ? "FAILS" : "passes");
                return f1 ? 1 : 0;
            }
            unsigned long long sd;
            if (sscanf(l.c_str(), "seed %llu", &sd) == 1) g_seed = sd;
            if (l.rfind("choices", 0) == 0) {
                const char *q = l.c_str() + 7;
                char *e;
                while (*q) {
                    uint64_t v = strtoull(q, &e, 10);
                    if (e == q) break;
                    ch.push_back(v);
                    q = e;
                }
            }
        }
        fclose(f);
        Verdict v = eval(&ch, 0);
        printf("%s\n%s\n%s\n", v.desc.c_str(), v.msg.c_str(), v.fail ? "FAILS" : "passes");
        return v.fail ? 1 : 0;
    }

    int nw = 8;
    if (auto e = getenv("PBT_WORKERS")) nw = atoi(e);
    uint64_t total = thorough() ? p.thorough_cases : p.quick_cases;
    if (auto e = getenv("PBT_CASES")) total = strtoull(e, nullptr, 10);
    if (argc >= 3 && !strcmp(argv[1], "--gen")) {  // print a few cases
        for (int i = 0; i < atoi(argv[2]); i++) {
            Source s;
            s.seed(case_seed(0, i));
            Case c;
            bool f;
            std::string m;
            run_guarded(s, c, f, m);
            printf("%s%s\n", c.desc.c_str(), f ? ("   FAIL " + m).c_str() : "");
        }
        return 0;
    }
    auto t0 = std::chrono::steady_clock::now();

    std::vector<pid_t> pids(nw);
    std::vector<int> status(nw, -1);
    std::vector<std::string> outs(nw);
    for (int w = 0; w < nw; w++) {
        outs[w] = g_dir + "/out-" + P.id + "-" + std::to_string(w);
        unlink(outs[w].c_str());
        fflush(stdout);
        pids[w] = fork();
        if (pids[w] == 0) {
            if (!getenv("VERIF_VERBOSE")) dup2(g_stderr_null, 2);
            worker(w, nw, total, outs[w]);
        }
    }
    int alive = nw;
    while (alive) {
        int st;
        pid_t pid = wait(&st);
        for (int w = 0; w < nw; w++)
            if (pids[w] == pid) {
                status[w] = st;
                alive--;
            }
    }
    WorkerOut o;
    std::vector<std::pair<int, uint64_t>> fails;
    for (int w = 0; w < nw; w++) {
        if (!shm->done[w]) {
            fails.push_back({w, shm->cur[w] - 1});
            o.evaluations += shm->cur[w];
            continue;
        }
        FILE *f = fopen(outs[w].c_str(), "rb");
        if (!f) continue;  // no cases
        unsigned long long a, b, fi;
        int fl;
        for (std::string head; !(head = rdline(f)).empty();) {
        if (sscanf(head.c_str(), "%llu %llu %d %llu", &a, &b, &fl, &fi) != 4) return 2;
        o.evaluations += a;
        o.nontrivial += b;
        if (fl) fails.push_back({w, fi});
        size_t n = strtoull(rdline(f).c_str(), nullptr, 10);
        while (n--) {
            std::string l = rdline(f);
            size_t sp = l.find(' ');
            o.labels[l.substr(sp + 1)] += strtoull(l.c_str(), nullptr, 10);
        }
        n = strtoull(rdline(f).c_str(), nullptr, 10);
        while (n--) {
            std::string l = rdline(f);
            size_t sp = l.find(' ');
            size_t sp2 = l.find(' ', sp + 1);
            auto &e = o.known[l.substr(sp + 1, sp2 - sp - 1)];
            e.first += strtoull(l.c_str(), nullptr, 10);
            e.second = l.substr(sp2 + 1);
        }
        n = strtoull(rdline(f).c_str(), nullptr, 10);
        while (n--) {
            std::string l = rdline(f);
            if (o.samples.size() < 8) o.samples.push_back(l);
        }
        n = strtoull(rdline(f).c_str(), nullptr, 10);
        while (n--) {
            uint64_t h;
            if (fread(&h, 8, 1, f) == 1) o.distinct.insert(h);
        }
        }
        fclose(f);
    }
    int violations = 0, unreproduced = 0;
    std::string replay;
    Verdict best;
    std::sort(fails.begin(), fails.end());
    for (auto &fl : fails) {
        uint64_t sd = case_seed(fl.first, fl.second);
        Verdict v = eval(nullptr, sd);
        bool ok = v.fail;
        for (int k = 0; ok && k < 2; k++) ok = eval(nullptr, sd).fail;
        if (!ok) {
            // maybe it needs the cases before it
            bool hist = false;
            for (uint64_t k = 16; !hist && replay.empty(); k *= 16) {
                const uint64_t seg = segment_start(fl.second);
                uint64_t from = std::max(seg, fl.second >= k ? fl.second - k : 0);
                std::string m;
                hist = true;
                for (int r = 0; hist && r < 2; r++) hist = eval_history(fl.first, from, fl.second, m);
                if (hist) {
                    replay = g_dir + "/replay-" + P.id + "-" + std::to_string(g_seed) + ".txt";
                    FILE *f = fopen(replay.c_str(), "w");
                    fprintf(f, "property %s\nstage %s\ntier %s\nseed %llu\nhistory %d %llu %llu\n---\n%s\n", P.id.c_str(),
                            getenv("PBT_STAGE") ? getenv("PBT_STAGE") : "", g_tier.c_str(), (unsigned long long)g_seed, fl.first, (unsigned long long)from,
                            (unsigned long long)fl.second, m.c_str());
                    fclose(f);
                    printf("after %llu earlier cases: %s\n", (unsigned long long)(fl.second - from), m.c_str());
                    violations++;
                }
                if (from == seg) break;
            }
            if (hist) continue;
            unreproduced++;
            fprintf(stderr, "worker %d case %llu: failure not reproduced (status %d)\n", fl.first,
                    (unsigned long long)fl.second, status[fl.first]);
            continue;
        }
        if (!violations || simpler(v.rec, best.rec)) best = v;
        violations++;
    }
    if (violations && replay.empty()) {
        Verdict s = best.rec.empty() ? best : shrink(best);
        bool ok = true;
        for (int k = 0; ok && k < 3; k++) ok = eval(&s.rec, 0).fail;
        if (!ok) s = best;
        replay = write_replay(s);
        printf("%s\n%s\n", s.desc.c_str(), s.msg.c_str());
    }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    // summary for the driver script
    std::string sp = g_dir + "/summary-" + P.id + ".json";
    FILE *f = fopen(sp.c_str(), "w");
    fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %zu, \"rule\": %s, \"labels\": {",
            (unsigned long long)o.evaluations, (unsigned long long)o.nontrivial, o.distinct.size(),
            jesc(P.rule).c_str());
    bool first = true;
    for (auto &l : o.labels) {
        fprintf(f, "%s%s: %llu", first ? "" : ", ", jesc(l.first).c_str(), (unsigned long long)l.second);
        first = false;
    }
    fprintf(f, "}, \"samples\": [");
    for (size_t i = 0; i < o.samples.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jesc(o.samples[i].substr(0, 1200)).c_str());
    fprintf(f, "], \"assumptions\": [");
    for (size_t i = 0; i < P.assumptions.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jesc(P.assumptions[i]).c_str());
    fprintf(f, "], \"known\": {");
    first = true;
    for (auto &k : o.known) {
        fprintf(f, "%s%s: {\"count\": %llu, \"example\": %s}", first ? "" : ", ", jesc(k.first).c_str(),
                (unsigned long long)k.second.first, jesc(k.second.second).c_str());
        first = false;
    }
    fprintf(f, "}, \"run_s\": %.2f, \"violations\": %d, \"unreproduced\": %d, \"replay\": %s}\n", wall, violations,
            unreproduced, jesc(replay).c_str());
    fclose(f);
    for (auto &op : outs) unlink(op.c_str());
    if (violations) return 1;
    if (unreproduced) return 3;
    return 0;
}
}  // namespace pbt
