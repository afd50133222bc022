/*
 * Small property-based testing engine for the TdZdd checks.
 *
 * - A case is a deterministic function of a sequence of bounded integer choices
 *   (Src).  In search mode the choices come from a seeded generator, in replay mode
 *   from a list, so that any case can be shrunk by editing the list and re-running.
 * - Cases run in forked worker processes, so crashes, aborts (assert), sanitizer
 *   reports and hangs of the code under test become ordinary failures.
 * - The parent never runs code under test itself.
 */
#pragma once
#include <algorithm>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

inline uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
    bool chance(unsigned a, unsigned b) { return below(b) < a; }
    int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo) + 1)); }
};

struct Fail: std::exception {
    std::string msg;
    explicit Fail(std::string const& m) : msg(m) {}
    ~Fail() throw () {}
    char const* what() const throw () { return msg.c_str(); }
};

static size_t const CHOICE_CAP = 1u << 20;

struct Slot { // shared between parent and worker
    volatile uint64_t caseNo;
    volatile double startTime;
    volatile int sub;
    volatile int failed; // 1: Fail thrown
    volatile uint64_t numChoices;
    char msg[4096];
    uint64_t choice[CHOICE_CAP];
};

/** Source of all random choices of a case.  0 is always the simplest choice. */
class Src {
    bool replay_;
    std::vector<uint64_t> const* in_;
    size_t pos_;
    Rng rng_;
    Slot* slot_;
    uint64_t hash_;

public:
    Src(uint64_t seed, Slot* slot) :
            replay_(false), in_(0), pos_(0), rng_(seed), slot_(slot), hash_(0) {}
    Src(std::vector<uint64_t> const* in, Slot* slot) :
            replay_(true), in_(in), pos_(0), rng_(0), slot_(slot), hash_(0) {}

    uint64_t below(uint64_t n) {
        uint64_t v = 0;
        if (n > 1) {
            if (!replay_) v = rng_.next() % n;
            else if (pos_ < in_->size()) {
                v = (*in_)[pos_];
                if (v >= n) v = n - 1;
            }
        }
        put(v);
        return v;
    }
    /** Full 64-bit value. */
    uint64_t u64() {
        uint64_t v = 0;
        if (!replay_) v = rng_.next();
        else if (pos_ < in_->size()) v = (*in_)[pos_];
        put(v);
        return v;
    }
    /** lo <= x <= hi, uniformly; lo is simplest. */
    int range(int lo, int hi) { return hi <= lo ? lo : lo + int(below(uint64_t(hi) - uint64_t(lo) + 1)); }
    /** true with probability a/b; false is simplest. */
    bool chance(unsigned a, unsigned b) { return below(b) >= b - a; }
    bool flip() { return below(2); }
    /** Small values much more often than large ones. */
    int skew(int lo, int hi) {
        int w = hi - lo;
        if (w <= 0) return lo;
        switch (below(4)) {
        case 0: return range(lo, lo + std::min(w, 3));
        case 1: return range(lo, lo + w / 3);
        default: return range(lo, hi);
        }
    }
    template<typename T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
    uint64_t hash() const { return hash_; }
    size_t used() const { return pos_; }

private:
    void put(uint64_t v) {
        if (slot_ && pos_ < CHOICE_CAP) { slot_->choice[pos_] = v; slot_->numChoices = pos_ + 1; }
        ++pos_;
        hash_ = mix(hash_ ^ v) + pos_;
    }
};

/** Per-case context: classification, description, failure. */
class Ctx {
public:
    bool verbose; // the description is wanted
    std::ostringstream desc;
    std::set<std::string> tags;
    bool nontrivial_;
    uint64_t sig; // semantic identity of the case (0: use the choices)
    uint64_t evals; // evaluations inside this case

    explicit Ctx(bool v) : verbose(v), nontrivial_(false), sig(0), evals(1) {}
    void tag(std::string const& t, bool on = true) { if (on) tags.insert(t); }
    void nontrivial(bool b = true) { if (b) nontrivial_ = true; }
};

inline std::string cat() { return ""; }
template<typename A, typename ... R> std::string cat(A const& a, R const& ... r) {
    std::ostringstream os; os << a; return os.str() + cat(r...);
}
#define PBT_FAIL(...) throw pbt::Fail(pbt::cat(__VA_ARGS__))
#define PBT_CHECK(c, ...) do { if (!(c)) throw pbt::Fail(pbt::cat("[" #c "] ", __VA_ARGS__)); } while (0)
#define PBT_EQ(a, b, ...) do { auto a_ = (a); auto b_ = (b); if (!(a_ == b_)) throw pbt::Fail(pbt::cat(#a " = ", a_, " but " #b " = ", b_, "; ", __VA_ARGS__)); } while (0)

typedef void (*PropFn)(Src&, Ctx&);
struct Prop { std::string name; PropFn fn; int weight; };
inline std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
struct Reg { Reg(char const* n, PropFn f, int w) { Prop p = {n, f, w}; props().push_back(p); } };
#define PROPERTY(NAME, WEIGHT) \
    static void NAME(pbt::Src& s, pbt::Ctx& c); \
    static pbt::Reg reg_##NAME(#NAME, NAME, WEIGHT); \
    static void NAME(pbt::Src& s, pbt::Ctx& c)

inline double now() {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

/** Hook run before each case in the worker (reset of global state). */
inline void (*&beforeCase())() { static void (*f)() = 0; return f; }

/** Runs one case in this process; returns true if it passed. */
inline bool runCase(Prop const& p, Src& s, Ctx& c, std::string& msg) {
    try {
        if (beforeCase()) beforeCase()();
        p.fn(s, c);
        return true;
    }
    catch (Fail& e) { msg = e.msg; }
    catch (std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { msg = "unexpected exception"; }
    return false;
}

inline std::string jstr(std::string const& s) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char ch = s[i];
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r + "\"";
}

struct Options {
    uint64_t seed; uint64_t cases; int workers; double tlimit; double hang; int repeat; std::string out, replay, label, only;
    double shrinkTime; std::string logdir;
};

class Runner {
    Options o;
    std::vector<int> sched;
    std::vector<std::pair<int, uint64_t> > rare; ///< property, period

    uint64_t caseSeed(uint64_t i, int sub) const {
        uint64_t h = mix(o.seed ^ 0x51ED2701);
        for (char ch : o.label) h = mix(h ^ uint64_t((unsigned char) ch));
        for (char ch : props()[sub].name) h = mix(h ^ uint64_t((unsigned char) ch));
        return mix(h + i * 0x9E3779B97F4A7C15ull);
    }

    std::string statFile(int w) const { return cat(o.out, ".w", w); }

    void redirect(int w) {
        // The code under test may print; keep it away from the driver's pipes.
        std::string f = cat(o.out, ".err", w);
        int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
        if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
    }

    [[noreturn]] void worker(int w, Slot* slot, double deadline) {
        redirect(w);
        std::map<std::string, std::map<std::string, uint64_t> > tags;
        std::map<std::string, uint64_t> count;
        std::unordered_set<uint64_t> distinct;
        uint64_t evals = 0, nontriv = 0, done = 0;
        std::vector<std::string> samples;
        std::map<std::string, int> sampled;
        for (uint64_t i = w; i < o.cases; i += o.workers) {
            if (now() > deadline) break;
            int sub = sched[i % sched.size()];
            for (auto const& x : rare) if (i % x.second == x.second / 2) sub = x.first;
            slot->numChoices = 0; slot->caseNo = i; slot->sub = sub; slot->startTime = now();
            bool want = w < 2 && sampled[props()[sub].name] < 2;
            Src s(caseSeed(i, sub), slot);
            Ctx c(want);
            std::string msg;
            if (!runCase(props()[sub], s, c, msg)) {
                strncpy(slot->msg, msg.c_str(), sizeof(slot->msg) - 1);
                slot->failed = 1;
                _exit(3);
            }
            ++done; evals += c.evals;
            ++count[props()[sub].name];
            for (auto const& t : c.tags) ++tags[props()[sub].name][t];
            if (c.nontrivial_) {
                ++nontriv;
                uint64_t h = c.sig ? c.sig : s.hash();
                distinct.insert(mix(h + uint64_t(sub) * 77777));
                if (want && ++sampled[props()[sub].name]) samples.push_back(props()[sub].name + ": " + c.desc.str());
            }
        }
        slot->startTime = 0;
        std::ofstream f(statFile(w).c_str());
        f << done << " " << evals << " " << nontriv << "\n";
        f << count.size() << "\n";
        for (auto const& p : count) f << p.first << " " << p.second << "\n";
        size_t nt = 0;
        for (auto const& p : tags) nt += p.second.size();
        f << nt << "\n";
        for (auto const& p : tags) for (auto const& q : p.second) f << p.first << ":" << q.first << " " << q.second << "\n";
        f << samples.size() << "\n";
        for (auto const& t : samples) f << jstr(t.size() > 1500 ? t.substr(0, 1500) + "..." : t) << "\n";
        f << distinct.size() << "\n";
        for (uint64_t h : distinct) f << h << "\n";
        f.close();
        _exit(0);
    }

    struct Outcome { bool fail; std::string msg; };

    /** A child ends with its parent and cannot fill the disk. */
    static void contain(pid_t parent) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != parent) _exit(4);
        struct rlimit lim = {rlim_t(1) << 28, rlim_t(1) << 28};
        setrlimit(RLIMIT_FSIZE, &lim);
        struct rlimit st; // the oracle's recursion is as deep as the diagram is tall
        if (getrlimit(RLIMIT_STACK, &st) == 0 && st.rlim_cur < (rlim_t(100) << 20) && (st.rlim_max == RLIM_INFINITY || st.rlim_max >= (rlim_t(100) << 20))) {
            st.rlim_cur = rlim_t(100) << 20;
            setrlimit(RLIMIT_STACK, &st);
        }
    }

    /** Runs one choice list in a forked child. */
    Outcome attempt(int sub, std::vector<uint64_t> const& ch, Slot* slot, double hang, int repeat,
            std::string* descOut = 0) {
        slot->failed = 0; slot->msg[0] = 0; slot->numChoices = 0;
        std::string df = o.out + ".desc";
        if (descOut) unlink(df.c_str());
        pid_t self = getpid(), pid = fork();
        if (pid == 0) {
            contain(self);
            redirect(999);
            std::string msg;
            bool ok = true;
            for (int r = 0; ok && r < repeat; ++r) {
                Src s(&ch, slot);
                Ctx c(descOut != 0);
                if (descOut) { // description must survive a crash
                    CtxSink::install(&c, df);
                }
                ok = runCase(props()[sub], s, c, msg);
                if (descOut) { std::ofstream f(df.c_str()); f << c.desc.str(); }
            }
            if (!ok) {
                strncpy(slot->msg, msg.c_str(), sizeof(slot->msg) - 1);
                slot->failed = 1;
                _exit(3);
            }
            _exit(0);
        }
        double t0 = now();
        int st = 0;
        Outcome r = {false, ""};
        for (;;) {
            pid_t q = waitpid(pid, &st, WNOHANG);
            if (q == pid) break;
            if (now() - t0 > hang) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                r.fail = true; r.msg = "did not terminate";
                break;
            }
            usleep(now() - t0 < 0.05 ? 200 : 5000);
        }
        if (!r.fail && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            r.fail = true;
            if (slot->failed) r.msg = slot->msg;
            else if (WIFSIGNALED(st)) r.msg = cat("crashed with signal ", WTERMSIG(st), tail(999));
            else r.msg = cat("exited with status ", WEXITSTATUS(st), tail(999));
        }
        if (descOut) {
            std::ifstream f(df.c_str());
            std::stringstream ss; ss << f.rdbuf();
            *descOut = ss.str();
            unlink(df.c_str());
        }
        return r;
    }

    struct CtxSink {
        static Ctx*& ctx() { static Ctx* c = 0; return c; }
        static std::string& file() { static std::string f; return f; }
        static void handler(int sig) {
            // best effort: write what has been described so far
            std::ofstream f(file().c_str());
            f << ctx()->desc.str();
            f.close();
            signal(sig, SIG_DFL);
            raise(sig);
        }
        static void install(Ctx* c, std::string const& f) {
            ctx() = c; file() = f;
            signal(SIGABRT, handler);
        }
    };

    /** Last informative lines the code under test (or a sanitizer) printed. */
    std::string tail(int w) const {
        std::ifstream f(cat(o.out, ".err", w).c_str());
        std::string line, keep;
        while (std::getline(f, line)) {
            if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error") != std::string::npos
                    || line.find("Assertion") != std::string::npos || line.find("what():") != std::string::npos) {
                keep += " | " + line.substr(0, 300);
                if (keep.size() > 1500) break;
            }
        }
        return keep;
    }

    /** Repeats one choice list in all workers at once for a while; the number of workers that saw it fail. */
    int stress(int sub, std::vector<uint64_t> const& ch, std::string& msg) {
        double deadline = now() + 12;
        std::vector<Slot*> found;
        std::vector<pid_t> pids;
        for (int w = 0; w < o.workers; ++w) {
            Slot* f = newSlot();
            f->failed = 0;
            found.push_back(f);
            pid_t self = getpid(), p = fork();
            if (p == 0) {
                contain(self);
                Slot* slot = newSlot();
                while (now() < deadline) {
                    Outcome r = attempt(sub, ch, slot, std::min(o.hang, 20.0), o.repeat * 4);
                    if (r.fail && r.msg != "did not terminate") {
                        strncpy(f->msg, r.msg.c_str(), sizeof(f->msg) - 1);
                        f->failed = 1;
                        break;
                    }
                }
                _exit(0);
            }
            pids.push_back(p);
        }
        int n = 0;
        for (int w = 0; w < o.workers; ++w) {
            int st;
            waitpid(pids[w], &st, 0);
            if (found[w]->failed) { ++n; msg = found[w]->msg; }
        }
        return n;
    }

    /** Greedy shrinking of the choice list. */
    std::vector<uint64_t> shrink(int sub, std::vector<uint64_t> best, Slot* slot, std::string& msg, uint64_t& tried) {
        double deadline = now() + o.shrinkTime;
        double hang = std::min(o.hang, 20.0);
        auto tryIt = [&](std::vector<uint64_t> const& c) -> bool {
            if (now() > deadline) return false;
            ++tried;
            Outcome r = attempt(sub, c, slot, hang, o.repeat);
            if (!r.fail) return false;
            size_t used = std::min<size_t>(uint64_t(slot->numChoices), c.size());
            best = c;
            if (slot->failed && used < best.size()) best.resize(used);
            msg = r.msg;
            return true;
        };
        bool progress = true;
        int rounds = 0;
        while (progress && now() < deadline && rounds++ < 20) {
            progress = false;
            // drop chunks
            for (size_t len = best.size() / 2; len >= 1; len /= 2) {
                for (size_t p = 0; p + len <= best.size() && now() < deadline;) {
                    std::vector<uint64_t> c(best);
                    c.erase(c.begin() + p, c.begin() + p + len);
                    if (tryIt(c)) progress = true;
                    else p += len;
                }
            }
            // zero chunks
            for (size_t len = best.size() / 2; len >= 1; len /= 2) {
                for (size_t p = 0; p + len <= best.size() && now() < deadline; p += len) {
                    std::vector<uint64_t> c(best);
                    bool any = false;
                    for (size_t k = p; k < p + len; ++k) { if (c[k]) any = true; c[k] = 0; }
                    if (any && tryIt(c)) progress = true;
                }
            }
            // lower single values
            for (size_t p = 0; p < best.size() && now() < deadline; ++p) {
                while (p < best.size() && best[p] > 0) {
                    std::vector<uint64_t> c(best);
                    c[p] /= 2;
                    if (tryIt(c)) { progress = true; continue; }
                    if (p < best.size() && best[p] > 1) {
                        c = best; c[p] -= 1;
                        if (tryIt(c)) { progress = true; continue; }
                    }
                    break;
                }
            }
        }
        return best;
    }

    Slot* newSlot() {
        void* m = mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) { perror("mmap"); exit(2); }
        return static_cast<Slot*>(m);
    }

public:
    explicit Runner(Options const& oo) : o(oo) {
        for (size_t k = 0; k < props().size(); ++k) {
            if (!o.only.empty() && props()[k].name != o.only) continue;
            if (props()[k].weight < 0) { // once in so many cases
                if (!o.only.empty()) sched.push_back(k);
                else rare.push_back(std::make_pair(int(k), uint64_t(-props()[k].weight) | 1));
            }
            for (int j = 0; j < props()[k].weight; ++j) sched.push_back(k);
        }
        // interleave deterministically
        Rng r(12345);
        for (size_t i = sched.size(); i > 1; --i) std::swap(sched[i - 1], sched[r.below(i)]);
    }

    int replay() {
        std::ifstream f(o.replay.c_str());
        std::string line, name;
        std::vector<uint64_t> ch;
        while (std::getline(f, line)) {
            if (line.compare(0, 5, "prop ") == 0) name = line.substr(5);
            else if (line.compare(0, 8, "choices ") == 0) {
                std::istringstream is(line.substr(8));
                uint64_t v;
                while (is >> v) ch.push_back(v);
            }
        }
        for (size_t k = 0; k < props().size(); ++k) {
            if (props()[k].name != name) continue;
            Slot* slot = newSlot();
            std::string d;
            Outcome r = attempt(k, ch, slot, o.hang, o.repeat, &d);
            std::cout << "case: " << d << "\n" << (r.fail ? "FAIL: " + r.msg : std::string("PASS")) << "\n";
            return r.fail ? 1 : 0;
        }
        std::cout << "unknown property function " << name << "\n";
        return 2;
    }

    int run() {
        if (sched.empty()) { std::cerr << "nothing to run\n"; return 2; }
        double t0 = now(), deadline = t0 + o.tlimit;
        std::vector<Slot*> slots;
        std::vector<pid_t> pids;
        for (int w = 0; w < o.workers; ++w) {
            unlink(statFile(w).c_str());
            slots.push_back(newSlot());
            slots[w]->startTime = now();
            pid_t self = getpid(), p = fork();
            if (p == 0) { contain(self); worker(w, slots[w], deadline); }
            pids.push_back(p);
        }
        int alive = o.workers, failedWorker = -1;
        std::string failMsg;
        while (alive > 0 && failedWorker < 0) {
            for (int w = 0; w < o.workers && failedWorker < 0; ++w) {
                if (pids[w] <= 0) continue;
                int st;
                pid_t q = waitpid(pids[w], &st, WNOHANG);
                if (q == pids[w]) {
                    pids[w] = -1; --alive;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                        failedWorker = w;
                        if (slots[w]->failed) failMsg = slots[w]->msg;
                        else if (WIFSIGNALED(st)) failMsg = cat("crashed with signal ", WTERMSIG(st), tail(w));
                        else failMsg = cat("exited with status ", WEXITSTATUS(st), tail(w));
                    }
                }
                else if (slots[w]->startTime > 0 && now() - slots[w]->startTime > o.hang) {
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                    pids[w] = -1; --alive;
                    failedWorker = w;
                    failMsg = "did not terminate";
                }
            }
            usleep(10000);
        }
        for (int w = 0; w < o.workers; ++w) {
            if (pids[w] > 0) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }
        }

        std::ofstream out(o.out.c_str());
        if (failedWorker >= 0) {
            Slot* fs = slots[failedWorker];
            int sub = fs->sub;
            uint64_t caseNo = fs->caseNo;
            std::vector<uint64_t> ch(fs->choice, fs->choice + std::min<uint64_t>(uint64_t(fs->numChoices), CHOICE_CAP));
            // Regenerate from the seed: the list may be truncated by the crash, which is fine (rest = 0 would differ),
            // so complete it by a full run if possible.
            Slot* slot = newSlot();
            uint64_t tried = 0;
            bool confirmed = false;
            std::string msg = failMsg;
            int repro = 0;
            for (int k = 0; k < 3; ++k) {
                Outcome r = attempt(sub, ch, slot, o.hang, o.repeat);
                if (r.fail) { ++repro; msg = r.msg; }
                if (failMsg == "did not terminate" || r.msg == "did not terminate") break; // once more is enough, and takes long
            }
            // a failure that needs a particular interleaving: repeat it in many processes at once
            if (repro == 0) repro = stress(sub, ch, msg);
            confirmed = repro > 0;
            std::vector<uint64_t> best = ch;
            if (confirmed) best = shrink(sub, ch, slot, msg, tried);
            std::string d;
            int rep2 = 0;
            for (int k = 0; k < 3; ++k) {
                bool hangs = msg == "did not terminate";
                Outcome r = attempt(sub, best, slot, hangs ? std::min(o.hang, 30.0) : o.hang, std::max(o.repeat, 1), k == 0 ? &d : 0);
                if (r.fail) { ++rep2; msg = r.msg; }
                if (hangs || r.msg == "did not terminate") break;
            }
            if (confirmed && rep2 == 0) { best = ch; rep2 = repro; }
            out << "{\"status\":\"fail\",\"confirmed\":" << (confirmed ? "true" : "false") << ",\"prop\":" << jstr(props()[sub].name)
                << ",\"case\":" << caseNo << ",\"reproduced\":" << rep2 << ",\"shrink_attempts\":" << tried
                << ",\"first_message\":" << jstr(failMsg.substr(0, 2000))
                << ",\"message\":" << jstr(msg.substr(0, 3000)) << ",\"desc\":" << jstr(d.substr(0, 20000)) << ",\"choices\":[";
            for (size_t i = 0; i < best.size(); ++i) out << (i ? "," : "") << best[i];
            out << "],\"wall\":" << now() - t0 << "}\n";
            return 1;
        }
        uint64_t done = 0, evals = 0, nontriv = 0;
        std::map<std::string, uint64_t> count, tags;
        std::unordered_set<uint64_t> distinct;
        std::vector<std::string> samples;
        for (int w = 0; w < o.workers; ++w) {
            std::ifstream f(statFile(w).c_str());
            uint64_t a, b, cc; size_t k; std::string nm; uint64_t v;
            if (!(f >> a >> b >> cc)) continue;
            done += a; evals += b; nontriv += cc;
            f >> k; while (k--) { f >> nm >> v; count[nm] += v; }
            f >> k; std::getline(f, nm);
            while (k--) { std::getline(f, nm); size_t p = nm.rfind(' '); tags[nm.substr(0, p)] += strtoull(nm.c_str() + p, 0, 10); }
            f >> k; std::getline(f, nm);
            while (k--) { std::getline(f, nm); samples.push_back(nm); }
            f >> k; while (k--) { f >> v; distinct.insert(v); }
            f.close();
            unlink(statFile(w).c_str());
            unlink(cat(o.out, ".err", w).c_str());
        }
        out << "{\"status\":\"pass\",\"cases\":" << done << ",\"planned\":" << o.cases << ",\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv
            << ",\"distinct_nontrivial\":" << distinct.size() << ",\"wall\":" << now() - t0;
        out << ",\"per_property\":{";
        bool first = true;
        for (auto const& p : count) { out << (first ? "" : ",") << jstr(p.first) << ":" << p.second; first = false; }
        out << "},\"tags\":{";
        first = true;
        for (auto const& p : tags) { out << (first ? "" : ",") << jstr(p.first) << ":" << p.second; first = false; }
        out << "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i) out << (i ? "," : "") << samples[i];
        out << "]}\n";
        return 0;
    }
};

inline int pbtMain(int argc, char** argv) {
    Options o;
    o.seed = 1; o.cases = 1000; o.workers = 8; o.tlimit = 600; o.hang = 120; o.repeat = 1; o.out = "/dev/null"; o.shrinkTime = 60;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") o.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--cases") o.cases = strtoull(v.c_str(), 0, 10);
        else if (k == "--workers") o.workers = atoi(v.c_str());
        else if (k == "--tlimit") o.tlimit = atof(v.c_str());
        else if (k == "--hang") o.hang = atof(v.c_str());
        else if (k == "--repeat") o.repeat = atoi(v.c_str());
        else if (k == "--shrink") o.shrinkTime = atof(v.c_str());
        else if (k == "--out") o.out = v;
        else if (k == "--label") o.label = v;
        else if (k == "--only") o.only = v;
        else if (k == "--replay") o.replay = v;
        else { std::cerr << "unknown option " << k << "\n"; return 2; }
    }
    Runner r(o);
    return o.replay.empty() ? r.run() : r.replay();
}

} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::pbtMain(argc, argv); }
#endif
