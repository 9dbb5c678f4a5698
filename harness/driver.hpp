// Driver: runs generated cases of one property in forked workers, maps crashes,
// hangs and failures back to the generated case, shrinks the case to a minimal
// reproduction (each candidate in its own process), and replays reproductions.
//
// Non-sanitised builds replace the heap with one that fills fresh memory with a
// chosen pattern, guards both ends of each block and counts live blocks.
#ifndef PBT_DRIVER_HPP
#define PBT_DRIVER_HPP
#include "core.hpp"
#include <atomic>
#include <new>
#include <unordered_set>
#include <math.h>
#include <sys/prctl.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#define PBT_SANITIZED 1
#endif
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define PBT_SANITIZED 1
#endif

//---------------------------------------------------------------- heap
namespace pbt {
struct HeapState {
    std::atomic<uint64_t> junk, live, blocks, total;
    std::atomic<int> bad;
};
inline HeapState& heapState() { static HeapState h; return h; }
inline void setJunk(uint64_t v) { heapState().junk = v; }
inline std::string heapError() {
    int b = heapState().bad.exchange(0);
    if (b == 1) return "memory outside a heap block was written";
    if (b == 2) return "a heap block was released twice or was never allocated";
    return "";
}
} // namespace pbt

#ifdef PBT_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char* __asan_default_options() {
    return "exitcode=77:abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=5000:quarantine_size_mb=16:detect_stack_use_after_return=0:handle_abort=0";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=77:print_stacktrace=0"; }
namespace pbt { inline uint64_t liveBytes() { return __sanitizer_get_current_allocated_bytes(); } }
#elif defined(PBT_SANITIZED) || defined(PBT_PLAIN)
extern "C" const char* __tsan_default_options() { return "exitcode=77:halt_on_error=1:report_signal_unsafe=0"; }
namespace pbt { inline uint64_t liveBytes() { return 0; } }
#else
namespace pbt {
static const uint64_t kLiveMagic = 0xa110c8edb10c0001ULL, kDeadMagic = 0xdeadb10cdeadb10cULL;
struct Head { uint64_t size, magic, g0, g1; };
static const size_t kTail = 32;
inline uint64_t liveBytes() { return heapState().live; }
inline void* jnew(size_t n) {
    HeapState& h = heapState();
    char* p = (char*)malloc(sizeof(Head) + n + kTail);
    if (!p) throw std::bad_alloc();
    Head* hd = (Head*)p;
    uint64_t j = h.junk;
    hd->size = n; hd->magic = kLiveMagic; hd->g0 = j; hd->g1 = ~n;
    char* u = p + sizeof(Head);
    size_t k = 0, e = n + kTail;
    for (; k + 8 <= e; k += 8) memcpy(u + k, &j, 8);
    for (; k < e; k++) u[k] = (char)(j >> (8 * (k & 7)));
    // the guard behind the block: remember the pattern in front
    h.live += n; h.blocks++; h.total++;
    return u;
}
inline void jdel(void* v) {
    if (!v) return;
    HeapState& h = heapState();
    Head* hd = (Head*)((char*)v - sizeof(Head));
    if (hd->magic != kLiveMagic || hd->g1 != ~hd->size) { h.bad = hd->magic == kDeadMagic ? 2 : 1; if (hd->magic != kLiveMagic) return; }
    size_t n = hd->size;
    uint64_t j = hd->g0;
    char* u = (char*)v;
    for (size_t k = n; k < n + kTail; k++) {
        // pattern continues as written: whole words first, byte-wise rest
        size_t whole = (n + kTail) / 8 * 8;
        char w = k < whole ? ((char*)&j)[k & 7] : (char)(j >> (8 * (k & 7)));
        if (u[k] != w) { h.bad = 1; break; }
    }
    hd->magic = kDeadMagic;
    memset(u, 0xdd, n);
    h.live -= n; h.blocks--;
    free(hd);
}
} // namespace pbt
void* operator new(size_t n) { return pbt::jnew(n); }
void* operator new[](size_t n) { return pbt::jnew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return pbt::jnew(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return pbt::jnew(n); }
void operator delete(void* p) noexcept { pbt::jdel(p); }
void operator delete[](void* p) noexcept { pbt::jdel(p); }
void operator delete(void* p, size_t) noexcept { pbt::jdel(p); }
void operator delete[](void* p, size_t) noexcept { pbt::jdel(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { pbt::jdel(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { pbt::jdel(p); }
#endif

// Builds that count executed branch edges (clang -fsanitize-coverage=trace-pc-guard):
// a measure of work that does not depend on the machine or its load.
#ifdef PBT_EDGES
namespace pbt { uint64_t edgesSeen = 0; }
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t*) { pbt::edgesSeen++; }
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
#else
namespace pbt { uint64_t edgesSeen = 0; }
#endif

void registerProps();

namespace pbt {

struct Shared { volatile uint64_t cur, done; volatile int phase; };
struct RunOpt { std::string prop, out = ".", tier = "quick"; uint64_t seed = 1, cases = 0, first = 0; int workers = 4, caseCpu = 40; double deadline = 0, shrink = 60; };

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline Case makeCase(const Prop& p, const RunOpt& o, uint64_t i, Stats& st) {
    Rng r(Rng::mix(o.seed * 0x9e3779b97f4a7c15ULL ^ fnv(p.id)) + Rng::mix(i * 2 + 1));
    return p.gen(r, i, o.tier == "thorough", st);
}
inline void cpuLimit(int s) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &t, nullptr);
}
inline void limitMemory() {
#if !defined(PBT_SANITIZED) && !defined(PBT_PLAIN)
    struct rlimit r = {6ULL << 30, 6ULL << 30};
    setrlimit(RLIMIT_AS, &r);
#endif
    struct rlimit z = {0, 0};
    setrlimit(RLIMIT_CORE, &z);
}
inline void setJunkFor(uint64_t h) { setJunk(Rng::mix(h) | 0x0101010101010101ULL); heapError(); }
inline Msg guarded(const Prop& p, const Case& c, Stats& st) {
    setJunkFor(fnv(c.family) + c.keys.size());
    try {
        Msg m = p.check(c, st);
        if (m.empty()) { m = heapError(); }
        return m;
    } catch (const std::exception& e) {
        return std::string("unexpected exception: ") + e.what();
    }
}
inline void put(const std::string& f, const std::string& t) { std::ofstream o(f, std::ios::binary); o << t; }
inline std::string get(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

enum Outcome { PASS, FAIL, CRASH, HANG, HARNESS };
inline Outcome classify(int status) {
    if (WIFEXITED(status)) {
        int e = WEXITSTATUS(status);
        return e == 0 ? PASS : e == 10 ? FAIL : e == 99 ? HARNESS : CRASH;
    }
    int s = WTERMSIG(status);
    return s == SIGPROF || s == SIGALRM || s == SIGXCPU ? HANG : CRASH;
}
inline std::string crashLine(const std::string& log, int status) {
    static const char* marks[] = {"ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer", "Assertion", "terminate called", "hard rss limit", nullptr};
    std::istringstream in(log);
    std::string l;
    while (std::getline(in, l))
        for (int k = 0; marks[k]; k++) if (l.find(marks[k]) != std::string::npos) return l.substr(0, 300);
    std::ostringstream o;
    if (WIFSIGNALED(status)) o << "killed by signal " << WTERMSIG(status) << (WTERMSIG(status) == SIGPROF ? " (did not finish in its CPU time)" : "");
    else o << "exited with code " << WEXITSTATUS(status);
    return o.str();
}
// run one case in its own process
inline Outcome tryCase(const Prop& p, const Case& c, const RunOpt& o, std::string& msg, int cpu) {
    std::string log = o.out + "/try.log", res = o.out + "/try.msg";
    unlink(res.c_str());
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2); dup2(fd, 1); close(fd);
        limitMemory();
        cpuLimit(cpu);
        Stats st;
        Msg m = guarded(p, c, st);
        if (!m.empty()) { put(res, m); _exit(10); }
        _exit(0);
    }
    int status = 0;
    double t0 = now();
    for (;;) {
        pid_t w = waitpid(pid, &status, WNOHANG);
        if (w == pid) break;
        if (now() - t0 > 10 * cpu + 20) { kill(pid, SIGKILL); waitpid(pid, &status, 0); msg = "did not finish"; return HANG; }
        usleep(now() - t0 < 0.02 ? 200 : 3000);
    }
    Outcome oc = classify(status);
    msg = oc == FAIL ? get(res) : oc == PASS ? "" : crashLine(get(log), status);
    return oc;
}

//---------------------------------------------------------------- shrinking
struct Shrinker {
    const Prop& p; RunOpt o; Outcome want; Case best; std::string msg; double until; uint64_t tries = 0; int cpu;
    Shrinker(const Prop& p_, const RunOpt& o_, Outcome w, const Case& c, const std::string& m)
        : p(p_), o(o_), want(w), best(c), msg(m), until(now() + o_.shrink), cpu(w == HANG ? 5 : o_.caseCpu) {}
    bool left() const { return now() < until; }
    bool test(Case c) {
        if (!left()) return false;
        Keys0(c);
        if (toText(c) == toText(best)) return false;
        tries++;
        std::string m;
        Outcome oc = tryCase(p, c, o, m, cpu);
        if (oc != want) return false;
        best = c; msg = m;
        return true;
    }
    static void Keys0(Case& c) {
        bool had = !c.keys.empty();
        c.keys.erase(std::remove_if(c.keys.begin(), c.keys.end(), [](const std::string& s) { return s.empty(); }), c.keys.end());
        if (had && c.keys.empty()) c.keys.push_back("a");
        std::sort(c.keys.begin(), c.keys.end());
    }
    template <class V> bool chunks(V Case::*f, size_t keep) {
        bool any = false;
        for (size_t n = std::max<size_t>((best.*f).size() / 2, 1); left(); n = n / 2) {
            size_t at = 0;
            while (at < (best.*f).size() && left()) {
                size_t e = std::min(at + n, (best.*f).size());
                if ((best.*f).size() - (e - at) < keep) { at += n; continue; }
                Case c = best;
                (c.*f).erase((c.*f).begin() + at, (c.*f).begin() + e);
                if (test(c)) any = true; else at += n;
            }
            if (n <= 1) break;
        }
        return any;
    }
    bool strings(std::function<std::string*(Case&)> at, size_t minlen) {
        bool any = false;
        for (bool go = true; go && left();) {
            go = false;
            std::string s = *at(best);
            std::vector<std::string> cand;
            if (s.size() > minlen) {
                cand.push_back(s.substr(0, std::max(minlen, s.size() / 2)));
                cand.push_back(s.substr(s.size() - std::max(minlen, s.size() / 2)));
                if (s.size() <= 40) for (size_t k = s.size(); k-- > 0;) { std::string t = s; t.erase(k, 1); cand.push_back(t); }
                else { cand.push_back(s.substr(0, s.size() - 1)); cand.push_back(s.substr(1)); }
            }
            for (auto& t : cand) {
                if (t.size() < minlen || !left()) continue;
                Case c = best;
                std::string* q = at(c);
                *q = t;
                if (test(c)) { any = go = true; break; }
            }
        }
        return any;
    }
    void run() {
        for (bool go = true; go && left();) {
            go = false;
            if (chunks(&Case::ops, 0)) go = true;
            if (chunks(&Case::keys, 1)) go = true;
            // configuration
            std::vector<std::function<void(Case&)> > f = {
                [](Case& c) { c.via = 0; }, [](Case& c) { c.ctor = 0; }, [](Case& c) { c.dense = 1; c.ratio = 16; }, [](Case& c) { c.dense = 0; c.ratio = 16; },
                [](Case& c) { c.dense = 1; c.ratio = 0; }, [](Case& c) { c.ratio = 1; },
                [](Case& c) { c.stype = 0; c.hlen = c.rlen = 0; },
                [](Case& c) { if (c.stype == 3) { c.stype = 2; c.hlen = 0; } }, [](Case& c) { if (c.stype == 3) { c.stype = 1; c.rlen = 0; } },
                [](Case& c) { if (c.hlen > 1) c.hlen = c.stype == 0 ? 0 : (c.hlen + 1) / 2; }, [](Case& c) { if (c.rlen > 1) c.rlen = (c.rlen + 1) / 2; },
                [](Case& c) { if (c.hlen > 1) c.hlen--; }, [](Case& c) { if (c.rlen > 1) c.rlen--; }};
            for (auto& g : f) { Case c = best; g(c); if (test(c)) go = true; }
            for (size_t k = 0; k < best.keys.size() && left(); k++)
                if (strings([k](Case& c) { return &c.keys[std::min(k, c.keys.size() - 1)]; }, 1)) go = true;
            for (size_t k = 0; k < best.ops.size() && left(); k++) {
                for (size_t s = 0; s < best.ops[k].s.size() && left(); s++)
                    if (strings([k, s](Case& c) { return &c.ops[k].s[s]; }, 0)) go = true;
                for (size_t v = 0; v < best.ops[k].i.size() && left(); v++) {
                    int64_t x = best.ops[k].i[v];
                    for (int64_t y : {(int64_t)0, (int64_t)1, x / 2, x - 1}) {
                        if (x >= 0 && (y >= x || y < 0)) continue;
                        if (x < 0 && y != 0) continue;
                        Case c = best;
                        c.ops[k].i[v] = y;
                        if (test(c)) { go = true; break; }
                    }
                }
                if (best.ops[k].i.size() > 6) {
                    for (size_t v = 0; v < best.ops[k].i.size() && left();) {
                        Case c = best;
                        c.ops[k].i.erase(c.ops[k].i.begin() + v);
                        if (test(c)) go = true; else v++;
                    }
                }
            }
        }
    }
};

//---------------------------------------------------------------- run
inline std::string jsonStr(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r.push_back('\\'); r.push_back((char)c); }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r.push_back((char)c);
    }
    return r + "\"";
}
inline std::string sampleOf(const Case& c) {
    std::ostringstream o;
    o << c.family << " type=" << c.stype << " hash=" << c.hlen << " real=" << c.rlen << " dense=" << c.dense << " ratio=" << c.ratio << " roundtrip=" << c.via << " keys(" << c.keys.size() << ")=";
    for (size_t k = 0; k < c.keys.size() && k < 6; k++) o << show(c.keys[k].substr(0, 40)) << " ";
    o << "ops(" << c.ops.size() << ")=";
    for (size_t k = 0; k < c.ops.size() && k < 5; k++) {
        o << c.ops[k].name;
        for (size_t v = 0; v < c.ops[k].i.size() && v < 4; v++) o << " " << c.ops[k].i[v];
        for (size_t v = 0; v < c.ops[k].s.size() && v < 3; v++) o << " " << show(c.ops[k].s[v].substr(0, 40));
        o << "; ";
    }
    return o.str();
}

inline int worker(const Prop& p, const RunOpt& o, int w, Shared* sh, volatile int* stop) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::string base = o.out + "/w" + std::to_string(w);
    int fd = open((base + ".log").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2); dup2(fd, 1); close(fd);
    limitMemory();
    Stats st;
    std::unordered_set<uint64_t> hashes;
    std::vector<std::string> samples;
    double t0 = now();
    int rc = 0;
    for (uint64_t i = o.first + w; i < o.first + o.cases; i += o.workers) {
        if (*stop) break;
        if (o.deadline > 0 && now() - t0 > o.deadline) { st.add("stopped-by-time-limit"); break; }
        sh[w].cur = i;
        sh[w].phase = 1;
        Case c = makeCase(p, o, i, st);
        sh[w].phase = 2;
        cpuLimit(o.caseCpu);
        Msg m = guarded(p, c, st);
        cpuLimit(0);
        sh[w].phase = 0;
        if (!m.empty()) {
            put(base + ".msg", m);
            *stop = 1;
            rc = 10;
            break;
        }
        sh[w].done++;
        if (p.nontrivial(c)) {
            if (hashes.insert(fnv(toText(c))).second && (hashes.size() == 3 || hashes.size() == 400 || hashes.size() == 1500 || hashes.size() == 6000 + 10 * (size_t)w || hashes.size() == 20000)) samples.push_back(sampleOf(c));
        }
    }
    std::ostringstream s;
    for (auto& x : st.n) s << "n " << x.second << " " << x.first << "\n";
    for (auto& x : samples) s << "s " << x << "\n";
    put(base + ".stats", s.str());
    std::string h;
    for (uint64_t x : hashes) h.append((const char*)&x, 8);
    put(base + ".hash", h);
    return rc;
}

//---------------------------------------------------------------- coverage-guided runs
// The bytes libFuzzer evolves are the generator's choices, so every input is a
// well-formed case of the property; a failing one is shrunk as a case.
#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t*, size_t));
static const size_t kFuzzMax = 8192;
struct FuzzShared { volatile uint64_t size; uint8_t data[kFuzzMax]; };
struct FuzzWorker { const Prop* p; RunOpt o; Shared* sh; FuzzShared* in; volatile int* stop; std::string base; Stats st; std::unordered_set<uint64_t> hashes; std::vector<std::string> samples; };
inline FuzzWorker*& fuzzWorker() { static FuzzWorker* w = nullptr; return w; }
inline Case fuzzCase(const Prop& p, const uint8_t* d, size_t n, bool thorough, Stats& st) {
    uint32_t idx = 0;
    size_t k = std::min<size_t>(n, 2);
    memcpy(&idx, d, k);
    Rng r(d + k, n - k, 1);
    return p.gen(r, 1600 + idx, thorough, st);
}
inline void fuzzSave() {
    FuzzWorker& w = *fuzzWorker();
    std::ostringstream s;
    for (auto& x : w.st.n) s << "n " << x.second << " " << x.first << "\n";
    for (auto& x : w.samples) s << "s " << x << "\n";
    put(w.base + ".stats", s.str());
    std::string h;
    for (uint64_t x : w.hashes) h.append((const char*)&x, 8);
    put(w.base + ".hash", h);
}
inline int fuzzOne(const uint8_t* d, size_t n) {
    FuzzWorker& w = *fuzzWorker();
    if (*w.stop) _exit(0);
    n = std::min(n, kFuzzMax);
    memcpy(w.in->data, d, n);
    w.in->size = n;
    w.sh->phase = 1;
    Case c = fuzzCase(*w.p, d, n, w.o.tier == "thorough", w.st);
    w.sh->phase = 2;
    cpuLimit(w.o.caseCpu);
    Msg m = guarded(*w.p, c, w.st);
    cpuLimit(0);
    w.sh->phase = 0;
    if (!m.empty()) { put(w.base + ".msg", m); *w.stop = 1; fuzzSave(); _exit(10); }
    w.sh->done++;
    if (w.p->nontrivial(c) && w.hashes.size() < 2000000 && w.hashes.insert(fnv(toText(c))).second && (w.hashes.size() == 10 || w.hashes.size() == 1000)) w.samples.push_back(sampleOf(c));
    return 0;
}
inline int fuzzWorkerMain(const Prop& p, const RunOpt& o, int w, Shared* sh, FuzzShared* in, volatile int* stop) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    FuzzWorker& f = *(fuzzWorker() = new FuzzWorker());
    f.p = &p; f.o = o; f.sh = sh; f.in = in; f.stop = stop;
    f.base = o.out + "/w" + std::to_string(w);
    int fd = open((f.base + ".log").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2); dup2(fd, 1); close(fd);
    limitMemory();
    std::string dir = f.base + ".corpus";
    mkdir(dir.c_str(), 0755);
    Rng r(Rng::mix(o.seed * 0x9e3779b97f4a7c15ULL ^ fnv(p.id)) + w);
    for (int k = 0; k < 48; k++) {
        std::string b;
        for (int64_t n = r.range(16, k % 4 ? 600 : kFuzzMax - 8); n > 0; n--) b.push_back((char)r.next());
        put(dir + "/" + std::to_string(k), b);
    }
    std::vector<std::string> a = {"fuzz", "-seed=" + std::to_string(r.below(1u << 31) + 1), "-max_len=" + std::to_string(kFuzzMax), "-len_control=0", "-runs=" + std::to_string(o.cases / o.workers + 1),
        "-max_total_time=" + std::to_string((long)std::max(1.0, o.deadline)), "-timeout=1200", "-rss_limit_mb=5000", "-malloc_limit_mb=3000", "-reload=0", "-verbosity=0", "-handle_abrt=0", "-print_final_stats=1",
        "-artifact_prefix=" + f.base + ".artifact-", dir};
    std::vector<char*> v;
    for (auto& x : a) v.push_back(&x[0]);
    v.push_back(nullptr);
    int argc = (int)a.size();
    char** argv = &v[0];
    atexit(fuzzSave);
    int rc = LLVMFuzzerRunDriver(&argc, &argv, fuzzOne);
    exit(rc);
}
#endif

inline int runMain(RunOpt o) {
    auto it = registry().find(o.prop);
    if (it == registry().end()) { fprintf(stderr, "unknown property %s\n", o.prop.c_str()); return 99; }
    const Prop& p = it->second;
    if (!o.cases) o.cases = o.tier == "thorough" ? p.thorough_cases : p.quick_cases;
#ifdef PBT_FUZZ
    size_t head = 64 + sizeof(Shared) * o.workers, bytes = head + 64 + sizeof(FuzzShared) * o.workers;
#else
    size_t bytes = sizeof(Shared) * o.workers + 64;
#endif
    char* mem = (char*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (mem == MAP_FAILED) return 99;
    volatile int* stop = (volatile int*)mem;
    Shared* sh = (Shared*)(mem + 64);
#ifdef PBT_FUZZ
    FuzzShared* fin = (FuzzShared*)(mem + (head + 63) / 64 * 64);
#endif
    double t0 = now();
    std::vector<pid_t> pid(o.workers);
    fflush(nullptr);
    for (int w = 0; w < o.workers; w++) {
        pid[w] = fork();
        if (pid[w] < 0) { fprintf(stderr, "fork failed\n"); return 99; }
#ifdef PBT_FUZZ
        if (pid[w] == 0) _exit(fuzzWorkerMain(p, o, w, &sh[w], &fin[w], stop));
#else
        if (pid[w] == 0) _exit(worker(p, o, w, sh, stop));
#endif
    }
    std::vector<int> status(o.workers, 0);
    int left = o.workers;
    std::vector<char> gone(o.workers, 0);
    double killAt = 0;
    while (left) {
        for (int w = 0; w < o.workers; w++) {
            if (gone[w]) continue;
            pid_t q = waitpid(pid[w], &status[w], WNOHANG);
            if (q == pid[w]) { gone[w] = 1; left--; if (classify(status[w]) != PASS) { *stop = 1; if (!killAt) killAt = now() + 5; } }
        }
        if (killAt && now() > killAt) for (int w = 0; w < o.workers; w++) if (!gone[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], &status[w], 0); gone[w] = 2; left--; }
        if (left) usleep(5000);
    }
    // aggregate
    std::map<std::string, uint64_t> n;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> hashes;
    uint64_t done = 0;
    for (int w = 0; w < o.workers; w++) {
        done += sh[w].done;
        std::string base = o.out + "/w" + std::to_string(w);
        std::istringstream in(get(base + ".stats"));
        std::string l;
        while (std::getline(in, l)) {
            if (l[0] == 'n') { std::istringstream x(l.substr(2)); uint64_t v; x >> v; std::string k; std::getline(x, k); n[k.substr(k.empty() ? 0 : 1)] += v; }
            else if (l[0] == 's') samples.push_back(l.substr(2));
        }
        std::string h = get(base + ".hash");
        for (size_t k = 0; k + 8 <= h.size(); k += 8) { uint64_t v; memcpy(&v, &h[k], 8); hashes.insert(v); }
    }
    std::vector<std::string> few;   // spread over the workers' early and late cases
    for (size_t k = 0; k < samples.size() && few.size() < 6; k++) few.push_back(samples[(k * (samples.size() / 6 + 1) + k) % samples.size()]);
    samples = few;
    int bad = -1;
    for (int w = 0; w < o.workers; w++) {
        if (gone[w] == 2 || classify(status[w]) == PASS) continue;
        if (bad < 0 || sh[w].cur < sh[bad].cur) bad = w;
    }
    std::ostringstream j;
    j << "{\"property\":" << jsonStr(o.prop) << ",\"cases\":" << done << ",\"distinct_nontrivial\":" << hashes.size() << ",\"seconds\":" << (now() - t0) << ",\"rule\":" << jsonStr(p.rule) << ",\"counters\":{";
    bool first = true;
    for (auto& x : n) { j << (first ? "" : ",") << jsonStr(x.first) << ":" << x.second; first = false; }
    j << "},\"samples\":[";
    for (size_t k = 0; k < samples.size(); k++) j << (k ? "," : "") << jsonStr(samples[k]);
    j << "]";
    int rc = 0;
    if (bad >= 0) {
        Outcome oc = classify(status[bad]);
        std::string base = o.out + "/w" + std::to_string(bad);
        std::string msg = oc == FAIL ? get(base + ".msg") : crashLine(get(base + ".log"), status[bad]);
        uint64_t idx = sh[bad].cur;
        if (sh[bad].phase == 1) { fprintf(stderr, "harness failure while generating case %llu: %s\n", (unsigned long long)idx, msg.c_str()); return 99; }
        Stats st;
#ifdef PBT_FUZZ
        Case c = fuzzCase(p, fin[bad].data, fin[bad].size, o.tier == "thorough", st);
#else
        Case c = makeCase(p, o, idx, st);
#endif
        std::string m2;
        Outcome o2 = tryCase(p, c, o, m2, o.caseCpu);
        std::string text;
        if (o2 == PASS) {   // depends on what the process did before: the replay repeats the worker's history
            std::ostringstream t;
#ifdef PBT_FUZZ
            t << "property " << o.prop << "\n# " << msg << "\n" << toText(c);
#else
            t << "property " << o.prop << "\n# " << msg << "\nhistory " << o.seed << " " << o.tier << " " << (o.first + bad) << " " << o.workers << " " << idx << "\n";
#endif
            text = t.str();
        } else {
            RunOpt so = o;
            Shrinker s(p, so, o2, c, m2);
            s.run();
            msg = s.msg;
            std::string m1 = msg;
            std::replace(m1.begin(), m1.end(), '\n', ' ');
            std::ostringstream t;
            t << "property " << o.prop << "\n# " << m1 << "\n# found at seed " << o.seed << " case " << idx << ", shrunk with " << s.tries << " candidates\n" << toText(s.best);
            text = t.str();
        }
        put(o.out + "/fail.case", text);
        j << ",\"failure\":" << jsonStr(msg) << ",\"case_index\":" << idx;
        printf("FAILED %s: %s\n", o.prop.c_str(), msg.c_str());
        rc = 10;
    }
    j << "}\n";
    put(o.out + "/stats.json", j.str());
    return rc;
}

inline int replayMain(const std::string& file, int cpu) {
    std::string text = get(file), prop;
    Case c;
    bool ok = fromText(text, c, &prop);
    auto it = registry().find(prop);
    if (it == registry().end()) { fprintf(stderr, "replay file names no known property\n"); return 99; }
    limitMemory();
    std::istringstream in(text);
    std::string l;
    while (std::getline(in, l)) {
        if (l.compare(0, 8, "history ") != 0) continue;
        std::istringstream x(l.substr(8));
        RunOpt o;
        uint64_t first, step, last;
        x >> o.seed >> o.tier >> first >> step >> last;
        for (uint64_t i = first; i <= last; i += step) {
            Stats st;
            Case d = makeCase(it->second, o, i, st);
            cpuLimit(cpu);
            Msg m = guarded(it->second, d, st);
            if (!m.empty()) { printf("FAILED %s: %s\n", prop.c_str(), m.c_str()); return 10; }
        }
        return 0;
    }
    if (!ok) { fprintf(stderr, "bad replay file\n"); return 99; }
    cpuLimit(cpu);
    Stats st;
    Msg m = guarded(it->second, c, st);
    if (!m.empty()) { printf("FAILED %s: %s\n", prop.c_str(), m.c_str()); return 10; }
    printf("held\n");
    return 0;
}
} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) {
    using namespace pbt;
    registerProps();
    RunOpt o;
    std::string mode = argc > 1 ? argv[1] : "", file;
    uint64_t index = 0;
    for (int k = 2; k < argc; k++) {
        std::string a = argv[k], v = k + 1 < argc ? argv[k + 1] : "";
        if (a == "--prop") { o.prop = v; k++; }
        else if (a == "--seed") { o.seed = strtoull(v.c_str(), 0, 10); k++; }
        else if (a == "--tier") { o.tier = v; k++; }
        else if (a == "--cases") { o.cases = strtoull(v.c_str(), 0, 10); k++; }
        else if (a == "--first") { o.first = strtoull(v.c_str(), 0, 10); k++; }
        else if (a == "--workers") { o.workers = atoi(v.c_str()); k++; }
        else if (a == "--deadline") { o.deadline = atof(v.c_str()); k++; }
        else if (a == "--shrink") { o.shrink = atof(v.c_str()); k++; }
        else if (a == "--out") { o.out = v; k++; }
        else if (a == "--cpu") { o.caseCpu = atoi(v.c_str()); k++; }
        else if (a == "--index") { index = strtoull(v.c_str(), 0, 10); k++; }
        else file = a;
    }
    if (mode == "run") return runMain(o);
    if (mode == "replay") return replayMain(file, o.caseCpu);
    if (mode == "gen") {
        auto it = registry().find(o.prop);
        if (it == registry().end()) return 99;
        Stats st;
        printf("property %s\n%s", o.prop.c_str(), toText(makeCase(it->second, o, index, st)).c_str());
        return 0;
    }
    fprintf(stderr, "usage: run|replay|gen ...\n");
    return 99;
}
#endif
#endif
