// Properties of the benchmark suite: the filter wrappers and factory, the Bloom
// filter, the workload helpers, and the two benchmark programs end to end.
#include "driver.hpp"
#include "surf_ops.hpp"
#include "bench.hpp"
#include "filter_factory.hpp"
#include <memory>

using namespace pbt;

static const char* kKinds[] = {"SuRF", "SuRFHash", "SuRFReal", "SuRFMixed", "Bloom"};
static int maxLen(int kind) { return kind == 3 ? 32 : 64; }
// the suffix setting each kind stands for
static void kindConfig(int kind, int len, Case& c) {
    c.stype = kind == 1 ? 1 : kind == 2 ? 2 : kind == 3 ? 3 : 0;
    c.hlen = kind == 1 || kind == 3 ? len : 0;
    c.rlen = kind == 2 || kind == 3 ? len : 0;
    c.dense = 1; c.ratio = 16; c.via = 0; c.ctor = 0;
}
static int someLen(Rng& r, int kind) { return r.chance(50) ? 1 + (int)r.below(8) : 1 + (int)r.below(maxLen(kind)); }

//------------------------------------------------------------------ C23
static Case gen23(Rng& r, uint64_t idx, bool, Stats& st) {
    Case c;
    int kind = (int)(idx % 5), len = someLen(r, kind);
    FamilyOut f = genKeys(r, idx % 97 == 13 ? 1 : 0);
    c.family = f.name;
    c.keys = f.keys;
    kindConfig(kind, len, c);
    st.add("family " + c.family);
    st.add(std::string("kind ") + kKinds[kind]);
    c.ops.push_back(Op("kind").I(kind).I(len));
    if (idx % 50 == 4) { r = Rng(r.next()); c.ops.push_back(Op("fpr").I((int64_t)r.below(1ULL << 40)).I(100 + (int64_t)r.below(r.chance(50) ? 900 : 6000)).I(r.chance(50) ? 10 : r.range(1, 24)).I(r.below(2))); return c; }
    for (int i = 0; i < 24; i++) c.ops.push_back(r.chance(40) ? genL(r, c.keys, c) : r.chance(50) ? genR(r, c.keys, c) : genC(r, c.keys, c));
    return c;
}
// Bloom filter directly, string and integer keys: no misses, false positive rate as designed
static Msg checkFpr(const Op& o, Stats& st) {
    Rng r((uint64_t)o.iat(0));
    size_t n = (size_t)std::max<int64_t>(100, o.iat(1));
    int bpk = (int)std::max<int64_t>(1, o.iat(2));
    bool ints = o.iat(3) != 0;
    BloomFilter bf(bpk);
    std::string data;
    std::set<uint64_t> in;
    while (in.size() < n) in.insert(ints && n % 2 ? in.size() * 3 : r.next());
    std::vector<uint64_t> iv(in.begin(), in.end());
    std::vector<std::string> sv;
    for (uint64_t x : iv) sv.push_back(be64(x) + (x % 3 ? "" : "tail"));
    if (ints) bf.CreateFilter(iv, (int)n, &data);
    else bf.CreateFilter(sv, (int)n, &data);
    for (size_t i = 0; i < n; i++)
        if (!(ints ? bf.KeyMayMatch(iv[i], data) : bf.KeyMayMatch(sv[i], data))) return "Bloom filter misses inserted key " + num((int64_t)i) + " of " + num((int64_t)n);
    size_t q = 0, pass = 0;
    while (q < 8000) {
        uint64_t x = r.next();
        if (in.count(x)) continue;
        q++;
        if (ints ? bf.KeyMayMatch(x, data) : bf.KeyMayMatch(be64(x) + (x % 3 ? "" : "tail"), data)) pass++;
    }
    double bits = std::max(64.0, (double)((n * (size_t)bpk + 7) / 8 * 8));
    double k = std::min(30.0, std::max(1.0, floor(bpk * 0.69)));
    double p = pow(1 - exp(-k * n / bits), k);
    // the filled fraction varies between filters, above all in small ones; double hashing costs a little
    double slack = 0.10 + 0.9 / sqrt(bits / 64);
    double lim = q * std::min(1.0, p * (1 + slack * k / 3) + 0.0008) + 6 * sqrt(q * p * (1 - p)) + 6;
    st.add("bloom-absent-queries", q);
    st.add("bloom-false-positives", pass);
    if (getenv("PBT_FPR")) fprintf(stderr, "FPR n=%zu bpk=%d p=%f got=%f lim=%f\n", n, bpk, p, (double)pass / q, lim / q);
    if ((double)pass > lim)
        return num((int64_t)pass) + " of " + num((int64_t)q) + " absent keys passed a Bloom filter of " + num((int64_t)n) + " keys with " + num(bpk) + " bits per key, designed for about " + num((int64_t)(p * q));
    return "";
}
static Msg check23(const Case& c, Stats& st) {
    int kind = 0, len = 1;
    for (auto& o : c.ops) {
        if (o.name == "kind") { kind = (int)(o.iat(0) % 5); len = (int)std::min<int64_t>(maxLen(kind), std::max<int64_t>(1, o.iat(1))); }
        if (o.name == "fpr") return checkFpr(o, st);
    }
    Case d = c;
    kindConfig(kind, len, d);
    Model m(d.keys, d.stype, d.hlen, d.rlen);
    bench::Filter* f = bench::FilterFactory::createFilter(kKinds[kind], (uint32_t)len, c.keys);
    struct Rel { bench::Filter* f; bool bloom; ~Rel() { if (bloom) delete static_cast<bench::FilterBloom*>(f); else delete static_cast<bench::FilterSuRF*>(f); } } rel = {f, kind == 4};
    for (auto& k : m.k) {
        st.add("stored-key-lookups");
        if (!f->lookup(k)) return std::string(kKinds[kind]) + " misses stored key " + show(k);
    }
    {   // a second one, used and destroyed, leaves nothing behind
        uint64_t before = liveBytes();
        {
            Rel second = {bench::FilterFactory::createFilter(kKinds[kind], (uint32_t)len, c.keys), kind == 4};
            for (int i = 0; i < m.n() && i < 3; i++) {
                second.f->lookup(m.k[i]);
                if (kind != 4) { second.f->lookupRange(m.k[0], m.k[i]); second.f->approxCount(m.k[0], m.k[i]); }
            }
        }
        uint64_t after = liveBytes();
        st.add("filters-destroyed");
        if (after != before) return num((int64_t)(after - before)) + " bytes are still allocated after a " + kKinds[kind] + " filter over " + num(m.n()) + " keys was destroyed";
    }
    size_t absent = 0, passed = 0;
    if (kind == 4) {
        for (uint64_t i = 0; i < 3000; i++) {
            std::string q = be64(Rng::mix(i * 7919 + m.k.size())) + "?";
            if (m.find(q) >= 0) continue;
            absent++;
            passed += f->lookup(q);
        }
        st.add("bloom-absent-queries", absent);
        // 10 bits per key: 0.9 percent; small filters spread more
        double p = m.n() >= 300 ? 0.02 : m.n() >= 60 ? 0.035 : m.n() > 8 ? 0.12 : 0.5;
        if (passed > absent * p + 10) return num((int64_t)passed) + " of " + num((int64_t)absent) + " absent keys passed the Bloom filter over " + num(m.n()) + " keys";
        return "";
    }
    // the documented suffix setting decides what must be rejected
    std::unique_ptr<Filter> g(new Filter(d));
    for (auto& o : c.ops) {
        std::string nm = std::string(kKinds[kind]) + " with suffix length " + num(len) + ": ";
        if (o.name == "L") {
            bool a = f->lookup(o.sat(0));
            int v = m.lookup(o.sat(0));
            st.add("lookups");
            if (v >= 0 && a != (v == 1)) return nm + "lookup of " + show(o.sat(0)) + " answered " + num(a);
            if (a != g->f->lookupKey(o.sat(0))) return nm + "lookup of " + show(o.sat(0)) + " answered " + num(a) + ", unlike a filter with that suffix setting";
        } else if (o.name == "R") {
            const std::string &l = o.sat(0), &h = o.sat(1);
            if (h < l) continue;
            bool a = f->lookupRange(l, h);
            st.add("ranges");
            if (m.anyInside(l, true, h, true) && !a) return nm + "range [" + show(l) + ", " + show(h) + "] answered false but holds a stored key";
            if (a != g->f->lookupRange(l, true, h, true)) return nm + "range [" + show(l) + ", " + show(h) + "] answered " + num(a) + ", unlike a filter with that suffix setting";
        } else if (o.name == "C") {
            const std::string &l = o.sat(0), &h = o.sat(1);
            if (h < l) continue;
            int64_t truth = (int64_t)m.upper(h) - m.lower(l), n = (int64_t)f->approxCount(l, h);
            st.add("counts");
            if (n > truth || n < truth - 2) return nm + "count of [" + show(l) + ", " + show(h) + "] is " + num(n) + ", true number " + num(truth);
        }
    }
    if (f->getMemoryUsage() != g->f->getMemoryUsage()) return "memory usage reported through the wrapper differs from the filter's";
    return "";
}

//------------------------------------------------------------------ C24
static std::string scratch() {
    const char* e = getenv("PBT_SCRATCH");
    return std::string(e ? e : "/tmp") + "/pbt-" + std::to_string((long)getpid());
}
struct Scratch {
    std::string dir;
    std::vector<std::string> files;
    Scratch() : dir(scratch()) { mkdir(); }
    void mkdir() { ::mkdir(dir.c_str(), 0700); ::mkdir((dir + "/workloads").c_str(), 0700); }
    std::string file(const std::string& name, const std::string& text) { std::string p = dir + "/" + name; put(p, text); files.push_back(p); return p; }
    ~Scratch() {
        for (auto& f : files) unlink(f.c_str());
        unlink((dir + "/out").c_str());
        rmdir((dir + "/workloads").c_str());
        rmdir(dir.c_str());
    }
};
static const char* kSeps[] = {"\n", "\n", "\n", " ", "\t", "\n\n", "\r\n", " \n"};
static std::string joinFile(const std::vector<std::string>& w, uint64_t seed, int ending) {
    Rng r(seed);
    std::string s;
    bool odd = seed % 3 == 0;
    if (odd && seed % 2) s = "\n ";
    for (size_t i = 0; i < w.size(); i++) {
        s += w[i];
        if (i + 1 < w.size()) s += odd ? kSeps[r.below(8)] : "\n";
    }
    if (ending == 1) s += "\n";
    if (ending == 2) s += "\n\n";
    if (ending == 3) s += " \n";
    return s;
}
static std::string someEmail(Rng& r, const Keys& have) {
    static const std::vector<std::string> hosts = {"com.gmail@", "com.example@", "org.a@", "org.ab@", "edu.cmu.cs@", "a", ""};
    if (!have.empty() && r.chance(40)) {
        std::string s = r.pick(have);
        switch (r.below(5)) {
        case 0: return s + randStr(r, 1 + r.below(3), "abz09");
        case 1: return s.substr(0, 1 + r.below(s.size()));
        case 2: s.back() = (char)('!' + r.below(90)); return s;
        case 3: s[r.below(s.size())] = (char)('!' + r.below(90)); return s;
        default: return s;
        }
    }
    return r.pick(hosts) + randStr(r, 1 + r.below(8), r.chance(50) ? "abc+" : "abcdefghijklmnopqrstuvwxyz0123456789._+");
}
static uint64_t someInt(Rng& r, const std::vector<uint64_t>& have) {
    const uint64_t R = 92233697311ULL, top = ~0ULL - 2 * R;
    uint64_t v;
    if (!have.empty() && r.chance(60)) {
        v = r.pick(have);
        static const std::vector<int64_t> d = {0, 0, 1, -1, 256, -256, 65536, -65536};
        switch (r.below(5)) {
        case 0: v += (uint64_t)r.pick(d); break;
        case 1: v -= R; v += (uint64_t)r.range(-2, 2); break;          // the stored key sits at the upper bound
        case 2: v -= r.below(2 * R); break;
        case 3: v += r.below(R); break;
        default: break;
        }
        if (v > top) v = r.below(top);
        return v;
    }
    switch (r.below(4)) { case 0: return r.below(1000); case 1: return r.next() >> (1 + r.below(60)); case 2: return (r.next() >> 1); default: return r.below(100) * R; }
}
// run PROG KIND LEN WTYPE PCT POS KEYTYPE QUERY DIST THREADS ending seed timestamp ; strings: txn words (keys are the load words)
static Case gen24(Rng& r, uint64_t idx, bool, Stats& st) {
    Case c;
    c.stype = 0;
    int part = (int)(idx % 4);
    bool racy = false;
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
    racy = true;        // this build is about the threads of the multi-threaded program
    part = 2;
#endif
#endif
    if (part == 0) {    // helpers
        bool ints = r.chance(50);
        c.family = "helpers";
        Op f("load");
        f.I(ints).I(r.below(4)).I((int64_t)r.below(1 << 20)).I(1 + r.below(60));
        Keys have; std::vector<uint64_t> hi;
        size_t n = r.below(r.chance(80) ? 12 : 200);
        for (size_t i = 0; i < n; i++) {
            if (ints) { hi.push_back(someInt(r, hi)); f.S(std::to_string(hi.back())); }
            else { have.push_back(someEmail(r, have)); f.S(have.back()); }
        }
        c.ops.push_back(f);
        Op s("select");
        s.I(1 + r.below(100));
        n = r.below(120);
        for (size_t i = 0; i < n; i++) s.S(r.chance(50) ? someEmail(r, have) : be64(r.below(50)));
        c.ops.push_back(s);
        Op m("modify");
        m.I(r.chance(70) ? r.below(10) : r.below(40));
        for (size_t i = 0; i < 10; i++) m.S(someEmail(r, have));
        c.ops.push_back(m);
        Op u("upper");
        for (size_t i = 0; i < 6; i++) u.I((int64_t)someInt(r, hi));
        for (size_t i = 0; i < 6; i++) u.S(someEmail(r, have));
        c.ops.push_back(u);
        st.add("helper-cases");
        return c;
    }
    int prog = racy || r.chance(50);
    if (part == 1 && r.chance(60)) {    // arguments that must be refused (one bad, the rest good)
        c.family = "refusals";
        Op o("refuse");
        o.I(prog).I(r.below(12)).I(r.below(1000));
        c.ops.push_back(o);
        c.keys = {"com.a@b", "com.a@c"};
        st.add("refusal-cases");
        return c;
    }
    c.family = "programs";
    static const std::vector<std::string> queries = {"point", "range", "mix", "count-long", "count-short"};
    static const std::vector<std::string> dists = {"uniform", "zipfian", "latest"};
    bool ints = r.chance(50);
    int kind = (int)r.below(5);
    if (prog == 1 && kind == 3) kind = 2;
    int query = (int)r.below(prog ? 2 : 5);
    if (kind == 4 && query) query = 0;     // a Bloom filter supports point queries only
    bool alter = !ints && r.chance(35);
    int pct = r.chance(70) ? 100 : (int)r.range(1, 99);
    Op o("run");
    o.I(prog).I(kind).I(someLen(r, kind)).I(alter).I(pct).I(r.below(12)).I(ints).I(query).I(r.below(3)).I(r.chance(70) ? 1 + r.below(6) : 1 + r.below(17)).I(r.below(4)).I((int64_t)r.below(1 << 20)).I(r.chance(30));
    Keys have; std::vector<uint64_t> hi;
    size_t n = 1 + r.below(r.chance(70) ? 30 : 300);
    std::vector<std::string> load;
    for (size_t i = 0; i < n; i++) {
        if (ints) { hi.push_back(someInt(r, hi)); load.push_back(std::to_string(hi.back())); }
        else { have.push_back(someEmail(r, have)); load.push_back(have.back()); }
    }
    if (pct < 100 && r.chance(70)) {       // every loaded key queried once: the inserted ones must be the true positives
        std::set<std::string> s(load.begin(), load.end());
        load.assign(s.begin(), s.end());
        o.i[7] = 0; o.i[3] = 0;
        for (auto& x : load) o.S(x);
        std::vector<std::string>& t = o.s;
        for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[r.below(i)]);
    } else {
        size_t q = r.chance(5) ? r.below(2) : 1 + r.below(r.chance(70) ? 40 : 400);
        for (size_t i = 0; i < q; i++) {
            if (r.chance(35)) o.S(r.pick(load));
            else if (ints) o.S(std::to_string(someInt(r, hi)));
            else o.S(someEmail(r, have));
        }
    }
    for (size_t i = load.size(); i > 1; i--) std::swap(load[i - 1], load[r.below(i)]);
    Op l("words");
    for (auto& x : load) l.S(x);
    c.ops.push_back(l);
    c.ops.push_back(o);
    st.add(prog ? "multi-thread-runs" : "workload-runs");
    st.add("runs " + queries[query]);
    return c;
}
static int runProgram(const std::string& dir, int prog, const std::vector<std::string>& args, std::string& out, std::string& how) {
    const char* exe = getenv(prog ? "PBT_WORKLOAD_MT" : "PBT_WORKLOAD");
    if (!exe) { fprintf(stderr, "PBT_WORKLOAD / PBT_WORKLOAD_MT not set\n"); _exit(99); }
    std::string of = dir + "/out";
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (chdir(dir.c_str())) _exit(99);
        int fd = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 1); dup2(fd, 2); close(fd);
        struct rlimit cpu = {30, 30};
        setrlimit(RLIMIT_CPU, &cpu);
        std::vector<char*> a;
        a.push_back((char*)exe);
        for (auto& s : args) a.push_back((char*)s.c_str());
        a.push_back(nullptr);
        execv(exe, a.data());
        _exit(99);
    }
    int st = 0;
    double t0 = now();
    for (;;) {
        if (waitpid(p, &st, WNOHANG) == p) break;
        if (now() - t0 > 120) { kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        usleep(300);
    }
    out = get(of);
    if (WIFSIGNALED(st)) { how = "was killed by signal " + num(WTERMSIG(st)); return -1; }
    if (WEXITSTATUS(st) == 99) { fprintf(stderr, "cannot run %s\n", exe); _exit(99); }
    how = "exited with code " + num(WEXITSTATUS(st));
    if (out.find("ERROR: AddressSanitizer") != std::string::npos || out.find("runtime error:") != std::string::npos || out.find("WARNING: ThreadSanitizer") != std::string::npos) { how = "failed: " + crashLine(out, st); return -1; }
    return WEXITSTATUS(st);
}
static bool field(const std::string& out, const std::string& name, double& v) {
    std::istringstream in(out);
    std::string l;
    while (std::getline(in, l)) {
        // colour codes are not part of the text
        std::string t;
        for (size_t i = 0; i < l.size(); i++) { if (l[i] == '\x1b') { while (i < l.size() && l[i] != 'm') i++; continue; } t.push_back(l[i]); }
        if (t.compare(0, name.size() + 3, name + " = ") == 0) { v = strtod(t.c_str() + name.size() + 3, nullptr); return true; }
    }
    return false;
}
static Msg run24(const Case& c, const Op& o, Stats& st) {
    static const char* queries[] = {"point", "range", "mix", "count-long", "count-short"};
    static const char* dists[] = {"uniform", "zipfian", "latest"};
    int prog = (int)o.iat(0) & 1, kind = (int)(o.iat(1) % 5), len = (int)std::max<int64_t>(1, std::min<int64_t>(maxLen(kind), o.iat(2)));
    bool alter = o.iat(3) != 0, ints = o.iat(6) != 0;
    int pct = (int)std::max<int64_t>(1, std::min<int64_t>(100, o.iat(4))), pos = (int)o.iat(5), query = (int)(o.iat(7) % 5), dist = (int)(o.iat(8) % 3), threads = (int)std::max<int64_t>(1, o.iat(9));
    if (prog) { if (kind == 3) return ""; query %= 2; }
    if (kind == 4 && query) return "";
    std::vector<std::string> load;
    for (auto& p : c.ops) if (p.name == "words") load = p.s;
    const std::vector<std::string>& txn = o.s;
    auto okWord = [&](const std::string& w) {
        if (w.empty()) return false;
        for (unsigned char x : w) if (x <= 32 || x >= 127 || (ints && !isdigit(x))) return false;
        return !ints || w.size() <= 19;
    };
    for (auto& w : load) if (!okWord(w)) return "";
    for (auto& w : txn) if (!okWord(w)) return "";
    bool nothing = load.size() * (size_t)pct / 100 == 0;
    std::string kt = !ints ? "email" : o.i.size() > 12 && o.iat(12) ? "timestamp" : "randint";
    Scratch sc;
    sc.file("workloads/load_" + kt, joinFile(load, (uint64_t)o.iat(11), (int)o.iat(10) & 3));
    sc.file("workloads/txn_" + kt + "_" + dists[dist], joinFile(txn, (uint64_t)o.iat(11) / 2, (int)(o.iat(11) & 3)));
    std::vector<std::string> args = {kKinds[kind], num(len), alter ? "alterByte" : "mixed", num(pct), num(pos), kt, queries[query], dists[dist]};
    if (prog) args.push_back(num(threads));
    std::string out, how, cmd = prog ? "workload_multi_thread" : "workload";
    for (auto& a : args) cmd += " " + a;
    int rc = runProgram(sc.dir, prog, args, out, how);
    st.add("program-runs");
    if (nothing) {
        st.add("runs with nothing to insert");
        return rc > 0 ? "" : cmd + " with no record to insert " + how + " instead of being refused";
    }
    if (rc != 0) return cmd + " " + how;

    // independent recount
    auto enc = [&](const std::string& w) { return ints ? be64(strtoull(w.c_str(), nullptr, 10)) : w; };
    Keys all, q, hi;
    for (auto& w : load) all.push_back(enc(w));
    for (auto& w : txn) q.push_back(enc(w));
    if (alter) for (auto& w : q) w[(int)w.size() > pos ? w.size() - 1 - (size_t)pos : 0] = '+';
    for (auto& w : q) {
        std::string h = w;
        if (ints) { uint64_t v = 0; for (unsigned char x : w) v = v << 8 | x; h = be64(v + 92233697311ULL); }
        else h.back() = (char)((unsigned char)h.back() + 128);
        hi.push_back(h);
    }
    double P, TP, FP, TN, CNT = 0, RATE, MEM, TPUT;
    if (!field(out, "positives", P) || !field(out, "true positives", TP) || !field(out, "false positives", FP) || !field(out, "true negatives", TN) || !field(out, "False Positive Rate", RATE) || !field(out, "Memory", MEM) || !field(out, "Throughput", TPUT))
        return cmd + " does not report its results";
    if (!prog && !field(out, "count", CNT)) return cmd + " does not report a count";
    double N = (double)q.size();
    std::string res = cmd + " over " + num((int64_t)load.size()) + " records and " + num((int64_t)q.size()) + " transactions reported positives " + num((int64_t)P) + ", true positives " + num((int64_t)TP) + ", false positives " + num((int64_t)FP) + ", true negatives " + num((int64_t)TN) + ", count " + num((int64_t)CNT);
    if (query <= 2) {
        if (FP < 0) return res + ": false negatives";
        if (P != TP + FP || TN != N - P) return res + ": the figures do not add up";
        double rate = FP > 0 ? FP / (TN + FP) : 0;
        if (!(fabs(rate - RATE) <= 1e-4 * (rate + 1e-3))) return res + ": false positive rate printed as " + std::to_string(RATE);
    }
    size_t want = load.size() * (size_t)pct / 100;
    if (pct < 100) {
        std::set<std::string> sa(all.begin(), all.end()), sq(q.begin(), q.end());
        if (query == 0 && !alter && sa.size() == all.size() && sa == sq && q.size() == all.size()) {
            st.add("percentage-recounts");
            if (TP != (double)want) return res + ", but " + num((int64_t)want) + " of the distinct keys queried are inserted";
        } else {   // the inserted keys are unknown: bounds only
            std::sort(all.begin(), all.end());
            double t = 0;
            for (size_t i = 0; i < q.size(); i++) {
                bool point = query == 0 || (query == 2 && i % 2 == 0);
                auto it = std::lower_bound(all.begin(), all.end(), q[i]);
                t += it != all.end() && (point ? *it == q[i] : *it <= hi[i]);
            }
            if (query <= 2 && TP > t) return res + ", but at most " + num((int64_t)t) + " can be true";
        }
        return "";
    }
    st.add("full-recounts");
    std::sort(all.begin(), all.end());
    double tp = 0, p = 0, cnt = 0;
    Case d;
    kindConfig(kind, len, d);
    d.keys = all;
    std::unique_ptr<Filter> f;
    BloomFilter bf(10);
    std::string data;
    if (kind == 4) bf.CreateFilter(all, (int)all.size(), &data);
    else f.reset(new Filter(d));
    for (size_t i = 0; i < q.size(); i++) {
        if (query >= 3) break;
        bool point = query == 0 || (query == 2 && i % 2 == 0);
        auto it = std::lower_bound(all.begin(), all.end(), q[i]);
        tp += it != all.end() && (point ? *it == q[i] : *it <= hi[i]);
        if (kind == 4) p += bf.KeyMayMatch(q[i], data);
        else p += point ? f->f->lookupKey(q[i]) : f->f->lookupRange(q[i], true, hi[i], true);
    }
    if (query == 3) for (size_t i = 0; i + 1 < q.size(); i++) cnt += (double)f->f->approxCount(std::min(q[i], q[i + 1]), std::max(q[i], q[i + 1]));
    if (query == 4) for (size_t i = 0; i < q.size(); i++) cnt += (double)f->f->approxCount(q[i], hi[i]);
    if (TP != tp) return res + ", a recount gives " + num((int64_t)tp) + " true positives";
    if (P != p) return res + ", a recount gives " + num((int64_t)p) + " positives";
    if (!prog && CNT != cnt) return res + ", a recount gives count " + num((int64_t)cnt);
    double mem = kind == 4 ? (double)data.size() : (double)f->f->getMemoryUsage();
    if (MEM < mem * 0.999 || MEM > mem * 1.001 + 1) return cmd + " reports memory " + std::to_string(MEM) + ", the filter has " + std::to_string(mem);
    return "";
}
static Msg refuse24(const Op& o, Stats& st) {
    int prog = (int)o.iat(0) & 1, which = (int)(o.iat(1) % 12);
    uint64_t v = (uint64_t)o.iat(2);
    std::vector<std::string> a = {"SuRFReal", "8", "mixed", "100", "0", "email", "point", "uniform"};
    if (prog) a.push_back("2");
    auto one = [&](std::initializer_list<const char*> l) { std::vector<std::string> x(l.begin(), l.end()); return x[v % x.size()]; };
    switch (which) {
    case 0: a[0] = one({"surf", "SuRFF", "", "Real", "bloom", "SuRFreal", "SuRF "}); break;
    case 1: a[1] = one({"0", "65", "-1", "100", "x", ""}); break;
    case 2: a[2] = one({"mix", "", "alterbyte", "Mixed", "uniform", "alter"}); break;
    case 3: a[3] = one({"101", "-1", "1000", "200"}); break;
    case 4: a[3] = one({"0", "", "none"}); break;
    case 5: a[5] = one({"mail", "", "int", "Email", "emails"}); break;
    case 6: a[6] = one({"points", "", "scan", "Range", "count"}); break;
    case 7: a[7] = one({"random", "", "Uniform", "zipf"}); break;
    case 8: if (prog) a[8] = one({"0", "-1", "-8", "x"}); else a[6] = "counts"; break;
    case 9: a.pop_back(); break;
    case 10: a.push_back("1"); break;
    default: if (prog) { a[6] = one({"mix", "count-long", "count-short"}); } else { a[0] = "SuRFMixed"; a[1] = one({"33", "64", "40"}); }
    }
    Scratch sc;
    sc.file("workloads/load_email", "com.a@x\ncom.a@y\n");
    sc.file("workloads/txn_email_uniform", "com.a@x\ncom.a@z\n");
    std::string out, how, cmd = prog ? "workload_multi_thread" : "workload";
    for (auto& x : a) cmd += " '" + x + "'";
    int rc = runProgram(sc.dir, prog, a, out, how);
    st.add("refusals-run");
    double d;
    if (rc < 0) return cmd + " " + how + " instead of refusing its arguments";
    if (rc == 0 || field(out, "Throughput", d)) return cmd + " accepted its arguments";
    return "";
}
static Msg check24(const Case& c, Stats& st) {
    for (auto& o : c.ops) {
        Msg e;
        if (o.name == "run") e = run24(c, o, st);
        else if (o.name == "refuse") e = refuse24(o, st);
        else if (o.name == "load") {
            bool ints = o.iat(0) != 0, usable = true;
            for (auto& w : o.s) for (unsigned char x : w) if (x <= 32 || x >= 127 || (ints && !isdigit(x))) usable = false;
            for (auto& w : o.s) if (w.empty() || (ints && w.size() > 19)) usable = false;
            if (!usable) continue;
            Scratch sc;
            std::string f = sc.file("workloads/keys", joinFile(o.s, (uint64_t)o.iat(2), (int)o.iat(1) & 3));
            std::vector<std::string> k;
            bench::loadKeysFromFile(f, ints, k);
            st.add("files-loaded");
            if (k.size() != o.s.size()) return "loading a file of " + num((int64_t)o.s.size()) + " records gave " + num((int64_t)k.size()) + " keys";
            for (size_t i = 0; i < k.size(); i++) {
                std::string w = ints ? be64(strtoull(o.s[i].c_str(), nullptr, 10)) : o.s[i];
                if (k[i] != w) return "record " + num((int64_t)i) + " loaded as " + show(k[i]) + ", expected " + show(w);
            }
            if (ints) {
                std::vector<uint64_t> v;
                size_t lim = (size_t)std::max<int64_t>(1, o.iat(3));
                bench::loadKeysFromFile(f, (uint64_t)lim, v);
                if (v.size() != std::min(lim, o.s.size())) return "loading at most " + num((int64_t)lim) + " of " + num((int64_t)o.s.size()) + " integers gave " + num((int64_t)v.size());
                for (size_t i = 0; i < v.size(); i++) if (v[i] != strtoull(o.s[i].c_str(), nullptr, 10)) return "integer record " + num((int64_t)i) + " loaded wrong";
            }
        } else if (o.name == "select") {
            unsigned pct = (unsigned)std::max<int64_t>(1, std::min<int64_t>(100, o.iat(0)));
            std::vector<std::string> in = o.s, out;
            bench::selectKeysToInsert(pct, out, in);
            std::vector<uint64_t> iv, iout, icopy;
            for (auto& s : o.s) iv.push_back(fnv(s) % 64);
            icopy = iv;
            bench::selectIntKeysToInsert(pct, iout, iv);
            st.add("selections");
            size_t want = o.s.size() * pct / 100;
            if (out.size() != want || iout.size() != want) return "selecting " + num(pct) + " percent of " + num((int64_t)o.s.size()) + " keys gave " + num((int64_t)out.size()) + " and " + num((int64_t)iout.size());
            if (!std::is_sorted(out.begin(), out.end()) || !std::is_sorted(iout.begin(), iout.end())) return "selected keys are not sorted";
            std::vector<std::string> a = o.s;
            std::sort(a.begin(), a.end());
            std::sort(icopy.begin(), icopy.end());
            if (!std::includes(a.begin(), a.end(), out.begin(), out.end()) || !std::includes(icopy.begin(), icopy.end(), iout.begin(), iout.end())) return "selected keys are not a selection of the loaded ones";
        } else if (o.name == "modify") {
            std::vector<std::string> k, w;
            for (auto& s : o.s) if (!s.empty()) k.push_back(s);
            w = k;
            int pos = (int)std::max<int64_t>(0, o.iat(0));
            bench::modifyKeyByte(k, pos);
            for (auto& s : w) s[(int)s.size() > pos ? s.size() - 1 - (size_t)pos : 0] = '+';
            st.add("modifications", w.size());
            if (k != w) for (size_t i = 0; i < w.size(); i++) if (k[i] != w[i]) return "altering byte " + num(pos) + " from the end gave " + show(k[i]) + ", expected " + show(w[i]);
        } else if (o.name == "upper") {
            for (auto x : o.i) {
                uint64_t v = (uint64_t)x;
                st.add("upper-bounds");
                if (bench::uint64ToString(v) != be64(v)) return "encoding of " + num(x) + " is not big-endian";
                if (bench::stringToUint64(be64(v)) != v) return "decoding of " + num(x) + " fails";
                std::string u = bench::getUpperBoundKey("randint", be64(v));
                if (u != be64(v + 92233697311ULL)) return "upper bound of integer " + num(x) + " is " + show(u);
            }
            for (auto& s : o.s) {
                if (s.empty()) continue;
                std::string u = bench::getUpperBoundKey("email", s), w = s;
                w.back() = (char)((unsigned char)w.back() + 128);
                if (u != w) return "upper bound of " + show(s) + " is " + show(u);
            }
        }
        if (!e.empty()) return e;
    }
    return "";
}
void registerProps() {
    Prop p;
    p.id = "C23"; p.gen = gen23; p.check = check23; p.nontrivial = [](const Case& c) { Keys k = c.keys; dedup(k); return k.size() >= 2; };
    p.rule = "case = key list from 12 structured families x the five filter kinds x suffix length x lookups, ranges and counts aimed at the keys, or a Bloom filter over up to 6000 keys with 8000 absent queries; non-trivial = at least two distinct keys";
    p.quick_cases = 60000; p.thorough_cases = 1500000;
    registry()["C23"] = p;
    p.id = "C24"; p.gen = gen24; p.check = check24; p.nontrivial = [](const Case& c) { for (auto& o : c.ops) if ((o.name == "run" || o.name == "load") && o.s.size() >= 2) return true; return c.family == "refusals"; };
    p.rule = "case = workload files plus one run of a benchmark program recounted independently, or a set of arguments that must be refused, or calls of the workload helpers; non-trivial = at least two records or a refusal";
    p.quick_cases = 60000; p.thorough_cases = 600000;
    registry()["C24"] = p;
}
