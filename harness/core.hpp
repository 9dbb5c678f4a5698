// Shared core of the property-based tests: seeded random source, case format
// (one case = configuration + keys + operations, written as plain text),
// statistics, and the property registry.  Nothing here touches the code under test.
#ifndef PBT_CORE_HPP
#define PBT_CORE_HPP

#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

//---------------------------------------------------------------- random source
struct Rng {
    uint64_t s;
    const uint8_t *p = nullptr, *e = nullptr;   // coverage-guided runs: choices are read from these bytes first
    explicit Rng(uint64_t seed) : s(seed) {}
    Rng(const uint8_t* from, size_t n, uint64_t seed) : s(seed), p(from), e(from + n) {}
    static uint64_t mix(uint64_t z) {
        z += 0x9e3779b97f4a7c15ULL;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t next() { return take(8); }
    uint64_t take(int bytes) {
        if (p != e) {
            uint64_t v = 0;
            for (int k = 0; k < bytes && p != e; k++) v |= (uint64_t)*p++ << (8 * k);
            return v;
        }
        s += 0x9e3779b97f4a7c15ULL;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? take(n <= 256 ? 1 : n <= 65536 ? 2 : 8) % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(int percent) { return (int)below(100) < percent; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

//---------------------------------------------------------------- case
struct Op {
    std::string name;
    std::vector<int64_t> i;
    std::vector<std::string> s;
    Op() {}
    explicit Op(const std::string& n) : name(n) {}
    Op& I(int64_t v) { i.push_back(v); return *this; }
    Op& S(const std::string& v) { s.push_back(v); return *this; }
    int64_t iat(size_t k, int64_t d = 0) const { return k < i.size() ? i[k] : d; }
    const std::string& sat(size_t k) const { static const std::string e; return k < s.size() ? s[k] : e; }
};

struct Case {
    std::string family = "-";
    int stype = 0;          // 0 none 1 hash 2 real 3 mixed
    int hlen = 0, rlen = 0;
    int dense = 1;
    int64_t ratio = 16;
    int via = 0;            // 0: built filter; 1: the same after a serialisation round trip
    int ctor = 0;           // 0 full constructor, 1 create() on a default object, 2 short constructors where they fit
    std::vector<std::string> keys; // sorted, non-empty strings, duplicates allowed
    std::vector<Op> ops;
};

inline std::string hex(const std::string& s) {
    static const char* d = "0123456789abcdef";
    std::string r;
    r.reserve(s.size() * 2);
    for (unsigned char c : s) { r.push_back(d[c >> 4]); r.push_back(d[c & 15]); }
    return r.empty() ? std::string("-") : r;
}
inline std::string unhex(const std::string& h) {
    if (h == "-") return std::string();
    std::string r;
    for (size_t k = 0; k + 1 < h.size(); k += 2) r.push_back((char)strtol(h.substr(k, 2).c_str(), nullptr, 16));
    return r;
}

inline std::string toText(const Case& c) {
    std::ostringstream o;
    o << "family " << c.family << "\n";
    o << "config " << c.stype << " " << c.hlen << " " << c.rlen << " " << c.dense << " " << c.ratio << " " << c.via << " " << c.ctor << "\n";
    for (auto& k : c.keys) o << "key " << hex(k) << "\n";
    for (auto& p : c.ops) {
        o << "op " << p.name << " " << p.i.size();
        for (auto v : p.i) o << " " << v;
        o << " " << p.s.size();
        for (auto& v : p.s) o << " " << hex(v);
        o << "\n";
    }
    return o.str();
}

inline bool fromText(const std::string& text, Case& c, std::string* prop = nullptr) {
    std::istringstream in(text);
    std::string line;
    bool seen = false;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string w;
        l >> w;
        if (w == "property") { std::string p; l >> p; if (prop) *prop = p; }
        else if (w == "family") { l >> c.family; }
        else if (w == "config") { l >> c.stype >> c.hlen >> c.rlen >> c.dense >> c.ratio >> c.via >> c.ctor; seen = true; if (!l) return false; }
        else if (w == "key") { std::string h; l >> h; c.keys.push_back(unhex(h)); }
        else if (w == "op") {
            Op p;
            size_t n = 0;
            l >> p.name >> n;
            for (size_t k = 0; k < n; k++) { int64_t v; l >> v; p.i.push_back(v); }
            l >> n;
            for (size_t k = 0; k < n; k++) { std::string h; l >> h; p.s.push_back(unhex(h)); }
            if (!l) return false;
            c.ops.push_back(p);
        }
    }
    return seen;
}

//---------------------------------------------------------------- statistics
struct Stats {
    std::map<std::string, uint64_t> n;   // class counters
    void add(const std::string& k, uint64_t v = 1) { n[k] += v; }
};

// Result of checking one case: empty message = the property held.
typedef std::string Msg;

struct Prop {
    std::string id;
    // makes the idx-th case of this seed; a pure function of (rng, idx, tier)
    std::function<Case(Rng&, uint64_t idx, bool thorough, Stats&)> gen;
    std::function<Msg(const Case&, Stats&)> check;
    std::function<bool(const Case&)> nontrivial;
    std::string rule;
    uint64_t quick_cases;     // per build flavour, scaled by the driver
    uint64_t thorough_cases;
};

inline std::map<std::string, Prop>& registry() { static std::map<std::string, Prop> r; return r; }

inline std::string show(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c >= 32 && c < 127 && c != '"' && c != '\\') r.push_back((char)c);
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        if (r.size() > 160) { r += "..."; break; }
    }
    return r + "\"";
}

} // namespace pbt
#endif
