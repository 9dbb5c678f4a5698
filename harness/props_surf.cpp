// Properties of the filter itself and of its building blocks.
#include "driver.hpp"
#include "surf_ops.hpp"
#include <thread>

using namespace pbt;

//------------------------------------------------------------------ helpers
static Case baseCase(Rng& r, uint64_t idx, bool thorough, Stats& st, int cls = 1) {
    Case c;
    FamilyOut f = genKeys(r, (idx % 97 == 13) ? cls : 0);
    (void)thorough;
    c.family = f.name;
    c.keys = f.keys;
    genConfig(r, c);
    st.add("family " + c.family);
    return c;
}
static size_t distinctKeys(const Case& c) { Keys k = c.keys; dedup(k); return k.size(); }
static bool nt2(const Case& c) { return !c.ops.empty() && (distinctKeys(c) >= 2 || (c.ops[0].name == "set" && c.ops[0].iat(1) >= 2)); }

// The trie of distinguishing prefixes, level by level, from the model.
struct Trie {
    struct Item { int label; bool child, start; };
    std::vector<std::vector<Item> > lv;
    std::vector<size_t> nodes, leaves;
    std::vector<std::vector<int> > leafKeys;
    explicit Trie(const Model& m) : lv(m.height), nodes(m.height, 0), leaves(m.height, 0), leafKeys(m.height) {
        std::vector<int> prev;
        for (int i = 0; i < m.n(); i++) {
            std::vector<int> path;
            for (unsigned char x : m.t[i]) path.push_back(x);
            if (m.exact[i]) path.push_back(256);
            size_t common = 0;
            while (i && common < path.size() && common < prev.size() && path[common] == prev[common]) common++;
            for (size_t d = common; d < path.size(); d++) {
                Item it;
                it.label = path[d];
                it.child = d + 1 < path.size();
                it.start = d > common || lv[d].empty();
                if (d == common && i == 0) it.start = true;
                lv[d].push_back(it);
                if (it.start) nodes[d]++;
            }
            leaves[path.size() - 1]++;
            leafKeys[path.size() - 1].push_back(i);
            prev = path;
        }
    }
    size_t labels() const { size_t n = 0; for (auto& l : lv) n += l.size(); return n; }
};

// Exhaustive part: every subset of size <= 2 of the 39 strings over {00,'a',ff}
// of length <= 3, then a pseudo-random selection of larger subsets.
static const uint64_t kTinySets = 39 + 39 * 38 / 2;
static bool tinyCase(uint64_t idx, Rng& r, Case& c) {
    const Keys& u = tinyUniverse();
    if (idx >= 2 * kTinySets) {
        // One case in eight: every subset of the twelve strings of length <= 2, then every triple of the 39.
        uint64_t x = (idx - 2 * kTinySets) / 8;
        if (idx % 8 != 1 || x >= 4095 + 39 * 38 * 37 / 6) return false;
        c.family = "exhaustive-sweep";
        if (x < 4095) {
            for (auto& w : u) if (w.size() <= 2) c.keys.push_back(w);
            Keys k;
            for (size_t b = 0; b < 12; b++) if ((x + 1) >> b & 1) k.push_back(c.keys[b]);
            c.keys = k;
        } else {
            x -= 4095;
            size_t e = 2;
            while (x >= e * (e - 1) / 2) { x -= e * (e - 1) / 2; e++; }
            size_t d = 1;
            while (x >= d) { x -= d; d++; }
            c.keys = {u[x], u[d], u[e]};
        }
        genConfig(r, c);
        return true;
    }
    c.family = "exhaustive-tiny";
    if (idx < kTinySets) {
        if (idx < 39) c.keys = {u[idx]};
        else {
            uint64_t x = idx - 39;
            for (size_t a = 0; a < 39; a++) { if (x < 38 - a) { c.keys = {u[a], u[a + 1 + x]}; break; } x -= 38 - a; }
        }
    } else {
        std::set<std::string> s;
        size_t n = 3 + r.below(3);
        while (s.size() < n) s.insert(u[r.below(39)]);
        c.keys.assign(s.begin(), s.end());
    }
    genConfig(r, c);
    return true;
}
// Key sets are described by kind, size and seed: they reach millions of keys.
static Keys bulkKeys(int kind, size_t n, uint64_t seed) {
    Rng r(seed);
    Keys k;
    k.reserve(n);
    uint64_t base = r.next(), step = 1 + r.below(1ULL << (8 * r.below(5)));
    std::string pre = randStr(r, r.below(60), "");
    for (size_t i = 0; i < n; i++) {
        switch (kind) {
        case 0: k.push_back(be64(r.next())); break;                                             // random integers
        case 1: k.push_back(be64((base >> 16) + i * step)); break;                              // integer sequences
        case 2: k.push_back(randStr(r, 1 + r.below(12), "abcdefghijklmnopqrstuvwxyz")); break;  // words
        case 3: k.push_back(be64(i).substr(5)); break;                                          // full bytes: widest nodes
        case 4: k.push_back(be64(i).substr(6) + randStr(r, 1 + r.below(40), "ab")); break;      // wide on top, paths below
        case 5: k.push_back(pre + be64(i).substr(4)); break;                                    // long common prefix
        case 6: k.push_back(randStr(r, 6 + r.below(30), "ab")); break;                          // binary tries
        default: k.push_back(be64(i % 2 ? i : i * 255 * 255 + 255).substr(3)); break;           // wide and narrow nodes side by side
        }
    }
    finish(k);
    dedup(k);
    return k;
}
// A case with a "set" operation in front stands for the bulk key set it describes.
static bool isBulk(const Case& c) { return !c.ops.empty() && c.ops[0].name == "set"; }
static Case expanded(const Case& c) {
    Case d = c;
    d.keys = bulkKeys((int)c.ops[0].iat(0), (size_t)std::max<int64_t>(1, c.ops[0].iat(1)), (uint64_t)c.ops[0].iat(2));
    d.ops.erase(d.ops.begin());
    return d;
}
// A spine with short side branches and ends at most of its levels, in dense levels, sparse levels or both:
// whatever goes wrong at one particular depth shows.
static bool ladderCase(uint64_t idx, Rng& r, Case& c) {
    if (idx % 211 != 71) return false;
    static const std::vector<size_t> tops = {16, 32, 64, 128, 256, 512};
    size_t len = r.chance(50) ? r.pick(tops) + r.below(6) : 3 + r.below(r.chance(85) ? 150 : 700);
    std::string al = someAlphabet(r), spine = randStr(r, len, al);
    int lower = (int)r.below(100), upper = (int)r.below(100), ends = r.chance(50) ? 0 : (int)r.below(100);
    for (size_t i = 0; i < len; i++) {
        unsigned char x = (unsigned char)spine[i];
        std::string s = spine.substr(0, i);
        if (x > 0 && r.chance(lower)) c.keys.push_back(s + (char)(r.chance(50) ? x - 1 : r.below(x)) + someTail(r));
        if (x < 255 && r.chance(upper)) c.keys.push_back(s + (char)(r.chance(50) ? x + 1 : x + 1 + r.below(255 - x)) + someTail(r));
        if (i && r.chance(ends)) c.keys.push_back(s);
    }
    c.keys.push_back(spine);
    c.family = "ladder";
    finish(c.keys);
    dedup(c.keys);
    genConfig(r, c);
    static const std::vector<int> ratios = {0, 0, 0, 1, 1, 2, 3, 4, 8, 16};
    if (r.chance(85)) { c.dense = 1; c.ratio = r.pick(ratios); if (c.ctor == 2) c.ctor = 0; }
    return true;
}
template <class F> static Case caseOf(Rng& r, uint64_t idx, bool th, Stats& st, size_t nops, F mk, bool bulk = false) {
    Case c;
    if (bulk && idx % 12007 == 1800) {   // far more keys than any other family has
        Op set("set");
        size_t n = 60000;
        for (uint64_t lim = r.below(th ? 2500000 : 1000000); n < lim; n += n / 3) if (r.chance(12)) break;
        set.I((int64_t)r.below(8)).I((int64_t)(n + r.below(n / 2))).I((int64_t)r.below(1ULL << 40));
        c.ops.push_back(set);
        c.keys = expanded(c).keys;
        genConfig(r, c);
        if (r.chance(35)) { c.dense = 1; c.ratio = 0; if (c.ctor == 2) c.ctor = 0; }
        c.family = "bulk-" + num(set.iat(0));
        st.add("family bulk");
        for (size_t i = 0; i < nops * 8; i++) c.ops.push_back(mk(r, c));
        c.keys.clear();
        return c;
    }
    if (tinyCase(idx, r, c) || ladderCase(idx, r, c)) st.add("family " + c.family);
    else c = baseCase(r, idx, th, st);
    if (c.keys.size() > 3000) nops *= 4;
    for (size_t i = 0; i < nops; i++) c.ops.push_back(mk(r, c));
    return c;
}
template <class F> static Msg eachOp(const Case& c, Stats& st, F fn) {
    if (isBulk(c)) return eachOp(expanded(c), st, fn);
    if (c.keys.empty()) return "";
    Filter f(c);
    Model m(c.keys, c.stype, c.hlen, c.rlen);
    st.add("keys", m.n());
    st.add(f.f->getSparseStartLevel() == 0 ? "tries all-sparse" : f.f->getSparseStartLevel() >= f.f->getHeight() ? "tries all-dense" : "tries mixed");
    for (auto& o : c.ops) {
        Msg e = fn(f.f, m, o);
        if (!e.empty()) return e;
    }
    return "";
}

//------------------------------------------------------------------ C01
static Case gen01(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 0, [](Rng&, const Case&) { return Op("L"); }, true);
    if (isBulk(c)) { c.ops.push_back(Op("A")); return c; }
    // every stored key is looked up; of huge sets a sample is written out, the rest is one "all" op
    c.ops.push_back(Op("A"));
    return c;
}
static Msg check01(const Case& c, Stats& st) {
    return eachOp(c, st, [&](SuRF* f, const Model& m, const Op& o) -> Msg {
        if (o.name == "L") return opLookup(f, m, o, 1, st);
        for (auto& k : m.k) {
            st.add("stored-key-lookups");
            if (!f->lookupKey(k)) return "lookup of stored key " + show(k) + " answered false";
        }
        return "";
    });
}
//------------------------------------------------------------------ C02
static Case gen02(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 60, [](Rng& q, const Case& k) { return genR(q, k.keys, k); }, true);
    if (isBulk(c)) return c;
    if (c.family == "exhaustive-tiny" && idx < kTinySets) {   // all pairs of bounds from universe plus ""
        c.ops.clear();
        Keys u = tinyUniverse();
        u.insert(u.begin(), "");
        for (size_t a = 0; a < u.size(); a++)
            for (size_t b = a; b < u.size(); b++) { int f = (int)r.below(4); c.ops.push_back(Op("R").I(f & 1).I(f >> 1).S(u[a]).S(u[b])); }
    }
    // around each stored key of small sets
    if (c.keys.size() <= 64)
        for (auto& k : c.keys) {
            std::string l = genQuery(r, c.keys, c.rlen);
            if (k < l) c.ops.push_back(Op("R").I(1).I(r.chance(50)).S(k).S(l));
            else c.ops.push_back(Op("R").I(r.chance(50)).I(1).S(l).S(k));
            c.ops.push_back(Op("R").I(1).I(1).S(k).S(k));
        }
    return c;
}
static Msg check02(const Case& c, Stats& st) {
    return eachOp(c, st, [&](SuRF* f, const Model& m, const Op& o) { return opRange(f, m, o, 1, st); });
}
//------------------------------------------------------------------ C03
static Case gen03(Rng& r, uint64_t idx, bool th, Stats& st) {
    if (idx % 100 == 7) {       // statistical case: n hash bits, absent keys behind retained prefixes
        r = Rng(r.next());      // all choices random, whatever drives the search
        Case c;
        c.family = "hash-statistics";
        size_t n = 50 + r.below(400);
        int shape = (int)r.below(5);
        std::string common = shape == 1 || shape == 2 ? randStr(r, r.below(150), "") : std::string();
        uint64_t base = r.next(), step = 1 + r.below(1ULL << (4 * r.below(12)));
        for (size_t i = 0; i < n; i++) {
            if (shape == 3) c.keys.push_back(be64(base + i * step));
            else if (shape == 4) c.keys.push_back(randStr(r, 3 + r.below(4), "") + "com.mail@" + randStr(r, 4 + r.below(12), "abcdefghijklmnopqrstuvwxyz"));
            else c.keys.push_back(common + randStr(r, 4 + r.below(shape == 2 ? 120 : 10), ""));
        }
        finish(c.keys); dedup(c.keys);
        c.stype = r.chance(60) ? 1 : 3;
        c.hlen = (int)(r.chance(70) ? r.range(1, 14) : r.range(15, 40));
        c.rlen = c.stype == 3 ? (int)r.range(1, 16) : 0;
        c.dense = r.chance(70); c.ratio = r.chance(50) ? 16 : 0;
        c.ops.push_back(Op("H").I((int64_t)r.below(1ULL << 40)).I(r.chance(10) ? 60000 : 6000));
        st.add("family hash-statistics");
        return c;
    }
    return caseOf(r, idx, th, st, 60, [](Rng& q, const Case& k) { return genL(q, k.keys, k); }, true);
}
// Absent keys that agree with a stored key on everything retained of it but the hash,
// made in several ways; each way on its own has to pass about once in 2^n.
static Msg hashStatistics(const Case& c, SuRF* f, const Model& m, const Op& o, Stats& st) {
    // At least three random bytes each time: the hash is LevelDB's, which spreads a
    // change of the very last byte over a few of its bits only.
    static const char* const ways[] = {"random tail", "bytes in the tail replaced", "last bytes replaced", "bytes appended", "many bytes appended", "bytes inserted", "tail of another key", "one byte changed"};
    const int kWays = 8;
    Rng r((uint64_t)o.iat(0));
    int64_t n[kWays] = {0}, pass[kWays] = {0};
    std::set<std::string> asked;
    for (int64_t i = 0; i < o.iat(1); i++) {
        int j = (int)r.below(m.n());
        if (m.exact[j]) continue;
        size_t keep = m.t[j].size();
        if (c.stype == 3) {   // keep the real bits right so that only the hash bits decide
            keep += (m.rlen + 7) / 8;
            if (m.k[j].size() < keep || !m.known(j)) continue;
        }
        std::string q = m.k[j].substr(0, keep), tail = m.k[j].substr(keep);
        int w = (int)r.below(kWays);
        if ((w == 1 || w == 2) && tail.size() < 4) continue;
        if (w == 7 && tail.size() < 9) continue;
        size_t p = w == 1 ? r.below(tail.size() - 3) : w == 2 ? tail.size() - 4 : r.below(tail.size() + 1);
        std::string noise = randStr(r, w == 0 ? 3 + r.below(8) : 4, "");
        if (w == 0) tail = noise;
        else if (w == 1 || w == 2) tail.replace(p, 4, noise);
        else if (w == 3) tail += noise;
        else if (w == 4) tail += std::string(r.below(200), 'a') + noise;
        else if (w == 5) tail.insert(p, noise);
        else if (w == 7) tail[r.below(tail.size() - 8)] ^= (char)(1 + r.below(255));
        else { const std::string& x = m.k[r.below(m.n())]; tail = x.substr(std::min(x.size(), keep)) + noise; }
        q += tail;
        if (m.find(q) >= 0 || !asked.insert(q).second) continue;
        n[w]++;
        if (f->lookupKey(q)) pass[w]++;
    }
    double p = 1.0;
    for (int b = 0; b < c.hlen && b < 25; b++) p /= 2;   // the hash has 25 bits to give
    int64_t alln = 0, allp = 0;
    for (int w = 0; w < kWays; w++) {
        st.add("hash-statistics-queries", n[w]);
        alln += n[w]; allp += pass[w];
        double lim = n[w] * p;
        // 8 standard deviations plus slack: an ideal hash stays below this except with negligible probability
        double sd = 1; while (sd * sd < lim) sd += 0.5;
        if ((double)pass[w] > lim + 8 * sd + 8)
            return num(pass[w]) + " of " + num(n[w]) + " absent keys (" + ways[w] + ") passed with " + num(c.hlen) + " hash bits (expected about " + num((int64_t)lim) + ")";
    }
    double lim = alln * p, sd = 1;
    while (sd * sd < lim) sd += 0.5;
    if ((double)allp > lim + 8 * sd + 8) return num(allp) + " of " + num(alln) + " absent keys passed with " + num(c.hlen) + " hash bits (expected about " + num((int64_t)lim) + ")";
    return "";
}
static Msg check03(const Case& c, Stats& st) {
    return eachOp(c, st, [&](SuRF* f, const Model& m, const Op& o) -> Msg {
        if (o.name == "L") return opLookup(f, m, o, 2, st);
        return hashStatistics(c, f, m, o, st);
    });
}
//------------------------------------------------------------------ C04
static Case gen04(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 70, [](Rng& q, const Case& k) {
        if (q.chance(12)) { // nested intervals: M l h, l2 <= l, h2 >= h
            std::string l, h, a = genQuery(q, k.keys, k.rlen), b = genQuery(q, k.keys, k.rlen);
            genBounds(q, k.keys, k.rlen, l, h);
            if (l < a) a = l;
            if (b < h) b = h;
            return Op("M").I(q.chance(50)).I(q.chance(50)).S(l).S(h).S(a).S(b);
        }
        return genR(q, k.keys, k);
    }, true);
    if (isBulk(c)) return c;
    if (c.family == "exhaustive-tiny" && idx < kTinySets) {
        c.ops.clear();
        Keys u = tinyUniverse();
        u.insert(u.begin(), "");
        for (size_t a = 0; a < u.size(); a++)
            for (size_t b = a; b < u.size(); b++) { int f = (int)r.below(4); c.ops.push_back(Op("R").I(f & 1).I(f >> 1).S(u[a]).S(u[b])); }
    }
    return c;
}
static Msg check04(const Case& c, Stats& st) {
    return eachOp(c, st, [&](SuRF* f, const Model& m, const Op& o) -> Msg {
        if (o.name == "R") return opRange(f, m, o, 2, st);
        const std::string &l = o.sat(0), &h = o.sat(1), &a = o.sat(2), &b = o.sat(3);
        if (h < l || l < a || b < h) return "";
        bool li = o.iat(0) != 0, hi = o.iat(1) != 0;
        bool in = f->lookupRange(l, li, h, hi);
        st.add("nested-ranges");
        if (in) {
            st.add("nested-ranges-inner-true");
            if (!f->lookupRange(a, true, h, hi)) return "range from " + show(l) + " to " + show(h) + " is true but false after lowering the left bound to " + show(a);
            if (!f->lookupRange(l, li, b, true)) return "range from " + show(l) + " to " + show(h) + " is true but false after raising the right bound to " + show(b);
            if (!f->lookupRange(a, true, b, true)) return "range from " + show(l) + " to " + show(h) + " is true but false when widened to " + show(a) + " .. " + show(b);
        }
        return "";
    });
}
//------------------------------------------------------------------ C05, C06
template <class F> static void addAllTinySeeks(Case& c, const char* nm, F) {
    c.ops.clear();
    for (int inc = 0; inc < 2; inc++) {
        c.ops.push_back(Op(nm).I(inc).S(""));
        for (auto& q : tinyUniverse()) { c.ops.push_back(Op(nm).I(inc).S(q)); c.ops.push_back(Op(nm).I(inc).S(q + "a")); }
    }
}
static Case gen05(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 60, [](Rng& q, const Case& k) { return genG(q, k.keys, k); }, true);
    if (isBulk(c)) return c;
    if (c.family == "exhaustive-tiny") addAllTinySeeks(c, "G", 0);
    return c;
}
static Msg check05(const Case& c, Stats& st) {
    return eachOp(c, st, [&](SuRF* f, const Model& m, const Op& o) { return opSeekGe(f, m, o, st); });
}
static Case gen06(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 60, [](Rng& q, const Case& k) { return genT(q, k.keys, k); }, true);
    if (isBulk(c)) return c;
    if (c.family == "exhaustive-tiny") addAllTinySeeks(c, "T", 0);
    return c;
}
static Msg check06(const Case& c, Stats& st) {
    return eachOp(c, st, [&](SuRF* f, const Model& m, const Op& o) { return opSeekLe(f, m, o, st); });
}
//------------------------------------------------------------------ C07
static Case gen07(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 10, [](Rng& q, const Case& k) { return genW(q, k.keys, k, 40); }, true);
    if (isBulk(c)) { c.ops.push_back(Op("V")); return c; }
    size_t n = std::min<size_t>(c.keys.size() + 1, 1200);
    c.ops.push_back(Op("W").I(0).S("").S(std::string(n, '+')));
    c.ops.push_back(Op("W").I(1).S("").S(std::string(n, '-')));
    if (c.keys.size() <= 200) {   // to the end and back; a turn at every position
        size_t d = distinctKeys(c);
        c.ops.push_back(Op("W").I(0).S("").S(std::string(d - 1, '+') + std::string(d, '-')));
        std::string z;
        for (size_t i = 0; i + 1 < d; i++) z += "+-+";
        c.ops.push_back(Op("W").I(0).S("").S(z));
    }
    return c;
}
static Msg check07(const Case& c, Stats& st) {
    return eachOp(c, st, [&](SuRF* f, const Model& m, const Op& o) -> Msg {
        if (o.name != "V") return opWalk(f, m, o, st);
        // all keys, forwards and backwards
        int i = 0;
        SIter it = f->moveToFirst();
        for (; it.isValid() && i < m.n(); i++, it++) if (it.getKey() != m.t[i]) return "key " + num(i) + " of the walk is " + show(it.getKey()) + ", expected the prefix of " + posName(m, i);
        if (it.isValid() || i != m.n()) return "walk of " + num(m.n()) + " keys saw " + num(i) + (it.isValid() ? " and goes on" : " and ended");
        it = f->moveToLast();
        for (; it.isValid() && i > 0; i--, it--) if (it.getKey() != m.t[i - 1]) return "key " + num(i - 1) + " of the walk back is " + show(it.getKey()) + ", expected the prefix of " + posName(m, i - 1);
        if (it.isValid() || i) return "walk back of " + num(m.n()) + " keys ended " + num(i) + " before the first";
        st.add("full-walks");
        return "";
    });
}
//------------------------------------------------------------------ C08
static Case gen08(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 16, [](Rng& q, const Case& k) { return genK(q, k.keys, k); }, true);
    if (isBulk(c)) return c;
    Op o("K");
    o.I(r.below(2));
    o.S("").S(std::string(std::min<size_t>(c.keys.size(), 400), o.iat(0) == 0 ? '+' : '-'));
    for (int i = 0; i < 6; i++) o.S(genQuery(r, c.keys, c.rlen));
    c.ops.push_back(o);
    return c;
}
static Msg check08(const Case& c, Stats& st) {
    return eachOp(c, st, [&](SuRF* f, const Model& m, const Op& o) { return opContent(f, m, o, st); });
}
//------------------------------------------------------------------ C09
static Case gen09(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 50, [](Rng& q, const Case& k) { return q.chance(55) ? genC(q, k.keys, k) : genN(q, k.keys, k); }, true);
    if (isBulk(c)) return c;
    c.ops.push_back(Op("N").I(0).I(1).S("").S("").S("").S(""));
    c.ops.push_back(Op("C").S("").S(std::string(600, '\xff')));
    return c;
}
static Msg check09(const Case& c, Stats& st) {
    return eachOp(c, st, [&](SuRF* f, const Model& m, const Op& o) { return o.name == "C" ? opCount(f, m, o, st) : opCountIt(f, m, o, st); });
}
//------------------------------------------------------------------ C10
static Op genAnyZ(Rng& r, const Case& k) { return r.chance(6) ? Op("Z") : genAny(r, k.keys, k); }
static Case gen10(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 24, [](Rng& q, const Case& k) { return genAnyZ(q, k); }, true);
    if (isBulk(c)) return c;
    c.via = 0;
    c.ops.push_back(Op("Z"));
    c.ops.insert(c.ops.begin(), Op("rounds").I(r.range(1, 3)).I(r.below(2)));
    return c;
}
static Msg check10(const Case& c, Stats& st) {
    if (isBulk(c)) return check10(expanded(c), st);
    if (c.keys.empty()) return "";
    Case d = c;
    d.via = 0;
    SuRF* f = build(d);
    std::vector<std::string> before;
    int64_t rounds = 1, order = 0;
    for (auto& o : c.ops) { if (o.name == "rounds") { rounds = o.iat(0); order = o.iat(1); } }
    for (auto& o : c.ops) before.push_back(answer(f, o));
    uint64_t size = f->serializedSize();
    std::string first = bytesOf(f);
    if (first.size() != size) { drop(f); return "serialised size changed between calls"; }
    Msg e;
    for (int64_t k = 0; k < rounds && e.empty(); k++) {
        std::string img = bytesOf(f);
        if (img != first) { e = "serialised form differs in round " + num(k); break; }
        SuRF* g;
        {   // the restored filter must not depend on the original or on the buffer
            Image im(img);
            if (order == 0) { drop(f); f = nullptr; }
            g = SuRF::deSerialize(im.p);
            if (order == 1) { drop(f); f = nullptr; }
        }
        f = g;
        st.add("round-trips");
        if (f->serializedSize() != size) { e = "serialised size is " + num((int64_t)f->serializedSize()) + " after a round trip, was " + num((int64_t)size); break; }
        for (size_t i = 0; i < c.ops.size(); i++) {
            std::string a = answer(f, c.ops[i]);
            st.add("answers-compared");
            if (a != before[i]) { e = "operation " + num((int64_t)i) + " (" + c.ops[i].name + " " + show(c.ops[i].sat(0)) + " " + show(c.ops[i].sat(1)) + ") answers " + a + " after round trip " + num(k + 1) + ", was " + before[i]; break; }
        }
        if (e.empty() && bytesOf(f) != first) e = "a restored filter serialises to different bytes";
    }
    // the restored filter must still contain every key (independent of the transcript)
    if (e.empty())
        for (auto& k : c.keys) if (!f->lookupKey(k)) { e = "restored filter misses stored key " + show(k); break; }
    drop(f);
    return e;
}
//------------------------------------------------------------------ C11
static Case gen11(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 24, [](Rng& q, const Case& k) { return genAny(q, k.keys, k); });
    c.dense = 1; c.ratio = 16; c.via = 0;
    Op s("splits");
    static const std::vector<int64_t> pool = {-1, 0, 1, 2, 3, 4, 8, 16, 24, 32, 64, 128, 256, 1000, 100000};
    s.I(-1).I(0).I(16);
    for (int i = 0; i < 3; i++) s.I(r.pick(pool));
    c.ops.insert(c.ops.begin(), s);
    return c;
}
// each encoding alone: all levels dense (ratio 0), all levels sparse (dense off)
#ifdef PBT_NO_PARTS
static Msg standalone(const Case&, const Model&, Stats&) { return ""; }
#else
static Msg standalone(const Case& c, const Model& m, Stats& st) {
    Msg e;
    {
        surf::SuRFBuilder b(true, 0, stypeOf(c), (surf::level_t)c.hlen, (surf::level_t)c.rlen);
        b.build(c.keys);
        surf::LoudsDense* d = new surf::LoudsDense(&b);
        for (auto& k : m.k) {
            surf::position_t out = 0;
            if (!d->lookupKey(k, out) || out != 0) { e = "dense encoding alone misses " + show(k); break; }
            st.add("standalone-lookups");
        }
        for (auto& o : c.ops) {
            if (!e.empty() || o.name != "L") continue;
            int v = m.lookup(o.sat(0));
            surf::position_t out = 0;
            bool a = d->lookupKey(o.sat(0), out);
            if (v == 0 && a) e = "dense encoding alone answers true for " + show(o.sat(0));
            if (v == 1 && !a) e = "dense encoding alone answers false for " + show(o.sat(0));
        }
        for (auto& o : c.ops) {
            if (!e.empty() || o.name != "G") continue;
            surf::LoudsDense::Iter it(d);
            bool fp = d->moveToKeyGreaterThan(o.sat(0), o.iat(0) != 0, it);
            int j = o.iat(0) ? m.lower(o.sat(0)) : m.upper(o.sat(0));
            int p = -1;
            if (it.isValid()) { auto x = m.idx.find(it.getKey()); p = x == m.idx.end() ? -2 : x->second; }
            st.add("standalone-seeks");
            bool ok = p == -1 ? j >= m.n() : (p == j || (fp && p == j - 1 && Model::isPrefix(m.t[p], o.sat(0))));
            if (!ok) e = "dense encoding alone: seek to " + show(o.sat(0)) + " rests on " + (p == -2 ? show(it.getKey()) : posName(m, p)) + ", expected " + posName(m, j);
        }
        d->destroy();
        delete d;
    }
    if (!e.empty()) return e;
    {
        surf::SuRFBuilder b(false, 16, stypeOf(c), (surf::level_t)c.hlen, (surf::level_t)c.rlen);
        b.build(c.keys);
        surf::LoudsSparse* d = new surf::LoudsSparse(&b);
        for (auto& k : m.k) {
            if (!d->lookupKey(k, 0)) { e = "sparse encoding alone misses " + show(k); break; }
            st.add("standalone-lookups");
        }
        for (auto& o : c.ops) {
            if (!e.empty() || o.name != "L") continue;
            int v = m.lookup(o.sat(0));
            bool a = d->lookupKey(o.sat(0), 0);
            if (v == 0 && a) e = "sparse encoding alone answers true for " + show(o.sat(0));
            if (v == 1 && !a) e = "sparse encoding alone answers false for " + show(o.sat(0));
        }
        for (auto& o : c.ops) {
            if (!e.empty() || o.name != "G") continue;
            surf::LoudsSparse::Iter it(d);
            bool fp = d->moveToKeyGreaterThan(o.sat(0), o.iat(0) != 0, it);
            int j = o.iat(0) ? m.lower(o.sat(0)) : m.upper(o.sat(0));
            int p = -1;
            if (it.isValid()) { auto x = m.idx.find(it.getKey()); p = x == m.idx.end() ? -2 : x->second; }
            st.add("standalone-seeks");
            bool ok = p == -1 ? j >= m.n() : (p == j || (fp && p == j - 1 && Model::isPrefix(m.t[p], o.sat(0))));
            if (!ok) e = "sparse encoding alone: seek to " + show(o.sat(0)) + " rests on " + (p == -2 ? show(it.getKey()) : posName(m, p)) + ", expected " + posName(m, j);
        }
        d->destroy();
        delete d;
    }
    return e;
}
#endif
static Msg check11(const Case& c, Stats& st) {
    std::vector<int64_t> sp;
    for (auto& o : c.ops) if (o.name == "splits") sp = o.i;
    if (sp.empty()) sp = {16, 0};
    std::vector<std::string> ref;
    std::set<int64_t> levels;
    Model m(c.keys, c.stype, c.hlen, c.rlen);
    for (size_t s = 0; s < sp.size(); s++) {
        Filter f(buildWith(c, c.keys, sp[s] >= 0, sp[s] < 0 ? 16 : sp[s], 0));
        levels.insert(f.f->getSparseStartLevel());
        for (auto& k : m.k)
            if (!f.f->lookupKey(k)) return "with split setting " + num(sp[s]) + " (-1 = dense off) stored key " + show(k) + " is missed";
        for (size_t i = 0; i < c.ops.size(); i++) {
            if (c.ops[i].name == "splits") { if (s == 0) ref.push_back(""); continue; }
            std::string a = answer(f.f, c.ops[i]);
            if (s == 0) ref.push_back(a);
            else if (a != ref[i])
                return "operation " + c.ops[i].name + " " + num(c.ops[i].iat(0)) + " " + num(c.ops[i].iat(1)) + " " + show(c.ops[i].sat(0)) + " " + show(c.ops[i].sat(1)) + " answers " + a + " with split setting " + num(sp[s]) + " but " + ref[i] + " with " + num(sp[0]) + " (-1 = dense off)";
            st.add("answers-compared");
        }
    }
    st.add("distinct-split-levels", levels.size());
    return standalone(c, m, st);
}
//------------------------------------------------------------------ C12
static Case gen12(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 0, [](Rng&, const Case&) { return Op(); });
    dedup(c.keys);
    c.via = 0;
    Op d("dup");
    size_t n = 1 + r.below(6);
    for (size_t i = 0; i < n; i++) { d.I(r.chance(25) ? 0 : r.chance(25) ? (int64_t)c.keys.size() - 1 : (int64_t)r.below(c.keys.size())).I(r.range(1, 3)); }
    c.ops.push_back(d);
    if (r.chance(15)) c.ops.push_back(Op("dupall"));
    return c;
}
static Msg check12(const Case& c, Stats& st) {
    Keys base = c.keys;
    dedup(base);
    Model m(base, c.stype, c.hlen, c.rlen);
    std::string want;
    uint64_t h, s;
    {
        Filter f(buildWith(c, base, c.dense, c.ratio, 0));
        want = bytesOf(f.f);
        h = f.f->getHeight();
        s = f.f->getSparseStartLevel();
        if (bytesOf(f.f) != want) return "serialising one filter twice gives different bytes";
    }
    if (h != m.height) return "height is " + num((int64_t)h) + ", the trie of distinguishing prefixes has " + num((int64_t)m.height) + " levels";
    if (s > h) return "dense levels (" + num((int64_t)s) + ") exceed the height (" + num((int64_t)h) + ")";
    if (!c.dense && s != 0) return "dense levels present although switched off";
    auto cmp = [&](SuRF* g, const char* how) -> Msg {
        Filter f(g);
        st.add(std::string("compared ") + how);
        if (f.f->getHeight() != h || f.f->getSparseStartLevel() != s) return std::string("different shape when built ") + how;
        if (bytesOf(f.f) != want) return std::string("different serialised bytes when built ") + how;
        return "";
    };
    Msg e = cmp(buildWith(c, base, c.dense, c.ratio, 0), "again");
    if (e.empty()) e = cmp(buildWith(c, base, c.dense, c.ratio, 1), "by create() on a default object");
    if (e.empty() && c.dense && c.ratio == 16) e = cmp(buildWith(c, base, c.dense, c.ratio, 2), "by a shorter constructor");
    if (e.empty() && c.stype == 0 && c.dense && c.ratio == 16) e = cmp(new SuRF(base, surf::kNone, 0, 0), "by the suffix constructor");
    if (!e.empty()) return e;
    Keys dup = base;
    for (auto& o : c.ops) {
        if (o.name == "dup")
            for (size_t i = 0; i + 1 < o.i.size(); i += 2) {
                const std::string v = base[(size_t)(o.i[i] < 0 ? 0 : o.i[i]) % base.size()];
                for (int64_t k = 0; k < o.i[i + 1]; k++) dup.push_back(v);
            }
        if (o.name == "dupall") dup.insert(dup.end(), base.begin(), base.end());
    }
    std::sort(dup.begin(), dup.end());
    e = cmp(buildWith(c, dup, c.dense, c.ratio, 0), "from a list with repeated keys");
    if (!e.empty()) return e;
    // shape depends on keys and settings only: same keys in a different process history is covered by replay
    return "";
}
//------------------------------------------------------------------ C13
static Case gen13(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 30, [](Rng& q, const Case& k) { return q.chance(5) ? Op(q.chance(50) ? "Z" : "B") : genAny(q, k.keys, k); });
    c.ops.push_back(Op("C").S("").S(std::string(600, '\xff')));
    c.ops.push_back(Op("N").I(0).I(1).S("").S("").S("").S(""));
    c.ops.push_back(Op("W").I(0).S("").S(std::string(std::min<size_t>(c.keys.size() + 2, 600), '+')));
    c.ops.push_back(Op("W").I(1).S("").S(std::string(std::min<size_t>(c.keys.size() + 2, 600), '-')));
    c.ops.push_back(Op("B"));
    if (r.chance(10)) c.ops.push_back(Op("inv"));
    return c;
}
static std::string transcript13(const Case& c) {
    std::string out;
    {
        Filter f(c);
        for (auto& o : c.ops) {
            if (o.name == "inv") {   // legal uses of invalid and default iterators
                SIter d;
                d = f.f->moveToKeyGreaterThan(std::string(600, '\xff'), true);
                unsigned bl;
                surf::word_t w = 0;
                out += d.getKey() + d.getKeyWithSuffix(&bl);
                d.getSuffix(&w);
                out += d.isValid() ? "v" : "i";
                // the same in memory filled with the junk of this run
                char* raw = (char*)operator new(2 * sizeof(SIter));
                SIter* x = new (raw) SIter();
                SIter* y = new (raw + sizeof(SIter)) SIter(*x);
                out += x->getFpFlag() ? "f" : "n";
                out += y->getFpFlag() ? "f" : "n";
                out += x->isValid() || y->isValid() ? "v" : "i";
                out += x->getKey();
                *y = f.f->moveToFirst();
                out += (*y).isValid() ? (*y).getKey() : "-";
                y->clear();
                out += y->isValid() ? "v" : "i";
                x->~SIter(); y->~SIter();
                operator delete(raw);
                if (!d.isValid()) { d++; d--; }
                SIter e = f.f->moveToFirst();
                uint64_t n = f.f->approxCount(&e, &d);
                out += num((int64_t)n);
            } else out += answer(f.f, o) + "\n";
        }
        for (auto& k : c.keys) out += f.f->lookupKey(k) ? "1" : "0";
    }
#ifndef PBT_NO_PARTS
    {   // the parts alone
        surf::SuRFBuilder b(c.dense != 0, (uint32_t)c.ratio, stypeOf(c), (surf::level_t)c.hlen, (surf::level_t)c.rlen);
        b.build(c.keys);
        surf::LoudsSparse* s = new surf::LoudsSparse(&b);
        out += num((int64_t)s->getMemoryUsage()) + " " + num((int64_t)s->serializedSize());
        s->destroy();
        delete s;
        surf::LoudsDense* d = new surf::LoudsDense(&b);
        out += num((int64_t)d->getMemoryUsage()) + " " + num((int64_t)d->serializedSize());
        d->destroy();
        delete d;
    }
#endif
    return out;
}
static Msg check13(const Case& c, Stats& st) {
    // With the junk-filling allocator the same program runs over two different heap
    // contents: a transcript that changes has read memory nobody wrote.
    setJunk(0);   // zeros: unset flags read as false
    std::string a = transcript13(c);
    setJunk(0x9e3779b97f4a7c15ULL);
    std::string b = transcript13(c);
    std::string he = heapError();
    st.add("programs-run");
    st.add("operations", c.ops.size());
    if (!he.empty()) return he;
    if (a != b) {
        size_t p = 0;
        while (p < a.size() && p < b.size() && a[p] == b[p]) p++;
        return "answers depend on the previous contents of fresh memory (transcripts differ at byte " + num((int64_t)p) + ": ..." + show(a.substr(p > 20 ? p - 20 : 0, 60)) + " vs ..." + show(b.substr(p > 20 ? p - 20 : 0, 60)) + ")";
    }
    return "";
}
//------------------------------------------------------------------ C16
static const int kVariants = 4;
static Keys variantKeys(const Keys& all, int v) {
    Keys k;
    for (size_t i = 0; i < all.size(); i++)
        if (v == 0 || (v == 1 && i % 2 == 0) || (v == 2 && i % 2 == 1) || (v == 3 && i >= all.size() / 2)) k.push_back(all[i]);
    return k.empty() ? all : k;
}
static Op asQuery(int which, const Op& o) {
    Op q("q");
    q.I(which);
    for (auto v : o.i) q.I(v);
    q.S(o.name);
    for (auto& v : o.s) q.S(v);
    return q;
}
static Case gen16(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = baseCase(r, 1000 + idx % 13, th, st, 0);
    if (c.keys.size() > 60) { // keep rebuilding affordable
        Keys k;
        size_t o = r.below(c.keys.size() - 50);
        k.assign(c.keys.begin() + o, c.keys.begin() + o + 50);
        c.keys = k;
    }
    size_t n = 8 + r.below(18);
    std::vector<Op> asked;
    for (size_t i = 0; i < n; i++) {
        int which = (int)r.below(2);
        switch (r.below(13)) {
        case 0: case 1: case 2: { // seek into slot
            int how = (int)r.below(6);
            c.ops.push_back(Op("seek").I(which).I(r.below(3)).I(how).S(how >= 2 ? genQuery(r, c.keys, c.rlen) : std::string()));
            break; }
        case 3: case 4: c.ops.push_back(Op("step").I(r.below(3)).S(genMoves(r, 4))); break;
        case 5: c.ops.push_back(Op("copy").I(r.below(3)).I(r.below(3))); break;
        case 6: c.ops.push_back(Op("look").I(r.below(3)).S(genQuery(r, c.keys, c.rlen))); break;
        case 7: // the same object, or another one in its place, is given other keys
            c.ops.push_back(Op("rebuild").I(which).I(r.below(kVariants)).I(r.below(2)));
            break;
        case 8: c.ops.push_back(Op("clear").I(r.below(3))); break;
        case 9: case 10: // ask again, usually with the filters swapped or rebuilt
            if (!asked.empty()) {
                Op q = asked[r.chance(50) ? asked.size() - 1 : r.below(asked.size())];
                if (r.chance(40)) c.ops.push_back(Op("rebuild").I(q.i[0]).I(r.below(kVariants)).I(r.below(2)));
                else if (r.chance(50)) q.i[0] = 1 - q.i[0];
                c.ops.push_back(q);
                break;
            } // fall through
        default: {
            Op o = r.chance(40) ? Op("L").S(r.chance(50) && !c.keys.empty() ? c.keys[r.below(c.keys.size())] : genQuery(r, c.keys, c.rlen)) : genAny(r, c.keys, c);
            Op q = asQuery(which, o);
            asked.push_back(q);
            c.ops.push_back(q); }
        }
    }
    return c;
}
struct Slot { bool live = false; int filter = 0; int variant = 0; int how = 0; std::string q; std::string moves; };
static Msg check16(const Case& c, Stats& st) {
    // Two filters live side by side; either may be rebuilt over one of four key sets.
    Case cc[2][kVariants];
    std::vector<Model> models[2];
    for (int w = 0; w < 2; w++)
        for (int v = 0; v < kVariants; v++) {
            cc[w][v] = c;
            cc[w][v].keys = variantKeys(c.keys, v);
            if (w == 1) cc[w][v].ctor = 0;
            models[w].push_back(Model(cc[w][v].keys, c.stype, c.hlen, c.rlen));
        }
    int var[2] = {0, 1};
    // What every query answers on a filter that has seen nothing else. Taken before the
    // history and in the opposite order, so that state kept outside the filters shows too.
    std::vector<std::string> alone(c.ops.size());
    {
        int v[2] = {0, 1};
        std::vector<int> at(c.ops.size(), 0);
        for (size_t k = 0; k < c.ops.size(); k++) {
            if (c.ops[k].name == "rebuild") v[c.ops[k].iat(0)] = (int)c.ops[k].iat(1);
            if (c.ops[k].name == "q") at[k] = v[c.ops[k].iat(0)];
        }
        for (size_t k = c.ops.size(); k-- > 0;) {
            const Op& o = c.ops[k];
            if (o.name != "q") continue;
            Op p(o.sat(0));
            for (size_t i = 1; i < o.i.size(); i++) p.I(o.i[i]);
            for (size_t i = 1; i < o.s.size(); i++) p.S(o.s[i]);
            Filter g(cc[o.iat(0)][at[k]]);
            alone[k] = answer(g.f, p);
        }
    }
    std::unique_ptr<Filter> f[2] = {std::unique_ptr<Filter>(new Filter(cc[0][0])), std::unique_ptr<Filter>(new Filter(cc[1][1]))};
    std::string img[2] = {bytesOf(f[0]->f), bytesOf(f[1]->f)};
    SIter it[3];
    Slot sl[3];
    auto fresh = [&](const Slot& s) {
        Filter g(cc[s.filter][s.variant]);
        SIter i = startAt(g.f, s.how, s.q);
        for (char m : s.moves) { if (m == '+') i++; else i--; }
        std::ostringstream o;
        descr(o, i, true);
        return o.str();
    };
    for (size_t k = 0; k < c.ops.size(); k++) {
        const Op& o = c.ops[k];
        std::string nm = "operation " + num((int64_t)k) + " (" + o.name + "): ";
        if (o.name == "seek") {
            Slot& s = sl[o.iat(1)];
            s.live = true; s.filter = (int)o.iat(0); s.variant = var[s.filter]; s.how = (int)o.iat(2); s.q = o.sat(0); s.moves.clear();
            it[o.iat(1)] = startAt(f[s.filter]->f, s.how, s.q);
        } else if (o.name == "step") {
            if (!sl[o.iat(0)].live) continue;
            for (char m : o.sat(0)) { if (m == '+') it[o.iat(0)]++; else it[o.iat(0)]--; }
            sl[o.iat(0)].moves += o.sat(0);
        } else if (o.name == "copy") {
            if (!sl[o.iat(0)].live) continue;
            it[o.iat(1)] = it[o.iat(0)];
            sl[o.iat(1)] = sl[o.iat(0)];
        } else if (o.name == "look") {
            if (!sl[o.iat(0)].live || !it[o.iat(0)].isValid()) continue;
            (void)it[o.iat(0)].compare(o.sat(0));
        } else if (o.name == "clear") {
            if (!sl[o.iat(0)].live) continue;
            it[o.iat(0)].clear();
            if (it[o.iat(0)].isValid()) return nm + "a cleared iterator is valid";
            sl[o.iat(0)].live = false;
        } else if (o.name == "rebuild") {
            int w = (int)o.iat(0), v = (int)o.iat(1);
            if (bytesOf(f[w]->f) != img[w]) return nm + "the serialised form of filter " + num(w) + " changed during the history";
            for (int s = 0; s < 3; s++) if (sl[s].filter == w) sl[s].live = false;   // their trie is gone
            if (o.iat(2)) {          // destroy() and create() again on the same object
                f[w]->f->destroy();
                f[w]->f->create(cc[w][v].keys, c.dense != 0, (uint32_t)c.ratio, stypeOf(c), (surf::level_t)c.hlen, (surf::level_t)c.rlen);
            } else {
                f[w].reset();
                f[w].reset(new Filter(cc[w][v]));
            }
            var[w] = v;
            img[w] = bytesOf(f[w]->f);
            Filter g(cc[w][v]);
            if (img[w] != bytesOf(g.f)) return nm + "a rebuilt filter serialises differently from a fresh one over the same keys";
            st.add("rebuilds");
        } else if (o.name == "q") {
            int w = (int)o.iat(0);
            Op p(o.sat(0));
            for (size_t i = 1; i < o.i.size(); i++) p.I(o.i[i]);
            for (size_t i = 1; i < o.s.size(); i++) p.S(o.s[i]);
            std::string a = answer(f[w]->f, p);
            st.add("answers-compared-with-fresh-filter");
            if (a != alone[k]) return nm + p.name + " " + show(p.sat(0)) + " " + show(p.sat(1)) + " answers " + a + " in the history, " + alone[k] + " on a fresh filter";
            if (p.name == "L" && a == "0" && models[w][var[w]].lookup(p.sat(0)) == 1)
                return nm + "stored key " + show(p.sat(0)) + " is not found in the history";
        }
        for (int s = 0; s < 3; s++) {
            if (!sl[s].live) continue;
            std::ostringstream d;
            descr(d, it[s], true);
            std::string w = fresh(sl[s]);
            st.add("iterator-states-compared");
            if (d.str() != w) return nm + "iterator " + num(s) + " is at " + d.str() + ", alone it would be at " + w;
        }
    }
    for (int s = 0; s < 2; s++)
        if (bytesOf(f[s]->f) != img[s]) return "the serialised form of filter " + num(s) + " changed during the history";
    return "";
}


//------------------------------------------------------------------ C14
static Case gen14(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 12, [](Rng& q, const Case& k) { return genAnyZ(q, k); });
    c.ops.insert(c.ops.begin(), Op("mode").I(r.below(4)).I(r.range(1, 3)));
    c.ops.push_back(Op("B"));
    return c;
}
static void cycle14(const Case& c, int64_t mode) {
    Case d = c;
    d.via = 0;
    if (mode == 0) {            // build, use, destroy
        Filter f(d);
        for (auto& o : c.ops) answer(f.f, o);
    } else if (mode == 1) {     // build, serialise, restore, use both, destroy both
        Filter f(d);
        std::string s = bytesOf(f.f);
        Image im(s);
        Filter g(SuRF::deSerialize(im.p));
        for (auto& o : c.ops) { answer(f.f, o); answer(g.f, o); }
    } else if (mode == 2) {     // chain of restores, each destroying its source
        SuRF* f = build(d);
        for (int k = 0; k < 3; k++) f = roundTrip(f);
        for (auto& o : c.ops) answer(f, o);
        drop(f);
    } else {                    // iterators copied, outliving queries, filter without any query
        Filter g(d);
        Filter f(d);
        std::vector<SIter> v;
        for (auto& o : c.ops) if (o.name == "G") v.push_back(f.f->moveToKeyGreaterThan(o.sat(0), o.iat(0) != 0));
        v.push_back(f.f->moveToFirst());
        for (size_t i = 0; i < v.size(); i++) { v[i] = v[v.size() - 1 - i]; v[i]++; }
    }
}
static Msg check14(const Case& c, Stats& st) {
    int64_t mode = 0, reps = 2;
    for (auto& o : c.ops) if (o.name == "mode") { mode = o.iat(0) & 3; reps = std::max<int64_t>(1, o.iat(1)); }
    cycle14(c, mode);   // first round: lets library and harness caches fill
    for (int64_t k = 0; k < reps; k++) {
        uint64_t b = liveBytes();
        cycle14(c, mode);
        uint64_t a = liveBytes();
        st.add("cycles");
        if (a != b) return num((int64_t)(a - b)) + " bytes are still allocated after the filter was destroyed (use pattern " + num(mode) + ", round " + num(k + 2) + ")";
    }
    return heapError();
}
//------------------------------------------------------------------ C15
static Case gen15(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 14, [](Rng& q, const Case& k) { return genAnyZ(q, k); });
    c.ops.push_back(Op("B"));
    c.ops.push_back(Op("Z"));
    c.ops.push_back(genC(r, c.keys, c));
    c.ops.push_back(genW(r, c.keys, c, 16));
    c.ops.push_back(genR(r, c.keys, c));
    c.ops.insert(c.ops.begin(), Op("threads").I(r.range(2, 5)).I(r.range(1, 3)).I((int64_t)r.below(1 << 30)));
    return c;
}
static Msg check15(const Case& c, Stats& st) {
    int64_t nt = 2, reps = 1, seed = 0;
    std::vector<Op> ops;
    for (auto& o : c.ops) {
        if (o.name == "threads") { nt = std::min<int64_t>(8, std::max<int64_t>(2, o.iat(0))); reps = std::max<int64_t>(1, o.iat(1)); seed = o.iat(2); }
        else ops.push_back(o);
    }
    if (ops.empty()) return "";
    std::vector<std::string> want(ops.size());
    {   // the answers a single thread gets, from a filter of its own
        Filter g(c);
        for (size_t i = 0; i < ops.size(); i++) want[i] = answer(g.f, ops[i]);
    }
    Filter f(c);
    std::atomic<int> ready(0);
    std::atomic<int> failed(0);
    std::vector<std::string> bad((size_t)nt);
    std::vector<std::thread> ts;
    for (int64_t t = 0; t < nt; t++)
        ts.emplace_back([&, t]() {
            Rng r(Rng::mix((uint64_t)seed + (uint64_t)t));
            std::vector<size_t> order;
            for (int64_t k = 0; k < reps; k++) for (size_t i = 0; i < ops.size(); i++) order.push_back(i);
            // the first thread keeps the written order, the others start elsewhere or shuffle
            if (t) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
            ready++;
            while (ready < nt) std::this_thread::yield();
            for (size_t i : order) {
                std::string a = answer(f.f, ops[i]);
                if (a != want[i] && bad[(size_t)t].empty()) {
                    bad[(size_t)t] = ops[i].name + " " + show(ops[i].sat(0)) + " " + show(ops[i].sat(1)) + " answered " + a + " in thread " + num(t) + " of " + num(nt) + ", alone it answers " + want[i];
                    failed++;
                }
            }
        });
    for (auto& t : ts) t.join();
    st.add("threads-run", (uint64_t)nt);
    st.add("answers-compared", (uint64_t)nt * (uint64_t)reps * ops.size());
    for (auto& b : bad) if (!b.empty()) return b;
    return "";
}
//------------------------------------------------------------------ C27
static Case gen27(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 8, [](Rng& q, const Case& k) { return genAnyZ(q, k); });
    if (idx % 25 == 12) {   // filters of a size at which every thread's has rank and select samples
        std::string al = someAlphabet(r);
        if (al.size() < 3) al = "abc";
        size_t n = 100 + r.below(900);
        for (size_t i = 0; i < n; i++) c.keys.push_back(randStr(r, 2 + r.below(12), al));
        finish(c.keys);
        c.family = "many-keys";
    }
    if (r.chance(50)) c.ops.push_back(Op("B"));
    c.ops.push_back(genC(r, c.keys, c));
    c.ops.push_back(genR(r, c.keys, c));
    c.ops.insert(c.ops.begin(), Op("threads").I(r.range(2, 5)).I(r.range(1, 3)).I((int64_t)r.below(1 << 30)));
    return c;
}
// builds a filter, uses it, restores it from its serialised form, uses that, and destroys both
static std::string lifeOf(const Case& d, const std::vector<Op>& ops, int64_t reps) {
    std::string s;
    for (int64_t k = 0; k < reps; k++) {
        Filter f(d);
        for (auto& o : ops) s += answer(f.f, o) + "\n";
        std::string b = bytesOf(f.f);
        Image im(b);
        Filter g(SuRF::deSerialize(im.p));
        for (auto& o : ops) s += answer(g.f, o) + "\n";
        if (bytesOf(g.f) != b) s += "restored filter serialises differently\n";
    }
    // the integer helpers with which keys are made
    for (auto& o : ops) {
        uint64_t x = fnv(o.name + o.sat(0)) + d.keys.size();
        if (surf::stringToUint64(surf::uint64ToString(x)) != x) s += "integer key " + num(x) + " decodes differently\n";
    }
    return s;
}
static Msg check27(const Case& c, Stats& st) {
    int64_t nt = 2, reps = 1, seed = 0;
    std::vector<Op> ops;
    for (auto& o : c.ops) {
        if (o.name == "threads") { nt = std::min<int64_t>(8, std::max<int64_t>(2, o.iat(0))); reps = std::max<int64_t>(1, o.iat(1)); seed = o.iat(2); }
        else ops.push_back(o);
    }
    if (ops.empty() || c.keys.empty()) return "";
    // thread 0 has the case's own filter, the others have parts of the keys and other settings; two may have equal ones
    std::vector<Case> mine((size_t)nt, c);
    for (int64_t t = 1; t < nt; t++) {
        Rng r(Rng::mix((uint64_t)seed + (uint64_t)t));
        Case& d = mine[(size_t)t];
        if (r.chance(25)) continue;
        Keys k;
        uint64_t part = 2 + r.below(4);
        for (auto& s : c.keys) if (fnv(s + num(t)) % part) k.push_back(s);
        if (!k.empty()) d.keys = k;
        if (r.chance(50)) { d.dense = r.chance(70); d.ratio = (int64_t[]){0, 1, 16, 64}[r.below(4)]; d.ctor = 0; }
        if (r.chance(50)) { d.stype = (int)r.below(4); d.hlen = d.stype & 1 ? 1 + (int)r.below(16) : 0; d.rlen = d.stype & 2 ? 1 + (int)r.below(16) : 0; }
    }
    std::vector<std::string> want((size_t)nt), got((size_t)nt);
    auto alone = [&]() { for (int64_t t = 0; t < nt; t++) want[(size_t)t] = lifeOf(mine[(size_t)t], ops, reps); };
    if (seed & 1) alone();
    std::atomic<int> ready(0);
    std::vector<std::thread> ts;
    for (int64_t t = 0; t < nt; t++)
        ts.emplace_back([&, t]() {
            ready++;
            while (ready < nt) std::this_thread::yield();
            got[(size_t)t] = lifeOf(mine[(size_t)t], ops, reps);
        });
    for (auto& t : ts) t.join();
    if (!(seed & 1)) alone();
    st.add("threads-run", (uint64_t)nt);
    st.add("answers-compared", (uint64_t)nt * (uint64_t)reps * ops.size() * 2);
    for (int64_t t = 0; t < nt; t++) if (got[(size_t)t] != want[(size_t)t]) {
        std::istringstream a(got[(size_t)t]), b(want[(size_t)t]);
        std::string x, y;
        size_t line = 0;
        while (std::getline(a, x) && std::getline(b, y) && x == y) line++;
        const Op& o = ops[line % ops.size()];
        return "thread " + num(t) + " of " + num(nt) + " has a filter of its own; " + o.name + " " + show(o.sat(0)) + " " + show(o.sat(1)) + " answered " + x + ", without other threads " + y;
    }
    return "";
}
//------------------------------------------------------------------ C25
static Case gen25(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 0, [](Rng&, const Case&) { return Op(); });
    if (idx % 40 == 3) {   // single long path: most levels, fewest labels
        c.keys.clear();
        c.family = "long-path";
        std::string s = randStr(r, 100 + r.below(3000), someAlphabet(r));
        c.keys.push_back(s + "a");
        c.keys.push_back(s + "b");
        finish(c.keys);
    }
    c.via = 0;
    Op o("ratios");
    static const std::vector<int64_t> pool = {0, 1, 2, 3, 4, 8, 16, 32, 64, 128, 256, 1000, 100000};
    for (int i = 0; i < 4; i++) o.I(r.pick(pool));
    c.ops.push_back(o);
    return c;
}
static Msg check25(const Case& c, Stats& st) {
    Model m(c.keys, c.stype, c.hlen, c.rlen);
    Trie t(m);
    double labels = (double)t.labels(), sbits = (double)m.n() * (c.hlen + c.rlen);
    std::vector<int64_t> ratios;
    for (auto& o : c.ops) if (o.name == "ratios") ratios = o.i;
    ratios.push_back(c.ratio);
    std::sort(ratios.begin(), ratios.end());
    uint64_t prev = (uint64_t)-1;
    for (size_t k = 0; k <= ratios.size(); k++) {
        bool dense = k < ratios.size();
        int64_t ratio = dense ? std::max<int64_t>(0, ratios[k]) : 16;
        drop(buildWith(c, c.keys, dense, ratio, 0));   // warm-up
        std::string at = dense ? " (ratio " + num(ratio) + ")" : " (dense off)";
        uint64_t b0 = liveBytes();
        SuRF* f = buildWith(c, c.keys, dense, ratio, 0);
        uint64_t held = liveBytes() - b0;
        uint64_t rep = f->getMemoryUsage(), ser = f->serializedSize(), cut = f->getSparseStartLevel();
        std::string img = bytesOf(f);
        drop(f);
        Image im(img);
        b0 = liveBytes();
        f = SuRF::deSerialize(im.p);
        uint64_t held2 = liveBytes() - b0, rep2 = f->getMemoryUsage();
        drop(f);
        st.add("filters-measured");
#ifndef PBT_SANITIZED
        const double kF = 1.05, kC = 1024;   // seen: 16 bytes apart, whatever the size
        if ((double)held > rep * kF + kC) return "a filter holds " + num((int64_t)held) + " bytes but reports " + num((int64_t)rep) + at;
        if ((double)held2 > rep2 * kF + kC) return "a restored filter holds " + num((int64_t)held2) + " bytes but reports " + num((int64_t)rep2) + at;
        if ((double)rep > held * kF + kC) return "a filter reports " + num((int64_t)rep) + " bytes but holds only " + num((int64_t)held) + at;
        if ((double)rep2 > held2 * kF + kC) return "a restored filter reports " + num((int64_t)rep2) + " bytes but holds only " + num((int64_t)held2) + at;
#else
        (void)held; (void)held2; (void)rep2;
#endif
        // per label: at most a bitmap node (2 * 256 + 1 bits and rank tables) when dense, a byte, two bits and
        // tables when sparse; per level two cut-off counts; suffix bits once
        double perLabel = 0, perLevel = 16;
        for (size_t d = 0; d < m.height; d++) perLabel += d < cut ? 72.0 * t.nodes[d] : 2.0 * t.lv[d].size();
        double lim = (perLabel + perLevel * m.height + sbits / 8) * 1.1 + 1024;
        st.add("labels", (uint64_t)labels);
        if ((double)rep > lim) return "reported size " + num((int64_t)rep) + " exceeds " + num((int64_t)lim) + " for " + num((int64_t)labels) + " labels and " + num((int64_t)sbits) + " suffix bits" + at;
        if ((double)ser > lim) return "serialised size " + num((int64_t)ser) + " exceeds " + num((int64_t)lim) + " for " + num((int64_t)labels) + " labels and " + num((int64_t)sbits) + " suffix bits" + at;
        if (!dense) { if (cut != 0) return "dense levels present although switched off"; continue; }
        if (cut > prev) return "ratio " + num(ratio) + " gives " + num((int64_t)cut) + " dense levels, a smaller ratio " + num((int64_t)prev);
        prev = cut;
        if (cut > m.height) return "more dense levels than levels" + at;
        if (cut) st.add("filters-with-dense-levels");
        // All dense levels but the lowest are small compared with the rest by the requested ratio.
        double D = 0, S = 0;
        for (size_t d = 0; d < m.height; d++) {
            double sfx = (double)t.leaves[d] * (c.hlen + c.rlen) / 8;
            if (d + 1 < cut) D += 64.0 * t.nodes[d] + sfx;
            else S += 1.25 * t.lv[d].size() + sfx;
        }
        if (D * ratio > 1.5 * S + 64 * (1 + (double)m.height)) return num((int64_t)cut) + " dense levels: all but the lowest take " + num((int64_t)D) + " bytes, the rest " + num((int64_t)S) + " in sparse form, against the requested ratio" + at;
        // ... and the dense part is not cut off long before that
        D = S = 0;
        for (size_t d = 0; d < m.height; d++) {
            double sfx = (double)t.leaves[d] * (c.hlen + c.rlen) / 8;
            if (d < cut) D += 64.0 * t.nodes[d] + sfx;
            else S += 1.25 * t.lv[d].size() + sfx;
        }
        if (cut < m.height && ratio > 0 && D * ratio * 12 + 64 * (1 + (double)m.height) * ratio < S) return "only " + num((int64_t)cut) + " dense levels of " + num((int64_t)D) + " bytes although the rest takes " + num((int64_t)S) + at;
    }
    return "";
}

//------------------------------------------------------------------ C26
static Case gen26(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c;
    genConfig(r, c);
    c.ctor = 0;
    int kind = (int)r.below(8);
    size_t n = idx % 23 == 5 ? 100000 + r.below(th ? 3000000 : 900000) : r.chance(30) ? 1 + r.below(300) : r.chance(60) ? 300 + r.below(5000) : 5000 + r.below(60000);
    c.family = "bulk-" + num(kind);
    c.ops.push_back(Op("set").I(kind).I((int64_t)n).I((int64_t)r.below(1ULL << 40)));
    c.ops.push_back(Op("ask").I(n > 50000 ? 400 : 60).I((int64_t)r.below(1ULL << 40)));
    st.add("family " + c.family);
    return c;
}
static Msg check26(const Case& c, Stats& st) {
    Keys k = {"a"};
    int64_t asks = 50, seed = 1;
    for (auto& o : c.ops) {
        if (o.name == "set") k = bulkKeys((int)o.iat(0), (size_t)std::max<int64_t>(1, o.iat(1)), (uint64_t)o.iat(2));
        if (o.name == "ask") { asks = o.iat(0); seed = o.iat(1); }
    }
    double bytes = 0;
    for (auto& x : k) bytes += (double)x.size();
    std::map<std::string, double> worst;
    Msg bad;
    // Limits: about ten times the most that was seen on any set; a unit is a trie level or 16 query bytes
    // (for building a key byte, for copying an image byte), never a key.
    auto note = [&](const char* what, uint64_t e, double unit, double lim) {
        double q = (double)e / unit;
        if (q > worst[what]) worst[what] = q;
        st.add(std::string("measured ") + what);
        if (q > lim && bad.empty()) bad = std::string(what) + " over " + num((int64_t)k.size()) + " keys of " + num((int64_t)bytes) + " bytes took " + num((int64_t)e) + " steps: more than " + num((int64_t)lim) + " for each of " + num((int64_t)unit) + " units of allowed work";
    };
    uint64_t e0 = edgesSeen;
    SuRF* f = buildWith(c, k, c.dense, c.ratio, 0);
    note("build", edgesSeen - e0, bytes + 20, 300);
    struct D { SuRF*& f; ~D() { drop(f); } } d = {f};
    if (c.via) {
        e0 = edgesSeen; uint64_t n = f->serializedSize(); char* p = f->serialize();
        note("serialise", edgesSeen - e0, (double)n, 30);
        std::string img(p, n);
        delete[] p;
        drop(f);
        Image im(img);
        e0 = edgesSeen; f = SuRF::deSerialize(im.p);
        note("restore", edgesSeen - e0, (double)n, 30);
    }
    double H = (double)f->getHeight() + 1;
    e0 = edgesSeen; f->serializedSize(); f->getMemoryUsage();
    note("size query", edgesSeen - e0, H, 300);
    Rng r((uint64_t)seed);
    for (int64_t i = 0; i < asks && bad.empty(); i++) {
        std::string a = genQuery(r, k, c.rlen), b = genQuery(r, k, c.rlen);
        if (b < a) a.swap(b);
        double la = (double)a.size(), lb = (double)b.size();
        e0 = edgesSeen; f->lookupKey(a);
        note("lookup", edgesSeen - e0, std::min(la, H) + 1 + la / 16, 1500);
        e0 = edgesSeen; f->lookupRange(a, r.chance(50), b, r.chance(50));
        note("range", edgesSeen - e0, H + (la + lb) / 16, 2000);
        e0 = edgesSeen; f->approxCount(a, b);
        note("count", edgesSeen - e0, H + (la + lb) / 16, 3000);
        e0 = edgesSeen; SIter g = f->moveToKeyGreaterThan(a, r.chance(50));
        note("seek forward", edgesSeen - e0, H + la / 16, 2000);
        e0 = edgesSeen; SIter l = f->moveToKeyLessThan(b, r.chance(50));
        note("seek backward", edgesSeen - e0, H + lb / 16, 3000);
        for (int s = 0; s < 3; s++) {
            SIter& it = s == 1 ? l : g;
            if (!it.isValid()) continue;
            unsigned bits;
            e0 = edgesSeen; it.getKey(); it.getKeyWithSuffix(&bits); it.compare(a);
            note("report", edgesSeen - e0, H + la / 16, 300);
            e0 = edgesSeen; if (s == 0) it++; else it--;
            note("step", edgesSeen - e0, H, 1000);
        }
        if (g.isValid() && l.isValid()) {
            e0 = edgesSeen; 
            std::string gk = g.getKey(), lk = l.getKey();
            if (gk <= lk) { e0 = edgesSeen; f->approxCount(&g, &l); note("count between", edgesSeen - e0, H, 1000); }
        }
        if (i % 8 == 0) {
            e0 = edgesSeen; SIter x = f->moveToFirst(); note("first", edgesSeen - e0, H, 600);
            e0 = edgesSeen; SIter y = f->moveToLast(); note("last", edgesSeen - e0, H, 600);
        }
    }
    if (getenv("PBT_WORK")) for (auto& w : worst) fprintf(stderr, "WORK %s kind %s n=%zu H=%d dense=%d/%d st=%d %.1f\n", w.first.c_str(), c.family.c_str(), k.size(), (int)H, c.dense, (int)c.ratio, c.stype, w.second);
    return bad;
}

#ifndef PBT_NO_PARTS
//------------------------------------------------------------------ C17
static std::string genBits(Rng& r, size_t n) {
    std::string s(n, '0');
    int kind = (int)r.below(7);
    if (kind == 0) return s;
    if (kind == 1) { for (auto& c : s) c = '1'; return s; }
    int pc = kind == 2 ? 50 : kind == 3 ? 3 : kind == 4 ? 97 : (int)r.range(1, 99);
    if (kind == 5) { // few ones, at word edges
        for (size_t i = 0; i < n; i++) if ((i % 64 == 0 || i % 64 == 63) && r.chance(30)) s[i] = '1';
        return s;
    }
    if (kind == 6) { size_t p = 0; bool on = r.chance(50); while (p < n) { size_t l = 1 + r.below(150); for (size_t i = 0; i < l && p < n; i++, p++) s[p] = on ? '1' : '0'; on = !on; } return s; }
    for (auto& c : s) if (r.chance(pc)) c = '1';
    return s;
}
static size_t someLen(Rng& r) {
    static const std::vector<size_t> sp = {0, 1, 2, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 511, 512, 513, 575, 576, 577, 1023, 1024, 1025};
    return r.chance(60) ? r.pick(sp) : r.below(r.chance(80) ? 300 : 3000);
}
static Case genBv(Rng& r, uint64_t idx, bool th, Stats& st, bool firstOne) {
    Case c;
    c.family = "bits";
    if (idx % 20011 == 77) {   // millions of bits, described by size, density and seed
        size_t n = 200000 + r.below(th ? 20000000 : 6000000);
        c.family = "many-bits";
        c.ops.push_back(Op("many").I((int64_t)n).I(r.range(10, 98)).I((int64_t)r.below(1ULL << 40)));
        c.ops.push_back(Op("cfg").I(0).I(1).I(firstOne ? 64 : 512).I(r.below(2)));
        st.add("family many-bits");
        return c;
    }
    size_t levels = 1 + r.below(5);
    for (size_t l = 0; l < levels; l++) {
        size_t n = someLen(r);
        if (l == 0 && r.chance(1) && r.chance(40)) n = 70000 + r.below(130000);   // counts beyond 16 bits
        std::string b = genBits(r, n);
        c.ops.push_back(Op("level").S(b));
    }
    int sl = (int)r.below(levels), el = (int)r.range(sl + 1, (int)levels);
    if (r.chance(50)) { sl = 0; el = (int)levels; }
    if (firstOne) {
        if (c.ops[sl].s[0].empty()) c.ops[sl].s[0] = "1";
        c.ops[sl].s[0][0] = '1';
    }
    static const std::vector<int64_t> blocks = {512, 512, 512, 64, 128, 256, 1024};
    static const std::vector<int64_t> ivals = {64, 64, 64, 8, 16, 32, 128};
    c.ops.push_back(Op("cfg").I(sl).I(el).I(firstOne ? r.pick(ivals) : r.pick(blocks)).I(r.below(2)));
    return c;
}
struct BvIn { std::vector<std::vector<surf::word_t> > words; std::vector<surf::position_t> nbits; std::string flat; int sl = 0, el = 0; int64_t p = 512; bool rt = false; bool ok = false; };
static BvIn bvInput(const Case& c) {
    BvIn in;
    std::vector<std::string> lv;
    for (auto& o : c.ops) {
        if (o.name == "level") lv.push_back(o.sat(0));
        if (o.name == "many") {
            Rng r((uint64_t)o.iat(2));
            std::string b((size_t)std::min<int64_t>(o.iat(0), 30000000), '0');
            int pc = (int)std::max<int64_t>(o.iat(1), 5);
            for (auto& x : b) if (r.chance(pc)) x = '1';
            if (!b.empty()) b[0] = '1';
            lv.push_back(b);
        }
        if (o.name == "cfg") { in.sl = (int)o.iat(0); in.el = (int)o.iat(1); in.p = o.iat(2, 512); in.rt = o.iat(3) != 0; }
    }
    if (lv.empty()) return in;
    if (in.sl >= (int)lv.size()) in.sl = (int)lv.size() - 1;
    if (in.el > (int)lv.size()) in.el = (int)lv.size();
    if (in.el <= in.sl) in.el = in.sl + 1;
    if (in.p < 8) in.p = 64;
    for (size_t l = 0; l < lv.size(); l++) {
        std::vector<surf::word_t> w((lv[l].size() + 63) / 64, 0);
        for (size_t i = 0; i < lv[l].size(); i++) if (lv[l][i] == '1') w[i / 64] |= (1ULL << (63 - i % 64));
        if ((int)l >= in.sl && (int)l < in.el) in.flat += lv[l];
        // the builder's level vectors may carry spare zero words at the end
        w.push_back(0);
        in.words.push_back(w);
        in.nbits.push_back((surf::position_t)lv[l].size());
    }
    in.ok = true;
    return in;
}
static Msg check17(const Case& c, Stats& st) {
    BvIn in = bvInput(c);
    if (!in.ok) return "";
    in.p = in.p < 64 ? 512 : in.p / 64 * 64;   // block sizes are whole words
    surf::BitvectorRank* b = new surf::BitvectorRank((surf::position_t)in.p, in.words, in.nbits, (surf::level_t)in.sl, (surf::level_t)in.el);
    if (in.rt) {
        size_t sz = b->serializedSize();
        std::string s(sz + 8, '\0');
        { std::vector<uint64_t> buf(sz / 8 + 1); char* p = (char*)buf.data(); char* q = p; b->serialize(q);
          if ((size_t)(q - p) != sz) return "bit vector serialised " + num(q - p) + " bytes, advertised " + num((int64_t)sz);
          b->destroy(); delete b;
          char* z = p; b = surf::BitvectorRank::deSerialize(z);
          if ((size_t)(z - p) != sz) return "bit vector deserialisation consumed " + num(z - p) + " bytes of " + num((int64_t)sz); }
        st.add("round-trips");
    }
    const std::string& f = in.flat;
    Msg e;
    size_t n = f.size();
    if (b->numBits() != n) e = "bit vector has " + num(b->numBits()) + " bits, expected " + num((int64_t)n);
    std::vector<size_t> next(n + 1, n), prev(n + 2, (size_t)-1);
    for (size_t i = n; i-- > 0;) next[i] = (i + 1 < n && f[i + 1] == '1') ? i + 1 : (i + 1 < n ? next[i + 1] : n);
    size_t cnt = 0, last = (size_t)-1;
    st.add("positions", n);
    for (size_t i = 0; i < n && e.empty(); i++) {
        if (f[i] == '1') cnt++;
        bool bit = b->readBit((surf::position_t)i);
        if (bit != (f[i] == '1')) { e = "bit " + num((int64_t)i) + " reads " + num(bit); break; }
        size_t rk = b->rank((surf::position_t)i);
        if (rk != cnt) { e = "rank(" + num((int64_t)i) + ") is " + num((int64_t)rk) + ", expected " + num((int64_t)cnt); break; }
        size_t dn = b->distanceToNextSetBit((surf::position_t)i);
        if (dn != next[i] - i) { e = "distance to next set bit from " + num((int64_t)i) + " is " + num((int64_t)dn) + ", expected " + num((int64_t)(next[i] - i)); break; }
        size_t dp = b->distanceToPrevSetBit((surf::position_t)i);
        size_t wp = i == 0 ? 0 : last == (size_t)-1 ? i + 1 : i - last;
        if (dp != wp) { e = "distance to previous set bit from " + num((int64_t)i) + " is " + num((int64_t)dp) + ", expected " + num((int64_t)wp); break; }
        if (f[i] == '1') last = i;
    }
    if (e.empty() && n > 0) {   // one position past the end looks back at the whole vector
        size_t dp = b->distanceToPrevSetBit((surf::position_t)n), wp = last == (size_t)-1 ? n + 1 : n - last;
        if (dp != wp) e = "distance to previous set bit from the end is " + num((int64_t)dp) + ", expected " + num((int64_t)wp);
    }
    b->destroy();
    delete b;
    return e;
}
//------------------------------------------------------------------ C18
static Msg check18(const Case& c, Stats& st) {
    BvIn in = bvInput(c);
    if (!in.ok || in.flat.empty() || in.flat[0] != '1') return "";
    surf::BitvectorSelect* b = new surf::BitvectorSelect((surf::position_t)in.p, in.words, in.nbits, (surf::level_t)in.sl, (surf::level_t)in.el);
    if (in.rt) {
        size_t sz = b->serializedSize();
        std::vector<uint64_t> buf(sz / 8 + 1);
        char* p = (char*)buf.data(); char* q = p; b->serialize(q);
        if ((size_t)(q - p) != sz) return "select vector serialised " + num(q - p) + " bytes, advertised " + num((int64_t)sz);
        b->destroy(); delete b;
        char* z = p; b = surf::BitvectorSelect::deSerialize(z);
        if ((size_t)(z - p) != sz) return "select vector deserialisation consumed " + num(z - p) + " bytes of " + num((int64_t)sz);
        st.add("round-trips");
    }
    surf::BitvectorRank* rk = new surf::BitvectorRank(512, in.words, in.nbits, (surf::level_t)in.sl, (surf::level_t)in.el);
    Msg e;
    size_t ones = 0;
    for (char x : in.flat) if (x == '1') ones++;
    if (b->numOnes() != ones) e = "number of ones is " + num(b->numOnes()) + ", expected " + num((int64_t)ones);
    size_t r = 0;
    for (size_t i = 0; i < in.flat.size() && e.empty(); i++) {
        if (b->readBit((surf::position_t)i) != (in.flat[i] == '1')) e = "bit " + num((int64_t)i) + " reads wrong";
        if (in.flat[i] != '1') continue;
        r++;
        size_t p = b->select((surf::position_t)r);
        st.add("selects");
        if (p != i) e = "select(" + num((int64_t)r) + ") is " + num((int64_t)p) + ", expected " + num((int64_t)i);
        else if (rk->rank((surf::position_t)p) != r) e = "rank(select(" + num((int64_t)r) + ")) is " + num(rk->rank((surf::position_t)p));
    }
    b->destroy(); delete b;
    rk->destroy(); delete rk;
    return e;
}
//------------------------------------------------------------------ C19
static Case gen19(Rng& r, uint64_t, bool, Stats& st) {
    Case c;
    c.family = "labels";
    static const std::vector<int> sizes = {1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 27, 28, 29, 30, 31, 32, 33, 34, 47, 48, 49, 64, 65, 100, 128, 200, 254, 255, 256};
    size_t nodes = 1 + r.below(6), perLevel = 1 + r.below(3);
    for (size_t k = 0; k < nodes; k++) {
        int sz = r.chance(60) ? r.pick(sizes) : (int)r.range(1, 20);
        std::vector<int> all(256);
        for (int i = 0; i < 256; i++) all[i] = i;
        for (int i = 0; i < sz; i++) std::swap(all[i], all[i + r.below(256 - i)]);
        std::string s;
        for (int i = 0; i < sz; i++) s.push_back((char)all[i]);
        if (r.chance(25)) { int st0 = (int)r.below(257 - sz); s.clear(); for (int i = 0; i < sz; i++) s.push_back((char)(st0 + i)); }
        std::sort(s.begin(), s.end(), [](char a, char b) { return (unsigned char)a < (unsigned char)b; });
        c.ops.push_back(Op("node").I(r.chance(35)).I((int64_t)(k / perLevel)).S(s));
    }
    c.ops.push_back(Op("cfg").I(r.below(2)));
    st.add("nodes", nodes);
    return c;
}
static Msg check19(const Case& c, Stats& st) {
    struct Node { size_t pos, len; bool mark; std::string lab; };
    std::vector<std::vector<surf::label_t> > lv;
    std::vector<Node> nd;
    bool rt = false;
    size_t pos = 0;
    for (auto& o : c.ops) {
        if (o.name == "cfg") { rt = o.iat(0) != 0; continue; }
        std::string s = o.sat(0);
        std::sort(s.begin(), s.end(), [](char a, char b) { return (unsigned char)a < (unsigned char)b; });
        s.erase(std::unique(s.begin(), s.end()), s.end());
        if (s.empty()) continue;
        if (nd.empty() || (size_t)o.iat(1) >= lv.size()) lv.push_back(std::vector<surf::label_t>());
        Node n;
        n.mark = o.iat(0) != 0;
        n.pos = pos; n.len = s.size() + (n.mark ? 1 : 0); n.lab = s;
        if (n.mark) lv.back().push_back(surf::kTerminator);
        for (char x : s) lv.back().push_back((surf::label_t)x);
        pos += n.len;
        nd.push_back(n);
    }
    if (nd.empty()) return "";
    surf::LabelVector* v = new surf::LabelVector(lv);
    if (rt) {
        size_t sz = v->serializedSize();
        std::vector<uint64_t> buf(sz / 8 + 1);
        char* p = (char*)buf.data(); char* q = p; v->serialize(q);
        v->destroy(); delete v;
        char* z = p; v = surf::LabelVector::deSerialize(z);
        if (q - p != z - p || (size_t)(q - p) != sz) return "label vector serialised " + num(q - p) + " bytes, consumed " + num(z - p) + ", advertised " + num((int64_t)sz);
        st.add("round-trips");
    }
    Msg e;
    for (auto& n : nd) {
        size_t off = n.pos + (n.mark ? 1 : 0);
        for (size_t i = 0; i < n.len && e.empty(); i++) {
            unsigned want = (n.mark && i == 0) ? 255 : (unsigned char)n.lab[i - (n.mark ? 1 : 0)];
            if (v->read((surf::position_t)(n.pos + i)) != want) e = "label at " + num((int64_t)(n.pos + i)) + " reads " + num(v->read((surf::position_t)(n.pos + i))) + ", expected " + num(want);
        }
        for (int t = 0; t < 256 && e.empty(); t++) {
            size_t at = n.lab.find((char)t), gt = n.lab.size();
            for (size_t i = 0; i < n.lab.size(); i++) if ((unsigned char)n.lab[i] > t) { gt = i; break; }
            auto one = [&](const char* nm, bool found, surf::position_t p, size_t idx, bool has) {
                st.add("searches");
                if (found != has) e = std::string(nm) + " for byte " + num(t) + " in node of " + num((int64_t)n.len) + " labels answered " + num(found);
                else if (has && p != off + idx) e = std::string(nm) + " for byte " + num(t) + " reported position " + num(p) + ", expected " + num((int64_t)(off + idx));
            };
            surf::position_t p = (surf::position_t)n.pos;
            bool r = v->search((surf::label_t)t, p, (surf::position_t)n.len);
            one("search", r, p, at, at != std::string::npos);
            p = (surf::position_t)n.pos;
            r = v->searchGreaterThan((surf::label_t)t, p, (surf::position_t)n.len);
            one("greater-than search", r, p, gt, gt < n.lab.size());
            if (!n.mark) {
                p = (surf::position_t)n.pos; r = v->linearSearch((surf::label_t)t, p, (surf::position_t)n.len); one("linear search", r, p, at, at != std::string::npos);
                p = (surf::position_t)n.pos; r = v->binarySearch((surf::label_t)t, p, (surf::position_t)n.len); one("binary search", r, p, at, at != std::string::npos);
                p = (surf::position_t)n.pos; r = v->simdSearch((surf::label_t)t, p, (surf::position_t)n.len); one("SIMD search", r, p, at, at != std::string::npos);
                p = (surf::position_t)n.pos; r = v->linearSearchGreaterThan((surf::label_t)t, p, (surf::position_t)n.len); one("linear greater-than search", r, p, gt, gt < n.lab.size());
                p = (surf::position_t)n.pos; r = v->binarySearchGreaterThan((surf::label_t)t, p, (surf::position_t)n.len); one("binary greater-than search", r, p, gt, gt < n.lab.size());
            }
        }
    }
    v->destroy();
    delete v;
    return e;
}
//------------------------------------------------------------------ C20, C22: through the builder
static Case gen20(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 30, [](Rng& q, const Case& k) { return genL(q, k.keys, k); });
    if (c.stype == 0 && r.chance(85)) { c.stype = 2; c.hlen = 0; c.rlen = someSuffixLen(r, 64); }
    c.ops.push_back(Op("part").I(r.chance(60) ? 0 : r.below(6)).I(r.chance(60) ? 0 : r.below(6)).I(r.below(2)));
    return c;
}
static uint64_t maskOf(int n) { return n >= 64 ? ~0ULL : ((1ULL << n) - 1); }
static uint64_t wantSuffix(const Case& c, const Model& m, int i) {
    uint64_t h = (c.stype == 1 || c.stype == 3) ? (surf::BitvectorSuffix::constructHashSuffix(m.k[i], (surf::level_t)c.hlen) & maskOf(c.hlen)) : 0;
    if (c.stype == 1) return h;
    if (c.stype == 2) return m.rv[i];
    if (c.stype == 3) return (c.rlen >= 64 ? 0 : h << c.rlen) | m.rv[i];
    return 0;
}
static Msg check20(const Case& c, Stats& st) {
    if (c.stype == 0) return "";
    Model m(c.keys, c.stype, c.hlen, c.rlen);
    surf::SuRFBuilder b(c.dense != 0, (uint32_t)c.ratio, stypeOf(c), (surf::level_t)c.hlen, (surf::level_t)c.rlen);
    b.build(c.keys);
    size_t height = b.getLabels().size();
    size_t sl = 0, el = height;
    bool rt = false;
    for (auto& o : c.ops) if (o.name == "part") { sl = (size_t)o.iat(0) % height; el = height - std::min<size_t>((size_t)o.iat(1), height - 1); rt = o.iat(2) != 0; }
    if (el <= sl) el = sl + 1;
    int len = c.hlen + c.rlen;
    std::vector<surf::position_t> nb;
    for (size_t l = 0; l < height; l++) nb.push_back(b.getSuffixCounts()[l] * (surf::position_t)len);
    surf::BitvectorSuffix* v = new surf::BitvectorSuffix(stypeOf(c), (surf::level_t)c.hlen, (surf::level_t)c.rlen, b.getSuffixes(), nb, (surf::level_t)sl, (surf::level_t)el);
    if (rt) {
        size_t sz = v->serializedSize();
        std::vector<uint64_t> buf(sz / 8 + 1);
        char* p = (char*)buf.data(); char* q = p; v->serialize(q);
        v->destroy(); delete v;
        char* z = p; v = surf::BitvectorSuffix::deSerialize(z);
        if (q - p != z - p || (size_t)(q - p) != sz) return "suffix vector serialised " + num(q - p) + " bytes, consumed " + num(z - p) + ", advertised " + num((int64_t)sz);
        st.add("round-trips");
    }
    // leaves in level order
    std::vector<std::pair<size_t, int> > leaves;
    for (int i = 0; i < m.n(); i++) {
        size_t lev = m.t[i].size() + (m.exact[i] ? 1 : 0);
        if (lev >= sl + 1 && lev <= el) leaves.push_back(std::make_pair(lev, i));
    }
    std::sort(leaves.begin(), leaves.end());
    Msg e;
    if ((int)v->getSuffixLen() != len || v->getType() != stypeOf(c)) e = "suffix vector reports wrong kind or length";
    for (size_t x = 0; x < leaves.size() && e.empty(); x++) {
        int i = leaves[x].second;
        surf::level_t lev = (surf::level_t)leaves[x].first;
        surf::position_t ix = (surf::position_t)x;
        uint64_t want = wantSuffix(c, m, i);
        st.add("suffixes-read");
        if (v->read(ix) != want) { e = "suffix " + num((int64_t)x) + " reads " + num((int64_t)v->read(ix)) + ", key " + show(m.k[i]) + " has " + num((int64_t)want); break; }
        if (c.stype >= 2 && v->readReal(ix) != m.rv[i]) { e = "real suffix " + num((int64_t)x) + " reads " + num((int64_t)v->readReal(ix)) + ", key " + show(m.k[i]) + " has " + num((int64_t)m.rv[i]); break; }
        if (!v->checkEquality(ix, m.k[i], lev)) { e = "suffix " + num((int64_t)x) + " is not equal to its own key " + show(m.k[i]); break; }
        int r = v->compare(ix, m.k[i], lev);
        if (r != surf::kCouldBePositive && r != 0) { e = "suffix " + num((int64_t)x) + " compares " + num(r) + " with its own key " + show(m.k[i]); break; }
        for (auto& o : c.ops) {
            if (o.name != "L") continue;
            const std::string& q = o.sat(0);
            // only queries that reach this leaf are legal arguments
            if (m.exact[i] ? q != m.k[i] : !Model::isPrefix(m.t[i], q)) continue;
            bool eq = v->checkEquality(ix, q, lev);
            uint64_t qb = 0;
            bool have = c.stype >= 2 && Model::bits(q, lev, c.rlen, qb);
            if (m.known(i) && (!have || qb != m.rv[i]) && eq) { e = "suffix of " + show(m.k[i]) + " equals that of " + show(q) + " although the real bits differ"; break; }
            if (c.stype == 1) {
                bool same = surf::BitvectorSuffix::constructHashSuffix(q, (surf::level_t)c.hlen) == surf::BitvectorSuffix::constructHashSuffix(m.k[i], (surf::level_t)c.hlen);
                if (same != eq) { e = "hash suffix equality with " + show(q) + " is " + num(eq); break; }
            }
            if (m.find(q) < 0 && !eq) st.add("equality-rejections");
            int cr = v->compare(ix, q, lev);
            int ord = m.k[i].compare(q);
            st.add("suffix-comparisons");
            if (cr != surf::kCouldBePositive && ((cr < 0 && ord >= 0) || (cr > 0 && ord <= 0) || (cr == 0 && ord != 0))) {
                e = "suffix of " + show(m.k[i]) + " compares " + num(cr) + " with " + show(q); break;
            }
        }
    }
    v->destroy();
    delete v;
    return e;
}
static Case gen22(Rng& r, uint64_t idx, bool th, Stats& st) {
    Case c = caseOf(r, idx, th, st, 0, [](Rng&, const Case&) { return Op(); }, true);
    return c;
}
static bool bitAt(const std::vector<surf::word_t>& w, size_t i) { return i / 64 < w.size() && ((w[i / 64] >> (63 - i % 64)) & 1); }
static Msg check22(const Case& c, Stats& st) {
    if (isBulk(c)) return check22(expanded(c), st);
    if (c.keys.empty()) return "";
    Model m(c.keys, c.stype, c.hlen, c.rlen);
    surf::SuRFBuilder b(c.dense != 0, (uint32_t)c.ratio, stypeOf(c), (surf::level_t)c.hlen, (surf::level_t)c.rlen);
    b.build(c.keys);
    Trie t(m);
    std::vector<std::vector<Trie::Item> >& lv = t.lv;
    std::vector<size_t>&nodes = t.nodes, &leaves = t.leaves;
    std::vector<std::vector<int> >& leafKeys = t.leafKeys;
    if (b.getTreeHeight() != m.height) return "encoding has " + num(b.getTreeHeight()) + " levels, expected " + num((int64_t)m.height);
    if (b.getNodeCounts().size() < m.height || b.getSuffixCounts().size() < m.height) return "bookkeeping vectors are shorter than the height";
    int len = c.stype ? c.hlen + c.rlen : 0;
    for (size_t d = 0; d < m.height; d++) {
        std::string at = " at level " + num((int64_t)d);
        if (b.getLabels()[d].size() != lv[d].size()) return num((int64_t)b.getLabels()[d].size()) + " labels" + at + ", expected " + num((int64_t)lv[d].size());
        if (b.getNodeCounts()[d] != nodes[d]) return num(b.getNodeCounts()[d]) + " nodes" + at + ", expected " + num((int64_t)nodes[d]);
        if (b.getSuffixCounts()[d] != leaves[d]) return num(b.getSuffixCounts()[d]) + " suffixes" + at + ", expected " + num((int64_t)leaves[d]);
        for (size_t i = 0; i < lv[d].size(); i++) {
            st.add("labels");
            int want = lv[d][i].label == 256 ? surf::kTerminator : lv[d][i].label;
            if (b.getLabels()[d][i] != want) return "label " + num((int64_t)i) + at + " is " + num(b.getLabels()[d][i]) + ", expected " + num(want);
            if (bitAt(b.getChildIndicatorBits()[d], i) != lv[d][i].child) return "child indicator " + num((int64_t)i) + at + " is wrong";
            if (bitAt(b.getLoudsBits()[d], i) != lv[d][i].start) return "node border bit " + num((int64_t)i) + at + " is wrong";
        }
        for (size_t i = 0; len && i < leafKeys[d].size(); i++) {
            uint64_t v = 0;
            for (int k = 0; k < len; k++) v = (v << 1) | (uint64_t)bitAt(b.getSuffixes()[d], i * len + k);
            uint64_t want = wantSuffix(c, m, leafKeys[d][i]);
            st.add("suffixes");
            if (v != want) return "suffix " + num((int64_t)i) + at + " is " + num((int64_t)v) + ", key " + show(m.k[leafKeys[d][i]]) + " has " + num((int64_t)want);
        }
    }
    size_t cut = b.getSparseStartLevel();
    if (cut > m.height) return "split level exceeds the height";
    if (!c.dense && cut != 0) return "dense levels although switched off";
    if (c.dense && (b.getBitmapLabels().size() < cut || b.getBitmapChildIndicatorBits().size() < cut || b.getPrefixkeyIndicatorBits().size() < cut)) return "dense vectors missing";
    for (size_t d = 0; d < cut; d++) {
        std::string at = " in the bitmap form of level " + num((int64_t)d);
        std::vector<char> lab(nodes[d] * 256, 0), chi(nodes[d] * 256, 0), pre(nodes[d], 0);
        size_t node = (size_t)-1;
        for (auto& it : lv[d]) {
            if (it.start) node++;
            if (it.label == 256) { pre[node] = 1; st.add("prefix-key-nodes-dense"); }
            else { lab[node * 256 + it.label] = 1; chi[node * 256 + it.label] = it.child; }
        }
        if (b.getBitmapLabels()[d].size() * 64 != lab.size()) return "wrong size" + at;
        for (size_t i = 0; i < lab.size(); i++) {
            if (bitAt(b.getBitmapLabels()[d], i) != (bool)lab[i]) return "label bit " + num((int64_t)i) + " is wrong" + at;
            if (bitAt(b.getBitmapChildIndicatorBits()[d], i) != (bool)chi[i]) return "child bit " + num((int64_t)i) + " is wrong" + at;
        }
        for (size_t i = 0; i < nodes[d]; i++)
            if (bitAt(b.getPrefixkeyIndicatorBits()[d], i) != (bool)pre[i]) return "prefix-key bit " + num((int64_t)i) + " is wrong" + at;
        st.add("dense-levels");
    }
    return "";
}
#endif // PBT_NO_PARTS
//------------------------------------------------------------------ C21
static Case gen21(Rng& r, uint64_t, bool, Stats&) {
    Case c;
    c.family = "integers";
    auto some = [&](void) -> uint64_t {
        switch (r.below(6)) {
        case 0: return r.next();
        case 1: { uint64_t v = 1ULL << r.below(64); return v + (uint64_t)r.range(-2, 2); }
        case 2: return (uint64_t)r.range(-5, 5);
        case 3: return r.next() >> r.below(64);
        case 4: return (uint64_t)r.below(256) << (8 * r.below(8));
        default: return r.next() & 0xff00ff00ff00ffffULL;
        }
    };
    Op v("ints"), q("pairs");
    size_t n = 1 + r.below(40);
    for (size_t i = 0; i < n; i++) v.I((int64_t)some());
    for (size_t i = 0; i < 30; i++) {
        uint64_t a = r.chance(50) ? (uint64_t)v.i[r.below(n)] + (uint64_t)r.range(-3, 3) : some(), b = r.chance(50) ? a + r.below(300) : some();
        q.I((int64_t)std::min(a, b)).I((int64_t)std::max(a, b));
    }
    c.ops.push_back(v);
    c.ops.push_back(q);
    genConfig(r, c);
    return c;
}
static Msg check21(const Case& c, Stats& st) {
    std::vector<uint64_t> v;
    for (auto& o : c.ops) if (o.name == "ints") for (auto x : o.i) v.push_back((uint64_t)x);
    if (v.empty()) return "";
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    Keys keys;
    for (auto x : v) {
        std::string s = surf::uint64ToString(x);
        st.add("integers");
        if (s.size() != 8) return "encoding of " + num((int64_t)x) + " has " + num((int64_t)s.size()) + " bytes";
        if (surf::stringToUint64(s) != x) return "integer " + num((int64_t)x) + " decodes to " + num((int64_t)surf::stringToUint64(s));
        if (!keys.empty() && !(keys.back() < s)) return "encodings of " + num((int64_t)v[keys.size() - 1]) + " and " + num((int64_t)x) + " are out of order";
        keys.push_back(s);
        uint64_t a = x % 100000;
        surf::position_t p32 = (surf::position_t)a;
        uint64_t p64 = a;
        surf::sizeAlign(p32);
        surf::sizeAlign(p64);
        char* base = (char*)nullptr + 4096;
        char* pt = base + a;
        surf::align(pt);
        uint64_t up = (a + 7) / 8 * 8;
        if (p32 != up || p64 != up || (uint64_t)(pt - base) != up) return "aligning " + num((int64_t)a) + " gives " + num(p32) + ", " + num((int64_t)p64) + ", " + num(pt - base);
    }
    // any 8-byte string decodes and re-encodes to itself
    Filter f(buildWith(c, keys, c.dense, c.ratio, c.ctor));
    for (auto& s : keys) if (surf::uint64ToString(surf::stringToUint64(s)) != s) return "re-encoding changed " + show(s);
    for (auto& o : c.ops) {
        if (o.name != "pairs") continue;
        for (size_t i = 0; i + 1 < o.i.size(); i += 2) {
            uint64_t a = (uint64_t)o.i[i], b = (uint64_t)o.i[i + 1];
            if (b < a) std::swap(a, b);
            std::string sa = surf::uint64ToString(a), sb = surf::uint64ToString(b);
            st.add("integer-pairs");
            if ((a < b) != (sa < sb) || (a == b) != (sa == sb)) return "order of " + num((int64_t)a) + " and " + num((int64_t)b) + " is not preserved";
            auto lo = std::lower_bound(v.begin(), v.end(), a);
            bool inside = lo != v.end() && *lo <= b;
            if (inside && !f.f->lookupRange(sa, true, sb, true)) return "integer range " + num((int64_t)a) + ".." + num((int64_t)b) + " is false but holds " + num((int64_t)*lo);
            bool stored = std::binary_search(v.begin(), v.end(), a);
            if (stored && !f.f->lookupKey(sa)) return "stored integer " + num((int64_t)a) + " is missed";
            SIter it = f.f->moveToKeyGreaterThan(sa, true);
            if (lo == v.end() ? (it.isValid() && !it.getFpFlag()) : !it.isValid()) return "seek to integer " + num((int64_t)a) + " is " + (it.isValid() ? "valid" : "invalid");
            int64_t truth = std::upper_bound(v.begin(), v.end(), b) - lo;
            int64_t cnt = (int64_t)f.f->approxCount(sa, sb);
            if (cnt > truth || cnt < truth - 2) return "count of integers in " + num((int64_t)a) + ".." + num((int64_t)b) + " is " + num(cnt) + ", true number " + num(truth);
        }
    }
    return "";
}

//------------------------------------------------------------------ registry
static void reg(const char* id, std::function<Case(Rng&, uint64_t, bool, Stats&)> g, std::function<Msg(const Case&, Stats&)> k,
                std::function<bool(const Case&)> nt, const char* rule, uint64_t q, uint64_t t) {
    Prop p;
    p.id = id; p.gen = g; p.check = k; p.nontrivial = nt; p.rule = rule; p.quick_cases = q; p.thorough_cases = t;
    registry()[id] = p;
}
// -DPBT_ONLY=<n> leaves out all other properties (shorter compile)
#ifdef PBT_ONLY
#define PBT_WANT(n) (PBT_ONLY == (n))
#else
#define PBT_WANT(n) 1
#endif
void registerProps() {
    const char* r2 = "case = key list from 12 structured families (plus every subset of size <= 3 of the 39 strings over {00,'a',ff} up to length 3 and every subset of the 12 of them up to length 2) x configuration x operations aimed at the keys; non-trivial = at least two distinct keys and at least one operation; distinct = different case text";
    if (PBT_WANT(1)) reg("C01", gen01, check01, nt2, r2, 240000, 6000000);
    if (PBT_WANT(2)) reg("C02", gen02, check02, nt2, r2, 100000, 2500000);
    if (PBT_WANT(3)) reg("C03", gen03, check03, nt2, r2, 150000, 3500000);
    if (PBT_WANT(4)) reg("C04", gen04, check04, nt2, r2, 100000, 2500000);
    if (PBT_WANT(5)) reg("C05", gen05, check05, nt2, r2, 120000, 3000000);
    if (PBT_WANT(6)) reg("C06", gen06, check06, nt2, r2, 100000, 2500000);
    if (PBT_WANT(7)) reg("C07", gen07, check07, nt2, r2, 60000, 1500000);
    if (PBT_WANT(8)) reg("C08", gen08, check08, nt2, r2, 60000, 1500000);
    if (PBT_WANT(9)) reg("C09", gen09, check09, nt2, r2, 80000, 2000000);
    if (PBT_WANT(10)) reg("C10", gen10, check10, nt2, r2, 40000, 1000000);
    if (PBT_WANT(11)) reg("C11", gen11, check11, nt2, r2, 25000, 600000);
    if (PBT_WANT(12)) reg("C12", gen12, check12, [](const Case& c) { return distinctKeys(c) >= 2; }, "case = key list x configuration x duplication plan; non-trivial = at least two distinct keys", 60000, 1500000);
    if (PBT_WANT(13)) reg("C13", gen13, check13, nt2, r2, 30000, 800000);
    if (PBT_WANT(16)) reg("C16", gen16, check16, [](const Case& c) { return distinctKeys(c) >= 2 && c.ops.size() >= 2; }, "case = key list x configuration x history of seeks, steps, iterator copies and queries over two live filters; non-trivial = at least two distinct keys and two operations", 15000, 400000);
    if (PBT_WANT(14)) reg("C14", gen14, check14, nt2, "case = key list x configuration x operations x one of four life cycles (build/use/destroy, serialise and restore, restore chain, copied iterators); live heap bytes before and after each cycle are compared; non-trivial = at least two distinct keys and one operation", 60000, 1500000);
    if (PBT_WANT(15)) reg("C15", gen15, check15, nt2, "case = key list x configuration x operation program run by 2..5 threads in different orders on one filter; every answer is compared with a single thread's; non-trivial = at least two distinct keys and one operation", 6000, 150000);
    if (PBT_WANT(27)) reg("C27", gen27, check27, nt2, "case = key list x configuration x operation program; 2..5 threads each build, use, serialise, restore and destroy filters of their own over parts of the keys and varying settings, all at once; every answer is compared with a run without other threads; non-trivial = at least two distinct keys and one operation", 6000, 150000);
    if (PBT_WANT(25)) reg("C25", gen25, check25, [](const Case& c) { return distinctKeys(c) >= 2; }, "case = key list x suffix setting x six size ratios and dense off; held heap, reported and serialised size are measured for each; non-trivial = at least two distinct keys", 30000, 700000);
    if (PBT_WANT(26)) reg("C26", gen26, check26, [](const Case& c) { return c.ops.size() && c.ops[0].iat(1) >= 2; }, "case = bulk key set (kind, size up to a million, seed) x configuration x queries; every query's executed branch edges are counted; non-trivial = at least two keys", 4000, 100000);
#ifndef PBT_NO_PARTS
    auto bv = [](const Case& c) { size_t n = 0, one = 0; for (auto& o : c.ops) if (o.name == "many") return true; else if (o.name == "level") { n += o.sat(0).size(); one += std::count(o.sat(0).begin(), o.sat(0).end(), '1'); } return n >= 2 && one > 0 && one < n; };
    if (PBT_WANT(17)) reg("C17", [](Rng& r, uint64_t i, bool t, Stats& s) { return genBv(r, i, t, s, false); }, check17, bv, "case = up to 5 per-level bit patterns (uniform, sparse, dense, runs, word edges) of lengths around word/block borders x level range x block size; every position is checked; non-trivial = both bit values present", 60000, 1500000);
    if (PBT_WANT(18)) reg("C18", [](Rng& r, uint64_t i, bool t, Stats& s) { return genBv(r, i, t, s, true); }, check18, bv, "as C17 with the first bit one; every rank is checked; non-trivial = both bit values present", 60000, 1500000);
    if (PBT_WANT(19)) reg("C19", gen19, check19, [](const Case& c) { for (auto& o : c.ops) if (o.name == "node" && o.sat(0).size() >= 2) return true; return false; }, "case = up to 6 adjacent nodes of 1..256 sorted labels with or without marker; all 256 bytes are searched in each; non-trivial = some node has two labels", 10000, 250000);
    if (PBT_WANT(20)) reg("C20", gen20, check20, [](const Case& c) { return distinctKeys(c) >= 2 && c.stype != 0; }, "case = key list x suffix kind/lengths x level range; all suffixes are read and compared with all queries that reach them; non-trivial = at least two distinct keys and a suffix kind", 80000, 2000000);
    if (PBT_WANT(22)) reg("C22", gen22, check22, [](const Case& c) { return isBulk(c) || distinctKeys(c) >= 2; }, "case = key list x configuration; the whole encoding is decoded and compared; non-trivial = at least two distinct keys", 60000, 1500000);
#endif
    if (PBT_WANT(21)) reg("C21", gen21, check21, [](const Case& c) { for (auto& o : c.ops) if (o.name == "ints") return o.i.size() >= 2; return false; }, "case = integers around byte borders, and pairs; non-trivial = at least two integers", 60000, 1500000);
}
