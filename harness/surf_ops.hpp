// Building a filter from a Case and running operations on it, (a) with the
// model as oracle, (b) as a plain transcript for metamorphic comparisons.
#ifndef PBT_SURF_OPS_HPP
#define PBT_SURF_OPS_HPP
#include "core.hpp"
#include "gen.hpp"
#include "model.hpp"
#include "surf.hpp"

namespace pbt {

typedef surf::SuRF SuRF;
typedef surf::SuRF::Iter SIter;

inline surf::SuffixType stypeOf(const Case& c) { return (surf::SuffixType)c.stype; }

inline SuRF* buildWith(const Case& c, const Keys& keys, int dense, int64_t ratio, int ctor) {
    bool dflt = dense == 1 && ratio == (int64_t)surf::kSparseDenseRatio;
    if (ctor == 1) {
        SuRF* f = new SuRF();
        f->create(keys, dense != 0, (uint32_t)ratio, stypeOf(c), (surf::level_t)c.hlen, (surf::level_t)c.rlen);
        return f;
    }
    if (ctor == 2 && dflt) {
        if (c.stype == 0) return new SuRF(keys);
        return new SuRF(keys, stypeOf(c), (surf::level_t)c.hlen, (surf::level_t)c.rlen);
    }
    return new SuRF(keys, dense != 0, (uint32_t)ratio, stypeOf(c), (surf::level_t)c.hlen, (surf::level_t)c.rlen);
}
inline void drop(SuRF* f) { f->destroy(); delete f; }

// exactly-sized, 8-aligned copy of a serialised image
struct Image {
    char* p; size_t n;
    explicit Image(const std::string& s) : n(s.size()) { p = new char[n ? n : 1]; memcpy(p, s.data(), n); }
    ~Image() { memset(p, 0x5a, n); delete[] p; }
private:
    Image(const Image&);
};
inline std::string bytesOf(const SuRF* f) {
    uint64_t n = f->serializedSize();
    char* p = f->serialize();
    std::string s(p, n);
    delete[] p;
    return s;
}
inline SuRF* roundTrip(SuRF* f) {  // consumes f
    std::string s = bytesOf(f);
    drop(f);
    Image im(s);
    return SuRF::deSerialize(im.p);
}
inline SuRF* build(const Case& c) {
    SuRF* f = buildWith(c, c.keys, c.dense, c.ratio, c.ctor);
    return c.via ? roundTrip(f) : f;
}
// Releases on scope exit.
struct Filter {
    SuRF* f;
    explicit Filter(const Case& c) : f(build(c)) {}
    explicit Filter(SuRF* g) : f(g) {}
    ~Filter() { drop(f); }
private:
    Filter(const Filter&);
    Filter& operator=(const Filter&);
};

inline std::string num(int64_t v) { std::ostringstream o; o << v; return o.str(); }
inline std::string posName(const Model& m, int i) { return i < 0 ? "invalid" : i >= m.n() ? "end" : ("#" + num(i) + " " + show(m.k[i])); }

// index of the key an iterator rests on: -1 invalid, -2 not a retained prefix at all
inline int where(const Model& m, const SIter& it) {
    if (!it.isValid()) return -1;
    auto f = m.idx.find(it.getKey());
    return f == m.idx.end() ? -2 : f->second;
}
inline Msg badPos(const SIter& it) { return "iterator rests on " + show(it.getKey()) + ", which is not the retained prefix of any stored key"; }

//------------------------------------------------------------------ oracle checks
// L q : point lookup.   want: 1 no false negative, 2 rejects
inline Msg opLookup(const SuRF* f, const Model& m, const Op& o, int want, Stats& st) {
    const std::string& q = o.sat(0);
    int v = m.lookup(q);
    if ((want == 1 && v != 1) || (want == 2 && v != 0)) { st.add("query-either-way"); return ""; }
    st.add(v == 1 ? "query-stored" : "query-ruled-out");
    if (v == 0 && m.candidate(q) >= 0) st.add("query-ruled-out-by-suffix-bits");
    bool r = f->lookupKey(q);
    if (v == 1 && !r) return "lookup of stored key " + show(q) + " answered false";
    if (v == 0 && r) return "lookup of " + show(q) + " answered true although nothing retained matches it";
    return "";
}
// R li ri l h : range lookup.  want 1: must be true if a key is inside; 2: must be false if ruled out
inline Msg opRange(SuRF* f, const Model& m, const Op& o, int want, Stats& st) {
    const std::string &l = o.sat(0), &h = o.sat(1);
    bool li = o.iat(0) != 0, hi = o.iat(1) != 0;
    if (h < l) return "";
    bool inside = m.anyInside(l, li, h, hi), may = inside || m.anyMayIntersect(l, h);
    std::string nm = std::string(li ? "[" : "(") + show(l) + ", " + show(h) + (hi ? "]" : ")");
    if (want == 1) {
        if (!inside) { st.add("range-without-key"); return ""; }
        st.add("range-with-key");
        if (!f->lookupRange(l, li, h, hi)) return "range " + nm + " answered false but holds stored key " + show(m.k[li ? m.lower(l) : m.upper(l)]);
    } else {
        if (may) { st.add("range-either-way"); return ""; }
        st.add("range-ruled-out");
        if (f->lookupRange(l, li, h, hi)) return "range " + nm + " answered true although no stored key is compatible with it";
    }
    return "";
}
// G incl q
inline Msg opSeekGe(const SuRF* f, const Model& m, const Op& o, Stats& st) {
    const std::string& q = o.sat(0);
    bool inc = o.iat(0) != 0;
    SIter it = f->moveToKeyGreaterThan(q, inc);
    int j = inc ? m.lower(q) : m.upper(q), p = where(m, it);
    std::string nm = std::string("seek ") + (inc ? ">= " : "> ") + show(q) + ": ";
    if (p == -2) return nm + badPos(it);
    if (p == -1) {
        st.add("seek-past-end");
        if (j < m.n()) return nm + "invalid, but stored key " + show(m.k[j]) + " satisfies the bound";
        return "";
    }
    if (it.getFpFlag()) {
        st.add("seek-flagged");
        if (p == j) return "";
        if (p == j - 1 && Model::isPrefix(m.t[p], q)) return "";
        return nm + "flagged possible false positive rests on " + posName(m, p) + ", expected " + posName(m, j) + " or its predecessor if that is retained as a prefix of the bound";
    }
    st.add("seek-exact");
    if (p != j) return nm + "rests on " + posName(m, p) + " without a false-positive flag, expected " + (j >= m.n() ? "invalid" : posName(m, j));
    return "";
}
// T incl q
inline Msg opSeekLe(const SuRF* f, const Model& m, const Op& o, Stats& st) {
    const std::string& q = o.sat(0);
    bool inc = o.iat(0) != 0;
    SIter it = f->moveToKeyLessThan(q, inc);
    int j = (inc ? m.upper(q) : m.lower(q)) - 1, p = where(m, it);
    std::string nm = std::string("seek ") + (inc ? "<= " : "< ") + show(q) + ": ";
    if (p == -2) return nm + badPos(it);
    if (p == -1) {
        st.add("seek-before-begin");
        if (j >= 0) return nm + "invalid, but stored key " + show(m.k[j]) + " satisfies the bound";
        return "";
    }
    if (it.getFpFlag()) {
        st.add("seek-flagged");
        if (p == m.candidate(q)) return "";
        return nm + "flagged possible false positive rests on " + posName(m, p) + ", whose retained prefix does not match the bound";
    }
    st.add("seek-exact");
    if (p != j) return nm + "rests on " + posName(m, p) + " without a false-positive flag, expected " + (j < 0 ? "invalid" : posName(m, j));
    return "";
}
// start positions: 0 first, 1 last, 2 seek >=, 3 seek >, 4 seek <=, 5 seek <
inline SIter startAt(const SuRF* f, int64_t how, const std::string& q) {
    switch (how) {
    case 0: return f->moveToFirst();
    case 1: return f->moveToLast();
    case 2: return f->moveToKeyGreaterThan(q, true);
    case 3: return f->moveToKeyGreaterThan(q, false);
    case 4: return f->moveToKeyLessThan(q, true);
    default: return f->moveToKeyLessThan(q, false);
    }
}
// W how q moves : history of moves, each checked against the order of the keys
inline Msg opWalk(const SuRF* f, const Model& m, const Op& o, Stats& st) {
    SIter it = startAt(f, o.iat(0), o.sat(0));
    int p = where(m, it);
    if (p == -2) return "start: " + badPos(it);
    if (o.iat(0) == 0 && p != 0) return "first position is " + posName(m, p);
    if (o.iat(0) == 1 && p != m.n() - 1) return "last position is " + posName(m, p);
    const std::string& mv = o.sat(1);
    int turns = 0;
    for (size_t s = 0; s < mv.size(); s++) {
        if (p == -1) {   // stepping an invalid iterator reports false and leaves it invalid
            bool r = mv[s] == '+' ? it++ : it--;
            if (r || it.isValid()) return "step on an invalid iterator made it valid (step " + num(s) + " of " + mv + ")";
            st.add("step-on-invalid");
            break;
        }
        bool r = mv[s] == '+' ? it++ : it--;
        if (s && mv[s] != mv[s - 1]) turns++;
        int want = mv[s] == '+' ? p + 1 : p - 1;
        if (want >= m.n()) want = -1;
        int got = where(m, it);
        st.add("steps");
        if (got == -2) return "step " + num(s) + " of " + mv + " from " + posName(m, p) + ": " + badPos(it);
        if (got != want) return "step " + num(s) + " ('" + mv[s] + "') of " + mv + " from " + posName(m, p) + " reached " + posName(m, got) + ", expected " + posName(m, want);
        if (r != it.isValid()) return std::string("step '") + mv[s] + "' from " + posName(m, p) + " returned " + num(r) + " but isValid() is " + num(it.isValid());
        p = got;
    }
    if (turns) st.add("walks-with-turns");
    return "";
}
inline Msg checkContent(const SIter& it, const Model& m, int p, Stats& st) {
    if (it.getKey() != m.t[p]) return "key at " + posName(m, p) + " reported as " + show(it.getKey());
    surf::word_t sfx = 0x1234;
    int len = it.getSuffix(&sfx);
    if (m.stype >= 2) {
        if (len != m.rlen) return "suffix length at " + posName(m, p) + " reported as " + num(len) + ", expected " + num(m.rlen);
        if (sfx != m.rv[p]) return "suffix at " + posName(m, p) + " reported as " + num((int64_t)sfx) + ", expected " + num((int64_t)m.rv[p]);
    } else if (len != 0 || sfx != 0) return "a suffix is reported at " + posName(m, p) + " although no real suffix is retained";
    unsigned bl = 77;
    std::string ks = it.getKeyWithSuffix(&bl);
    std::string lo, hi;
    m.hull(p, lo, hi);
    if (m.exact[p]) lo = m.t[p];
    unsigned wb = m.known(p) ? (unsigned)(m.rlen % 8) : 0;
    if (ks != lo) return "key with suffix at " + posName(m, p) + " reported as " + show(ks) + ", expected " + show(lo);
    if (bl != wb) return "trailing bit count at " + posName(m, p) + " reported as " + num(bl) + ", expected " + num(wb);
    if (m.known(p)) st.add("positions-with-suffix-bits");
    st.add("positions");
    return "";
}
inline Msg checkCompare(const SIter& it, const Model& m, int p, const std::string& q, Stats& st) {
    int r = it.compare(q);
    int o = m.k[p].compare(q);
    st.add("comparisons");
    if (r == surf::kCouldBePositive) {
        // "cannot tell" only where what is retained really leaves it open
        std::string lo, hi;
        m.hull(p, lo, hi);
        if (m.exact[p] ? o != 0 : (q < lo || q.substr(0, hi.size()) > hi))
            return "comparing position " + posName(m, p) + " with " + show(q) + " answers 'cannot tell' although what is retained of the key settles it";
        return "";
    }
    st.add("comparisons-definite");
    if ((r < 0 && o >= 0) || (r > 0 && o <= 0) || (r == 0 && o != 0))
        return "comparing position " + posName(m, p) + " with " + show(q) + " gave " + num(r) + ", contradicting the stored key's order";
    return "";
}
// K how q moves cmp... : contents and comparisons at every position of a walk
inline Msg opContent(const SuRF* f, const Model& m, const Op& o, Stats& st) {
    SIter it = startAt(f, o.iat(0), o.sat(0));
    const std::string& mv = o.sat(1);
    for (size_t s = 0; s <= mv.size(); s++) {
        if (!it.isValid()) {
            if (!it.getKey().empty()) return "an invalid iterator reports key " + show(it.getKey());
            return "";
        }
        int p = where(m, it);
        if (p == -2) return badPos(it);
        Msg e = checkContent(it, m, p, st);
        if (!e.empty()) return e;
        for (size_t c = 2; c < o.s.size(); c++) {
            e = checkCompare(it, m, p, o.s[c], st);
            if (!e.empty()) return e;
        }
        e = checkCompare(it, m, p, m.k[p], st);
        if (e.empty()) e = checkCompare(it, m, p, m.t[p], st);
        if (e.empty() && p + 1 < m.n()) e = checkCompare(it, m, p, m.k[p + 1], st);
        if (e.empty() && p > 0) e = checkCompare(it, m, p, m.k[p - 1], st);
        if (e.empty()) e = checkCompare(it, m, p, m.k[p] + (s & 1 ? '\xff' : '\0'), st);
        if (!e.empty()) return e;
        if (s < mv.size()) { if (mv[s] == '+') it++; else it--; }
    }
    return "";
}
// C l h : count over strings
inline Msg opCount(SuRF* f, const Model& m, const Op& o, Stats& st) {
    const std::string &l = o.sat(0), &h = o.sat(1);
    if (h < l) return "";
    int64_t truth = (int64_t)m.upper(h) - m.lower(l);
    uint64_t c = f->approxCount(l, h);
    st.add(truth > 2 ? "counts-over-2" : "counts-small");
    if ((int64_t)c > truth || (int64_t)c < truth - 2 || c > (uint64_t)m.n())
        return "count of [" + show(l) + ", " + show(h) + "] is " + num((int64_t)c) + ", true number is " + num(truth);
    return "";
}
// N how1 how2 q1 moves1 q2 moves2 : count between iterators
inline Msg opCountIt(SuRF* f, const Model& m, const Op& o, Stats& st) {
    SIter a = startAt(f, o.iat(0), o.sat(0)), b = startAt(f, o.iat(1), o.sat(2));
    for (char c : o.sat(1)) { if (c == '+') a++; else a--; }
    for (char c : o.sat(3)) { if (c == '+') b++; else b--; }
    if (!a.isValid() || !b.isValid()) {
        uint64_t c = f->approxCount(&a, &b);
        st.add("iter-counts-invalid");
        return c ? "count with an iterator that rests on no key is " + num((int64_t)c) : "";
    }
    int p = where(m, a), q = where(m, b);
    if (p < 0 || q < 0) { st.add("iter-count-skipped"); return ""; }
    if (q < p) { std::swap(p, q); std::swap(a, b); }
    uint64_t c = f->approxCount(&a, &b);
    int64_t truth = q - p + 1;
    st.add("iter-counts");
    if ((int64_t)c > truth || (int64_t)c < truth - 2 || c > (uint64_t)m.n())
        return "count from " + posName(m, p) + " to " + posName(m, q) + " is " + num((int64_t)c) + ", inclusive number is " + num(truth);
    return "";
}

//------------------------------------------------------------------ plain transcript
inline void descr(std::ostringstream& o, const SIter& it, bool full) {
    if (!it.isValid()) { o << "inv "; return; }
    o << hex(it.getKey()) << (it.getFpFlag() ? "? " : "! ");
    if (full) {
        surf::word_t s = 0;
        int n = it.getSuffix(&s);
        unsigned bl = 0;
        std::string ks = it.getKeyWithSuffix(&bl);
        o << n << ":" << s << ":" << hex(ks) << ":" << bl << " ";
    }
}
inline std::string answer(SuRF* f, const Op& o) {
    std::ostringstream r;
    if (o.name == "L") r << f->lookupKey(o.sat(0));
    else if (o.name == "R") r << f->lookupRange(o.sat(0), o.iat(0) != 0, o.sat(1), o.iat(1) != 0);
    else if (o.name == "G") descr(r, f->moveToKeyGreaterThan(o.sat(0), o.iat(0) != 0), true);
    else if (o.name == "T") descr(r, f->moveToKeyLessThan(o.sat(0), o.iat(0) != 0), true);
    else if (o.name == "W") {
        SIter it = startAt(f, o.iat(0), o.sat(0));
        descr(r, it, true);
        for (char c : o.sat(1)) { bool v = c == '+' ? it++ : it--; r << v; descr(r, it, false); }
    } else if (o.name == "K") {
        SIter it = startAt(f, o.iat(0), o.sat(0));
        for (char c : o.sat(1)) { if (c == '+') it++; else it--; }
        if (it.isValid())
            for (size_t k = 2; k < o.s.size(); k++) { int v = it.compare(o.s[k]); r << (v == surf::kCouldBePositive ? '~' : v < 0 ? '<' : v > 0 ? '>' : '=') << " "; }
    } else if (o.name == "C") { if (!(o.sat(1) < o.sat(0))) r << f->approxCount(o.sat(0), o.sat(1)); }
    else if (o.name == "N") {
        SIter a = startAt(f, o.iat(0), o.sat(0)), b = startAt(f, o.iat(1), o.sat(2));
        for (char c : o.sat(1)) { if (c == '+') a++; else a--; }
        for (char c : o.sat(3)) { if (c == '+') b++; else b--; }
        if (a.isValid() && b.isValid()) {
            if (b.getKey() < a.getKey()) std::swap(a, b);
            r << f->approxCount(&a, &b);
        }
    } else if (o.name == "Z") r << f->serializedSize() << " " << f->getMemoryUsage() << " " << f->getHeight() << " " << f->getSparseStartLevel();
    else if (o.name == "B") { std::string s = bytesOf(f); r << s.size() << ":" << fnv(s); }
    return r.str();
}

//------------------------------------------------------------------ op generation
inline Op genL(Rng& r, const Keys& k, const Case& c) { return Op("L").S(genQuery(r, k, c.rlen)); }
inline Op genR(Rng& r, const Keys& k, const Case& c) {
    std::string l, h;
    genBounds(r, k, c.rlen, l, h);
    return Op("R").I(r.chance(50)).I(r.chance(50)).S(l).S(h);
}
inline Op genG(Rng& r, const Keys& k, const Case& c) { return Op("G").I(r.chance(50)).S(genQuery(r, k, c.rlen)); }
inline Op genT(Rng& r, const Keys& k, const Case& c) { return Op("T").I(r.chance(50)).S(genQuery(r, k, c.rlen)); }
inline std::string genMoves(Rng& r, size_t maxn) {
    std::string s;
    size_t n = 1 + r.below(maxn);
    int bias = r.chance(33) ? 90 : r.chance(50) ? 10 : 50;
    bool cur = r.chance(bias);
    while (s.size() < n) {
        size_t run = r.chance(60) ? 1 : 1 + r.below(6);
        for (size_t i = 0; i < run && s.size() < n; i++) s.push_back(cur ? '+' : '-');
        cur = r.chance(bias);
    }
    return s;
}
inline Op genW(Rng& r, const Keys& k, const Case& c, size_t maxn = 24) {
    int how = (int)r.below(6);
    std::string mv = genMoves(r, maxn);
    if (how == 0 && r.chance(60)) mv = std::string(1 + r.below(std::min<size_t>(k.size() + 1, 300)), '+') + (r.chance(40) ? mv : std::string());
    if (how == 1 && r.chance(60)) mv = std::string(1 + r.below(std::min<size_t>(k.size() + 1, 300)), '-') + (r.chance(40) ? mv : std::string());
    return Op("W").I(how).S(how >= 2 ? genQuery(r, k, c.rlen) : std::string()).S(mv);
}
inline Op genK(Rng& r, const Keys& k, const Case& c) {
    Op o("K");
    int how = (int)r.below(6);
    std::string q = how >= 2 ? genQuery(r, k, c.rlen) : std::string();
    o.I(how).S(q).S(r.chance(30) ? std::string() : genMoves(r, 8));
    size_t n = 1 + r.below(4);
    for (size_t i = 0; i < n; i++) o.S(genQuery(r, k, c.rlen));
    if (!q.empty()) o.S(q);
    return o;
}
inline Op genC(Rng& r, const Keys& k, const Case& c) {
    std::string l, h;
    genBounds(r, k, c.rlen, l, h);
    return Op("C").S(l).S(h);
}
inline Op genN(Rng& r, const Keys& k, const Case& c) {
    int h1 = (int)r.below(6), h2 = (int)r.below(6);
    return Op("N").I(h1).I(h2).S(h1 >= 2 ? genQuery(r, k, c.rlen) : std::string()).S(r.chance(50) ? std::string() : genMoves(r, 6))
        .S(h2 >= 2 ? genQuery(r, k, c.rlen) : std::string()).S(r.chance(50) ? std::string() : genMoves(r, 6));
}
inline Op genAny(Rng& r, const Keys& k, const Case& c) {
    switch (r.below(10)) {
    case 0: case 1: return genL(r, k, c);
    case 2: case 3: return genR(r, k, c);
    case 4: return genG(r, k, c);
    case 5: return genT(r, k, c);
    case 6: return genW(r, k, c, 16);
    case 7: return genK(r, k, c);
    case 8: return genC(r, k, c);
    default: return genN(r, k, c);
    }
}

} // namespace pbt
#endif
