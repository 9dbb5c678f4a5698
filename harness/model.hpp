// Reference model: what a filter over a key list retains, and what it may and
// must answer.  Written from the documented behaviour (distinguishing prefixes,
// prefix keys, real suffix bits, conservative seeks); shares no code with SuRF.
#ifndef PBT_MODEL_HPP
#define PBT_MODEL_HPP
#include "core.hpp"
#include "gen.hpp"
#include <unordered_map>

namespace pbt {

struct Model {
    Keys k;                        // distinct, sorted
    std::vector<std::string> t;    // retained prefix
    std::vector<char> exact;       // key is a proper prefix of its successor: retained completely
    std::vector<uint64_t> rv;      // real suffix bits (0: none retained)
    std::unordered_map<std::string, int> idx; // retained prefix -> key index
    int stype, rlen, hlen;
    size_t height = 0;

    static size_t lcp(const std::string& a, const std::string& b) {
        size_t n = 0;
        while (n < a.size() && n < b.size() && a[n] == b[n]) n++;
        return n;
    }
    // bits [8*from, 8*from+len) of s as a number; false if s is too short
    static bool bits(const std::string& s, size_t from, int len, uint64_t& out) {
        out = 0;
        if (s.size() < from || (s.size() - from) * 8 < (size_t)len) return false;
        for (int b = 0; b < len; b++) {
            unsigned char c = (unsigned char)s[from + b / 8];
            out = (out << 1) | ((c >> (7 - b % 8)) & 1);
        }
        return true;
    }
    Model(const Keys& keys, int stype_, int hlen_, int rlen_) : stype(stype_), rlen(stype_ >= 2 ? rlen_ : 0), hlen(hlen_) {
        k = keys;
        dedup(k);
        size_t n = k.size();
        t.resize(n); exact.assign(n, 0); rv.assign(n, 0);
        std::vector<size_t> l(n + 1, 0);
        for (size_t i = 1; i < n; i++) l[i] = lcp(k[i - 1], k[i]);
        for (size_t i = 0; i < n; i++) {
            size_t u = std::max(l[i], i + 1 < n ? l[i + 1] : 0);
            if (u == k[i].size()) { exact[i] = 1; t[i] = k[i]; height = std::max(height, k[i].size() + 1); }
            else { t[i] = k[i].substr(0, u + 1); height = std::max(height, u + 1); }
            if (rlen > 0 && !exact[i]) { uint64_t v; if (bits(k[i], t[i].size(), rlen, v)) rv[i] = v; }
            idx[t[i]] = (int)i;
        }
    }
    int n() const { return (int)k.size(); }
    int find(const std::string& q) const { auto it = std::lower_bound(k.begin(), k.end(), q); return it != k.end() && *it == q ? (int)(it - k.begin()) : -1; }
    int lower(const std::string& q) const { return (int)(std::lower_bound(k.begin(), k.end(), q) - k.begin()); }
    int upper(const std::string& q) const { return (int)(std::upper_bound(k.begin(), k.end(), q) - k.begin()); }
    static bool isPrefix(const std::string& p, const std::string& q) { return p.size() <= q.size() && memcmp(p.data(), q.data(), p.size()) == 0; }
    // the one stored key (if any) a query could be taken for
    int candidate(const std::string& q) const {
        int j = upper(q);
        // exact key, or a retained prefix that is a prefix of q: it belongs to a neighbour of q
        for (int c = j - 1; c <= j; c++)
            if (c >= 0 && c < n()) {
                if (exact[c]) { if (k[c] == q) return c; }
                else if (isPrefix(t[c], q)) return c;
            }
        return -1;
    }
    bool known(int c) const { return rlen > 0 && rv[c] != 0; }
    // lookup verdicts: 1 must be true, 0 must be false, -1 either
    int lookup(const std::string& q) const {
        if (find(q) >= 0) return 1;
        int c = candidate(q);
        if (c < 0) return 0;
        if (known(c)) {
            uint64_t v;
            if (!bits(q, t[c].size(), rlen, v) || v != rv[c]) return 0;
        }
        return -1;
    }
    // Least and greatest (up to 0xff continuation) strings compatible with what is retained of key c.
    void hull(int c, std::string& lo, std::string& hi) const {
        lo = hi = t[c];
        if (exact[c]) return;
        if (!known(c)) {
            // Up to eight bits, all zero: the key ends here or its next byte starts with zeros.
            // (More bits may also be missing because the key ends within them.)
            if (rlen > 0 && rlen <= 8) hi.push_back((char)((1u << (8 - rlen)) - 1));
            return;
        }
        for (int b = 0; b < rlen; b += 8) {
            int nb = std::min(8, rlen - b);
            unsigned v = (unsigned)((rv[c] >> (rlen - b - nb)) & ((1u << nb) - 1));
            lo.push_back((char)(v << (8 - nb)));
            hi.push_back((char)((v << (8 - nb)) | ((1u << (8 - nb)) - 1)));
        }
    }
    // could key c, as far as retained, lie in the closed interval [l,h] ?
    bool mayIntersect(int c, const std::string& l, const std::string& h) const {
        if (exact[c]) return l <= k[c] && k[c] <= h;
        std::string lo, hi;
        hull(c, lo, hi);
        return lo <= h && l.substr(0, hi.size()) <= hi;
    }
    bool anyMayIntersect(const std::string& l, const std::string& h) const {
        int a = lower(l), b = upper(h);
        for (int c = std::max(0, a - 1); c < std::min(n(), b + 1); c++)
            if (mayIntersect(c, l, h)) return true;
        return false;
    }
    bool anyInside(const std::string& l, bool li, const std::string& h, bool hi) const {
        int a = li ? lower(l) : upper(l), b = hi ? upper(h) : lower(h);
        return a < b;
    }
};

} // namespace pbt
#endif
