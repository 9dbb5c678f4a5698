// Generators: sorted key lists by family, configurations, queries aimed at the
// structure of a given key list.
#ifndef PBT_GEN_HPP
#define PBT_GEN_HPP
#include "core.hpp"

namespace pbt {

typedef std::vector<std::string> Keys;

inline std::string be64(uint64_t v) {
    std::string r(8, 0);
    for (int k = 7; k >= 0; k--) { r[k] = (char)(v & 255); v >>= 8; }
    return r;
}

inline std::string randStr(Rng& r, size_t len, const std::string& alpha) {
    std::string s;
    for (size_t k = 0; k < len; k++)
        s.push_back(alpha.empty() ? (char)r.below(256) : alpha[r.below(alpha.size())]);
    return s;
}

inline std::string someAlphabet(Rng& r) {
    switch (r.below(9)) {
    case 0: return std::string("\x00\x61\xff", 3);
    case 1: return "ab";
    case 2: return std::string("\x00\x01\xfe\xff", 4);
    case 3: return std::string("\x7f\x80", 2);
    case 4: return "abcdefghijklmnopqrstuvwxyz";
    case 5: return std::string("\xff\xfe", 2);
    case 6: return std::string("\x00\x01", 2);
    case 7: return "abc";
    default: return "";
    }
}

// bytes put behind a distinguishing prefix: decides how many suffix bits a key can supply
inline std::string someTail(Rng& r) {
    switch (r.below(9)) {
    case 0: case 1: return "";
    case 2: return std::string(r.range(1, 9), '\0');
    case 3: return std::string(r.range(1, 9), '\xff');
    case 4: return randStr(r, 1, "");
    case 5: return randStr(r, 1, std::string("\x00\x01\x80\xff", 4)) + randStr(r, r.below(8), "");
    default: return randStr(r, r.range(1, 10), "");
    }
}

inline void finish(Keys& k) {
    k.erase(std::remove_if(k.begin(), k.end(), [](const std::string& s) { return s.empty(); }), k.end());
    if (k.empty()) k.push_back("k");
    std::sort(k.begin(), k.end());
}
inline void dedup(Keys& k) { k.erase(std::unique(k.begin(), k.end()), k.end()); }

// all non-empty strings of length <= 3 over {00,'a',ff}: 39 strings
inline const Keys& tinyUniverse() {
    static Keys u;
    if (u.empty()) {
        const char al[3] = {'\0', 'a', '\xff'};
        Keys cur(1, "");
        for (int d = 0; d < 3; d++) {
            Keys nx;
            for (auto& s : cur) for (char c : al) nx.push_back(s + c);
            u.insert(u.end(), nx.begin(), nx.end());
            cur = nx;
        }
        std::sort(u.begin(), u.end());
    }
    return u;
}

struct FamilyOut { std::string name; Keys keys; };

// size classes: 0 small (fast), 1 may be large
inline FamilyOut genKeys(Rng& r, int maxClass) {
    FamilyOut f;
    Keys& k = f.keys;
    int pickf = maxClass >= 1 && r.chance(40) ? 100 + (r.chance(85) ? 0 : r.chance(84) ? 3 : 4) : (int)r.below(100);
    if (pickf < 14) {
        f.name = "tiny-alphabet";
        std::string al = someAlphabet(r);
        size_t n = 1 + r.below(r.chance(30) ? 6 : 40), ml = 1 + r.below(8);
        for (size_t i = 0; i < n; i++) k.push_back(randStr(r, 1 + r.below(ml), al));
    } else if (pickf < 26) {
        f.name = "prefix-chain";
        size_t chains = 1 + r.below(4);
        std::string al = someAlphabet(r);
        for (size_t c = 0; c < chains; c++) {
            std::string s = randStr(r, 1 + r.below(10), al);
            if (!k.empty() && r.chance(50)) s = k[r.below(k.size())] + s;
            for (size_t l = 1; l <= s.size(); l++) if (r.chance(65)) k.push_back(s.substr(0, l));
            for (int b = 0; b < 3; b++) if (r.chance(60)) k.push_back(s.substr(0, r.below(s.size() + 1)) + randStr(r, 1 + r.below(3), al) + someTail(r));
        }
    } else if (pickf < 34) {
        f.name = "int-sequence";
        uint64_t base = r.chance(50) ? r.below(1 << 20) : r.next(), stride = r.chance(50) ? 1 + r.below(20) : (1ULL << r.below(40)) + r.below(3);
        size_t n = 1 + r.below(r.chance(70) ? 60 : 700);
        for (size_t i = 0; i < n; i++) k.push_back(be64(base + i * stride));
    } else if (pickf < 40) {
        f.name = "int-random";
        size_t n = 1 + r.below(r.chance(70) ? 40 : 500);
        uint64_t mask = r.chance(50) ? ~0ULL : ((1ULL << (8 + r.below(50))) - 1);
        for (size_t i = 0; i < n; i++) k.push_back(be64(r.next() & mask));
    } else if (pickf < 56) {
        f.name = "wide-node";
        static const std::vector<int> sizes = {1, 2, 3, 4, 10, 11, 12, 13, 14, 15, 16, 17, 18, 31, 32, 33, 34, 47, 48, 49, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256};
        size_t nodes = 1 + r.below(4);
        Keys prefixes;
        for (size_t c = 0; c < nodes; c++) {
            std::string p = r.chance(40) ? std::string() : randStr(r, 1 + r.below(4), r.chance(50) ? "ab" : "");
            if (!prefixes.empty() && r.chance(40)) p = prefixes[r.below(prefixes.size())] + randStr(r, 1 + r.below(2), "");
            prefixes.push_back(p);
            int sz = r.pick(sizes);
            std::vector<int> lab;
            if (r.chance(30)) { int st = (int)r.below(257 - sz); for (int i = 0; i < sz; i++) lab.push_back(st + i); }
            else {
                std::vector<int> all(256);
                for (int i = 0; i < 256; i++) all[i] = i;
                for (int i = 0; i < sz; i++) std::swap(all[i], all[i + r.below(256 - i)]);
                lab.assign(all.begin(), all.begin() + sz);
            }
            int tails = (int)r.below(3);
            for (int l : lab) k.push_back(p + std::string(1, (char)l) + (tails == 0 ? "" : tails == 1 ? someTail(r) : (r.chance(20) ? someTail(r) : std::string())));
            if (!p.empty() && r.chance(50)) k.push_back(p);
        }
    } else if (pickf < 62) {
        f.name = "email";
        static const std::vector<std::string> hosts = {"com.gmail@", "com.example@", "org.a@", "org.ab@", "edu.cmu.cs@", "edu.cmu@", "com.g@", "net.@"};
        size_t n = 1 + r.below(r.chance(70) ? 40 : 250);
        for (size_t i = 0; i < n; i++) {
            std::string u = randStr(r, 1 + r.below(9), r.chance(50) ? "abc" : "abcdefghijklmnopqrstuvwxyz0123456789._");
            k.push_back(r.pick(hosts) + u);
            if (r.chance(20)) k.push_back(k.back() + randStr(r, 1 + r.below(3), "01"));
        }
    } else if (pickf < 68) {
        f.name = "deep";
        std::string al = someAlphabet(r);
        std::string base = randStr(r, 20 + r.below(r.chance(80) ? 90 : 400), al);
        size_t n = 2 + r.below(14);
        k.push_back(base);
        for (size_t i = 0; i < n; i++) {
            std::string s = k[r.below(k.size())];
            s = s.substr(0, 1 + r.below(s.size())) + randStr(r, r.below(4), al) + someTail(r);
            k.push_back(s);
        }
    } else if (pickf < 78) {
        f.name = "border";  // some level holds a number of labels near a word/block border
        static const std::vector<int> tgt = {62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 255, 256, 257, 319, 320, 321, 447, 448, 449, 511, 512, 513, 575, 576, 577, 1023, 1024, 1025};
        int total = tgt[r.below(r.chance(75) ? 15 : tgt.size())];
        int first = 1 + (int)r.below(std::min(total, 64));
        std::string pre = r.chance(50) ? "" : randStr(r, 1 + r.below(3), "xy");
        while (total > first * 250) first++;
        int left = total;
        for (int a = 0; a < first; a++) {
            int m = (a == first - 1) ? left : std::max(1, std::min(left - (first - a - 1), (int)(total / first + r.range(-2, 2))));
            if (m > 250) m = 250;
            left -= m;
            for (int b = 0; b < m; b++)
                k.push_back(pre + std::string(1, (char)(a * 3)) + std::string(1, (char)b) + (r.chance(10) ? someTail(r) : std::string()));
        }
    } else if (pickf < 83) {
        f.name = "one-or-two";
        std::string a = randStr(r, 1 + r.below(12), someAlphabet(r));
        k.push_back(a);
        if (r.chance(20)) k[0] = std::string(1 + r.below(3), r.chance(50) ? '\xff' : '\0');
        if (r.chance(60)) {
            std::string b = a;
            switch (r.below(4)) {
            case 0: b += someTail(r); break;
            case 1: b = b.substr(0, 1 + r.below(b.size())); break;
            case 2: b[r.below(b.size())] ^= (char)(1 << r.below(8)); break;
            default: b = randStr(r, 1 + r.below(5), ""); }
            k.push_back(b);
        }
    } else if (pickf < 91) {
        f.name = "neighbours";  // variants of one key, differing late: suffix bits decide
        std::string base = randStr(r, 2 + r.below(14), someAlphabet(r));
        k.push_back(base);
        size_t n = 1 + r.below(12);
        for (size_t i = 0; i < n; i++) {
            std::string s = k[r.below(k.size())];
            size_t p = r.below(s.size());
            switch (r.below(4)) {
            case 0: s[p] = (char)(s[p] + 1); break;
            case 1: s[p] = (char)(s[p] - 1); break;
            case 2: s[p] ^= (char)(1 << r.below(8)); break;
            default: s = s.substr(0, p + 1) + someTail(r); }
            k.push_back(s);
        }
    } else if (pickf < 96) {
        f.name = "tiny-universe";
        const Keys& u = tinyUniverse();
        int pc = (int)r.range(3, 90);
        for (auto& s : u) if (r.chance(pc)) k.push_back(s);
    } else if (pickf < 100) {
        f.name = "bytes";
        size_t n = 1 + r.below(r.chance(80) ? 80 : 600), ml = 1 + r.below(20);
        for (size_t i = 0; i < n; i++) k.push_back(randStr(r, 1 + r.below(ml), ""));
    } else if (pickf < 103) {
        f.name = "large";
        size_t n = 2000 + r.below(6000);
        int kind = (int)r.below(3);
        uint64_t st = 1 + r.below(300);
        for (size_t i = 0; i < n; i++)
            k.push_back(kind == 0 ? be64(i * st) : kind == 1 ? be64(r.next()) : randStr(r, 3 + r.below(8), "abcdefgh"));
    } else if (pickf == 104) {
        f.name = "abyss";   // more than 2^16 levels
        std::string base = randStr(r, 65500 + r.below(200), someAlphabet(r));
        k.push_back(base);
        size_t n = 1 + r.below(4);
        for (size_t i = 0; i < n; i++) {
            std::string s = base.substr(0, r.chance(60) ? base.size() - r.below(150) : r.below(base.size()));
            k.push_back(s + randStr(r, 1 + r.below(4), "") + someTail(r));
        }
    } else {
        f.name = "huge";
        size_t n = 66000 + r.below(20000);
        int kind = (int)r.below(3);
        for (size_t i = 0; i < n; i++)
            k.push_back(kind == 0 ? be64(i * 7) : kind == 1 ? be64(r.next()) : randStr(r, 3 + r.below(6), "abcdefghijklmn"));
    }
    finish(k);
    if (r.chance(80)) dedup(k);
    else if (r.chance(60) && k.size() < 500) {   // add duplicates on purpose
        size_t n = 1 + r.below(1 + k.size());
        for (size_t i = 0; i < n; i++) k.push_back(k[r.chance(20) ? 0 : r.chance(20) ? k.size() - 1 : r.below(k.size())]);
        std::sort(k.begin(), k.end());
    }
    return f;
}

inline int someSuffixLen(Rng& r, int maxl) {
    static const std::vector<int> sp = {1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 9, 10, 12, 15, 16, 16, 17, 23, 24, 25, 31, 32, 33, 40, 48, 56, 57, 58, 60, 62, 63, 64};
    int v = r.chance(70) ? r.pick(sp) : (int)r.range(1, 64);
    if (v > maxl) v = (int)r.range(1, maxl);
    return v;
}

inline void genConfig(Rng& r, Case& c) {
    c.stype = r.chance(22) ? 0 : r.chance(25) ? 1 : r.chance(65) ? 2 : 3;
    c.hlen = c.rlen = 0;
    if (c.stype == 1) c.hlen = someSuffixLen(r, 64);
    if (c.stype == 2) c.rlen = someSuffixLen(r, 64);
    if (c.stype == 3) { c.hlen = someSuffixLen(r, 63); c.rlen = someSuffixLen(r, 64 - c.hlen); }
    if (r.chance(5)) {   // any other division of the suffix bits, down to none at all
        c.stype = (int)r.below(4);
        c.hlen = r.chance(40) ? 0 : someSuffixLen(r, 64);
        c.rlen = r.chance(40) ? 0 : someSuffixLen(r, 64);
        if (c.stype == 0) c.hlen = c.rlen = 0;
        if (c.hlen + c.rlen > 64) { if (r.chance(50)) c.hlen = 64 - c.rlen; else c.rlen = 64 - c.hlen; }
    }
    static const std::vector<int64_t> ratios = {0, 0, 1, 1, 2, 4, 8, 16, 16, 16, 16, 32, 64, 64, 256, 1000, 100000};
    c.ratio = r.pick(ratios);
    c.dense = r.chance(88);
    c.via = r.chance(15);
    c.ctor = (int)r.below(3);
}

// A query string chosen in relation to the keys (sorted) and the suffix length.
inline std::string genQuery(Rng& r, const Keys& k, int rlen) {
    const std::string& a = k[r.chance(8) ? 0 : r.chance(8) ? k.size() - 1 : r.below(k.size())];
    std::string s = a;
    switch (r.below(22)) {
    case 0: case 1: case 2: return s;
    case 3: return s.substr(0, r.below(s.size() + 1));
    case 4: return s.substr(0, r.below(s.size() + 1)) + std::string(1, (char)r.below(256)) + someTail(r);
    case 5: return s + std::string(1, '\0');
    case 6: return s + '\xff';
    case 7: return s + someTail(r);
    case 8: { size_t p = r.below(s.size()); s[p] = (char)(s[p] + 1); return s; }
    case 9: { size_t p = r.below(s.size()); s[p] = (char)(s[p] - 1); return s; }
    case 10: { size_t p = r.below(s.size()); s[p] = (char)(s[p] + (r.chance(50) ? 1 : -1)); return s.substr(0, p + 1); }
    case 11: { size_t p = r.below(s.size()); s[p] ^= (char)(1 << r.below(8)); return r.chance(50) ? s : s.substr(0, p + 1); }
    case 12: return "";
    case 13: return std::string(1 + r.below(3), r.chance(50) ? '\0' : '\xff');
    case 14: return randStr(r, 1 + r.below(6), "");
    case 15: { const std::string& b = r.pick(k); return s.substr(0, r.below(s.size() + 1)) + b.substr(r.below(b.size() + 1)); }
    case 16: { // between two neighbours
        size_t i = r.below(k.size());
        const std::string& b = k[i];
        std::string q = b.substr(0, 1 + r.below(b.size()));
        q.back() = (char)((unsigned char)q.back() + r.range(-1, 1));
        return q + (r.chance(40) ? someTail(r) : std::string()); }
    case 17: case 18: case 19: { // around the last retained bit: cut near the point where the key becomes unique
        size_t i = r.below(k.size());
        size_t u = 0;
        auto lcp = [](const std::string& x, const std::string& y) { size_t n = 0; while (n < x.size() && n < y.size() && x[n] == y[n]) n++; return n; };
        if (i) u = std::max(u, lcp(k[i], k[i - 1]));
        if (i + 1 < k.size()) u = std::max(u, lcp(k[i], k[i + 1]));
        u += 1;
        std::string q = k[i];
        size_t bytes = (size_t)(rlen + 7) / 8;
        int how = (int)r.below(6);
        if (how == 0) return q.substr(0, std::min(q.size(), u));
        if (how == 1) return q.substr(0, std::min(q.size(), u + r.below(bytes + 2)));
        while (q.size() < u + bytes && r.chance(70)) q.push_back((char)r.below(256));
        if (q.size() > u && rlen > 0) {
            size_t bit = how <= 3 ? (size_t)rlen - 1 : r.below((size_t)rlen + 3);
            size_t p = u + bit / 8;
            if (p < q.size()) q[p] ^= (char)(0x80 >> (bit % 8));
        } else if (q.size() > u) q[u] = (char)r.below(256);
        if (r.chance(40)) q = q.substr(0, std::min(q.size(), u + r.below(bytes + 3)));
        return q; }
    case 20: { s.back() = (char)r.below(256); return s; }
    default: { size_t p = r.below(s.size()); s[p] = (char)r.below(256); return r.chance(50) ? s : s.substr(0, p + 1); }
    }
}

// Ordered pair of bounds
inline void genBounds(Rng& r, const Keys& k, int rlen, std::string& l, std::string& h) {
    l = genQuery(r, k, rlen);
    switch (r.below(6)) {
    case 0: h = l; break;
    case 1: h = l + someTail(r); break;
    case 2: h = l.substr(0, r.below(l.size() + 1)) + std::string(1, (char)r.below(256)); break;
    case 3: { auto it = std::lower_bound(k.begin(), k.end(), l); size_t i = (size_t)(it - k.begin()); i += r.below(3); if (i >= k.size()) i = k.size() - 1;
              h = k[i]; if (r.chance(50) ) { size_t p = r.below(h.size()); h = h.substr(0, p + 1); if (r.chance(50)) h[p] = (char)(h[p] + r.range(-1, 1)); } break; }
    default: h = genQuery(r, k, rlen);
    }
    if (h < l) std::swap(l, h);
}

} // namespace pbt
#endif
