// Exploration of the state graph of a random-access iterator: from every reached iterator object, every
// legal step and jump; each successor must be the iterator of the position it abstracts to.
#pragma once
#include "core.h"
#include <cstddef>

template <class It> struct Bytes {
    alignas(It) unsigned char b[sizeof(It)];
    explicit Bytes(const It& it)
    {
        memset(b, 0, sizeof b);
        It* p = new (b) It(it);
        __builtin_clear_padding(p);
    }
    bool operator==(const Bytes& o) const { return !memcmp(b, o.b, sizeof b); }
};

// expect(pos) -> key of the element at pos; key(it) -> key of *it
template <class It, class E, class K> inline bool lawful(Ctx& c, const It& begin, long size, E expect, K key, const std::string& label)
{
    struct Node {
        It it;
        long pos;
    };
    std::vector<Node> work;
    std::vector<It> canon{begin};
    std::vector<Bytes<It>> cb{Bytes<It>(begin)};
    auto bad = [&](const std::string& how, long p, const char* what) {
        c.violation(fmt("%s: position %ld of %ld reached by %s: %s", label.c_str(), p, size, how.c_str(), what));
        return false;
    };
    // everything that can be observed of an iterator that should be at position p
    auto observe = [&](const It& it, long p, const std::string& how) {
        c.cells++;
        if (p < size) {
            c.changed++;
            if (!(key(it) == expect(p))) return bad(how, p, "refers to a wrong element");
        }
        for (long q = 0; q < (long)canon.size(); q++) {
            const It& o = canon[q];
            c.cells++;
            if ((it == o) != (p == q) || (o == it) != (p == q)) return bad(how, p, fmt("equality with position %ld is wrong", q).c_str());
            if ((it != o) == (p == q)) return bad(how, p, fmt("inequality with position %ld is wrong", q).c_str());
            if (it - o != p - q || o - it != q - p) return bad(how, p, fmt("distance to position %ld is %ld and %ld", q, (long)(it - o), (long)(o - it)).c_str());
            if ((it < o) != (p < q) || (it > o) != (p > q) || (it <= o) != (p <= q) || (it >= o) != (p >= q))
                return bad(how, p, fmt("order relative to position %ld is wrong", q).c_str());
        }
        return true;
    };
    for (long p = 0; p < size; p++) {
        It n = canon.back();
        ++n;
        c.transitions++;
        canon.push_back(n);
        cb.emplace_back(n);
    }
    for (long p = 0; p <= size; p++) {
        c.states++;
        if (!observe(canon[p], p, p ? "stepping from the beginning" : "construction")) return false;
        work.push_back({canon[p], p});
    }
    std::vector<std::pair<long, Bytes<It>>> extra;
    for (size_t w = 0; w < work.size(); w++) {
        Node nd = work[w];
        auto arrive = [&](const It& it, long p, const std::string& how) {
            c.transitions++;
            c.runs++;
            Bytes<It> b(it);
            if (b == cb[p]) return true;
            for (auto& e : extra)
                if (e.first == p && e.second == b) return true;
            // a different representation of position p
            if (!observe(it, p, how)) return false;
            extra.emplace_back(p, b);
            c.states++;
            work.push_back({it, p});
            return true;
        };
        auto from = [&](const char* op, long d) { return fmt("%s%s%ld from position %ld%s", op, d < 0 ? "" : "", d, nd.pos, w > (size_t)size ? " (alternative representation)" : ""); };
        if (nd.pos < size) {
            It a = nd.it;
            It& r = ++a;
            if (&r != &a || !arrive(a, nd.pos + 1, from("++ ", 1))) return c.bad ? false : bad("++", nd.pos, "result is not the iterator");
            It b = nd.it;
            It old = b++;
            if (!arrive(b, nd.pos + 1, from("post-increment ", 1)) || !arrive(old, nd.pos, from("value of post-increment ", 1))) return false;
        }
        if (nd.pos > 0) {
            It a = nd.it;
            --a;
            if (!arrive(a, nd.pos - 1, from("-- ", -1))) return false;
            It b = nd.it;
            It old = b--;
            if (!arrive(b, nd.pos - 1, from("post-decrement ", -1)) || !arrive(old, nd.pos, from("value of post-decrement ", -1))) return false;
        }
        for (long q = 0; q <= size; q++) {
            It a = nd.it, b = nd.it;
            a += q - nd.pos;
            b -= nd.pos - q;
            if (!arrive(a, q, from("+= ", q - nd.pos)) || !arrive(b, q, from("-= ", nd.pos - q))) return false;
            if (!arrive(nd.it + (q - nd.pos), q, from("+ ", q - nd.pos)) || !arrive(nd.it - (nd.pos - q), q, from("- ", nd.pos - q))) return false;
        }
        if (work.size() > size_t(8 * (size + 1) + 64)) return bad("a history", nd.pos, "has unboundedly many representations");
    }
    return true;
}

// A long sequence: every step forward and back, and every jump between a set of positions that has all the ends of rows near
// the beginning, the middle and the end.
template <class It, class E, class K> inline bool lawful_long(Ctx& c, const It& begin, long size, E expect, K key, const std::string& label)
{
    auto bad = [&](const char* how, long p, long q, const char* what) {
        c.violation(fmt("%s: position %ld of %ld reached %s %ld: %s", label.c_str(), q, size, how, p, what));
        return false;
    };
    std::set<long> at;
    for (long k = 0; k < 24; k++)
        for (long p : {k, size - k, size / 2 + k, size / 3 - k, (long)1 << std::min(k, 40l), ((long)1 << std::min(k, 40l)) - 1})
            if (p >= 0 && p <= size) at.insert(p);
    std::vector<std::pair<long, It>> mark;
    It it = begin;
    for (long p = 0; p <= size; p++) {
        if (at.count(p)) mark.emplace_back(p, it);
        c.states++;
        if (it - begin != p || (it == begin) != (p == 0)) return bad("stepping from", p ? p - 1 : 0, p, "wrong distance or equality");
        if (p == size) break;
        c.changed++;
        if (!(key(it) == expect(p))) return bad("stepping from", p ? p - 1 : 0, p, "refers to a wrong element");
        c.transitions++;
        c.runs++;
        ++it;
    }
    for (long p = size - 1; p >= 0; p--) {
        c.transitions++;
        --it;
        if (!(key(it) == expect(p)) || it - begin != p) return bad("stepping back from", p + 1, p, "wrong element or distance");
    }
    for (auto& a : mark)
        for (auto& b : mark) {
            c.transitions++;
            c.runs++;
            It i = a.second, j = a.second;
            i += b.first - a.first;
            j -= a.first - b.first;
            for (It* k : {&i, &j}) {
                if (b.first < size && !(key(*k) == expect(b.first))) return bad("jumping from", a.first, b.first, "refers to a wrong element");
                if (!(*k == b.second) || *k - b.second != 0 || *k - a.second != b.first - a.first || (*k < a.second) != (b.first < a.first))
                    return bad("jumping from", a.first, b.first, "wrong equality, distance or order");
            }
            if (b.first < size) { // one step beyond a jump
                ++i;
                if (b.first + 1 < size && !(key(i) == expect(b.first + 1))) return bad("jumping and stepping from", a.first, b.first + 1, "refers to a wrong element");
                if (i - b.second != 1) return bad("jumping and stepping from", a.first, b.first + 1, "wrong distance");
            }
        }
    return true;
}
