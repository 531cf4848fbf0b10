// Core of the array-state model checker: numbers with a magnitude bound, fields (arrays with index
// ranges and guards), worlds (all arrays of a scenario), operations, exploration, reporting.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cstring>
#include <functional>
#include <memory>
#include <regex>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#if defined(FOOT) || defined(SCHED)
#include "rt.h"
#endif

// ---------------------------------------------------------------------------------------------
// A value together with the sum of the magnitudes that went into it: rounding of any reasonable
// evaluation order is bounded by a small multiple of eps*m.
struct Num {
    double v = 0, m = 0;
    Num() = default;
    Num(double x) : v(x), m(std::fabs(x)) {}
    Num(double x, double mm) : v(x), m(mm) {}
};
inline Num operator+(Num a, Num b) { return {a.v + b.v, a.m + b.m}; }
inline Num operator-(Num a, Num b) { return {a.v - b.v, a.m + b.m}; }
inline Num operator-(Num a) { return {-a.v, a.m}; }
inline Num operator*(Num a, Num b) { return {a.v * b.v, a.m * b.m}; }
inline Num operator/(Num a, Num b)
{
    double q = std::fabs(b.v);
    return {a.v / b.v, q > 0 ? (a.m / q) * (b.m / q) : INFINITY};
}

inline uint64_t mix64(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

// ---------------------------------------------------------------------------------------------
// A dense array over up to three space dimensions and one window dimension (index 3).
struct Field {
    std::string name;
    int lo[4] = {0, 0, 0, 0}, hi[4] = {0, 0, 0, 0};
    long st[4] = {0, 0, 0, 0};
    long n = 1;
    std::vector<Num> d;
    std::vector<char> touched;

    // order: dimensions, fastest first
    Field(std::string nm, std::vector<int> order, const int* l, const int* h, int w = 0)
        : name(std::move(nm))
    {
        for (int q : order) {
            lo[q] = q == 3 ? 0 : l[q];
            hi[q] = q == 3 ? w - 1 : h[q];
            st[q] = n;
            long e = (long)hi[q] - lo[q] + 1;
            n *= e > 0 ? e : 0;
        }
        d.resize(n);
        touched.assign(n, 0);
    }
    bool in(const int* x, int w = 0) const
    {
        for (int q = 0; q < 3; q++)
            if (x[q] < lo[q] || x[q] > hi[q]) return false;
        return w >= lo[3] && w <= hi[3];
    }
    long idx(const int* x, int w = 0) const
    {
        if (!in(x, w)) {
            fprintf(stderr, "model error: %s(%d,%d,%d;%d) outside [%d..%d,%d..%d,%d..%d]\n", name.c_str(),
                    x[0], x[1], x[2], w, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]);
            _exit(77); // an error of the checker, never a verdict
        }
        long r = (w - lo[3]) * st[3];
        for (int q = 0; q < 3; q++) r += (x[q] - lo[q]) * st[q];
        return r;
    }
    Num get(const int* x, int w = 0) const { return d[idx(x, w)]; }
    void set(const int* x, Num v) { set(x, 0, v); }
    void set(const int* x, int w, Num v)
    {
        long i = idx(x, w);
        d[i] = v;
        touched[i] = 1;
    }
};

struct World {
    std::vector<Field> f;
    Field& operator[](int i) { return f[i]; }
    const Field& operator[](int i) const { return f[i]; }
};

// Fill patterns. All values are dyadic with few bits, hence exact in single precision.
enum Pattern { SIGNED = 0, POSITIVE = 1, SPARSE = 2, ZERO = 3, TINY = 4, LARGE = 5, ONES = 6, NEGATIVE = 7, NPAT };
inline double patval(uint64_t key, int pat)
{
    uint64_t h = mix64(key);
    double mag = 0.5 + double((h >> 8) % 1024) / 1024.0; // [0.5,1.5)
    switch (pat) {
    case SIGNED: return (h & 1) ? mag : -mag;
    case POSITIVE: return mag;
    case SPARSE: return (h & 6) == 0 ? ((h & 1) ? mag : -mag) : 0.0;
    case TINY: return ((h & 1) ? mag : -mag) * 0x1p-20;
    case LARGE: return ((h & 1) ? mag : -mag) * 0x1p18;
    case ONES: return 1.0;
    case NEGATIVE: return -mag;
    default: return 0.0;
    }
}
inline void fill(Field& f, uint64_t key, int pat)
{
    for (long i = 0; i < f.n; i++) f.d[i] = Num(patval(mix64(key * 7919 + 13) + (uint64_t)i * 0x1000193, pat));
}

// ---------------------------------------------------------------------------------------------
enum { CPPD = 0, CPPF = 1, FTN = 2, NIMPL = 3 };
inline const char* implname(int i)
{
    static const char* n[] = {"thrust<double>", "thrust<float>", "fortran"};
    return n[i];
}
template <class TT, bool F> struct Tag {
    using T = TT;
    static constexpr bool isf = F;
};

// memory handed to an implementation: every field between guards
template <class T> struct Mem {
    static constexpr long G = 96;
    std::vector<std::vector<T>> b;
    static T guard(long i) { return T(-12345.0 - double(i % 7)); }
    void load(const World& w)
    {
        b.resize(w.f.size());
        for (size_t k = 0; k < w.f.size(); k++) {
            const Field& f = w.f[k];
            auto& v = b[k];
            v.resize(f.n + 2 * G);
            for (long i = 0; i < G; i++) v[i] = guard(i);
            for (long i = 0; i < f.n; i++) v[G + i] = T(f.d[i].v);
            for (long i = 0; i < G; i++) v[G + f.n + i] = guard(i);
        }
    }
    T* operator()(int k) { return b[k].data() + G; }
};

struct Op {
    std::string label;
    unsigned impls = 7; // bit set of implementations that have this operation
    virtual void model(World&) const = 0;
    virtual void run(int impl, Mem<double>&, Mem<float>&) const = 0;
    virtual ~Op() {}
};
template <class M, class R> struct OpT : Op {
    M m;
    R r;
    OpT(std::string l, unsigned im, M m_, R r_) : m(m_), r(r_)
    {
        label = std::move(l);
        impls = im;
    }
    void model(World& w) const override { m(w); }
    void run(int impl, Mem<double>& d, Mem<float>& f) const override
    {
        if (impl == CPPD) r(Tag<double, false>{}, d);
        else if (impl == CPPF) r(Tag<float, false>{}, f);
        else r(Tag<double, true>{}, d);
    }
};
using OpP = std::shared_ptr<Op>;
template <class M, class R> OpP mkop(std::string l, unsigned impls, M m, R r)
{
    return std::make_shared<OpT<M, R>>(std::move(l), impls, m, r);
}

// Fortran: everything by reference
template <class A> inline const void* fref(const A& a)
{
    if constexpr (std::is_pointer_v<std::decay_t<A>>) return a;
    else return &a;
}
template <class... A> inline void fcall(void (*f)(), const A&... a)
{
    using V = const void*;
    reinterpret_cast<void (*)(decltype((void)sizeof(A), V{})...)>(f)(fref(a)...);
}

// ---------------------------------------------------------------------------------------------
inline std::string fmt(const char* f, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}
inline std::string jesc(const std::string& s)
{
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o;
}

struct Ctx {
    // configuration
    std::string prop, out;
    bool thorough = false; // larger catalogues
#if defined(FOOT) || defined(SCHED)
    bool wide() const { return thorough; }
#else
    bool wide() const { return true; } // affordable without a monitor even in the quick tier
#endif
    bool deep = false;     // more schedules per call
    long seed = 1;
    int shard = 0, shards = 1;
    long only = -1; // replay: only this scenario
    // statistics
    long scenarios = 0, mine = 0, states = 0, transitions = 0, runs = 0, cells = 0, changed = 0;
    std::vector<std::string> samples;
    std::string bounds; // description of the completed bounds
    std::set<std::string> kinds;
    // violation
    bool bad = false;
    std::string what, scen_label;
    long bad_scen = -1;
    double t0 = 0;

    static double now()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + 1e-9 * t.tv_nsec;
    }
    std::vector<std::pair<std::string, std::string>> known; // recorded findings: pattern, text
    std::set<std::string> found;
    void violation(const std::string& w)
    {
        if (bad) return;
        for (auto& k : known)
            if (std::regex_search(w, std::regex(k.first))) {
                found.insert(k.second);
                return;
            }
        bad = true;
        what = w;
        bad_scen = scenarios - 1;
    }
    // returns true if the scenario is to be executed by this worker
    bool scenario()
    {
        long id = scenarios++;
        if (bad) return false;
        if (only >= 0 ? id != only : id % shards != shard) return false;
        mine++;
        if (note) note->scen = id;
        return true;
    }
    // what a worker is doing, visible to the parent if it crashes or hangs
    struct Note {
        long scen;
        char text[2048];
    };
    Note* note = nullptr;
    long ticks = 0;
    void doing(const std::string& a, const std::string& b, const std::string& c)
    {
        if ((ticks++ & 15) == 0) alarm(150);
        if (!note) return;
        char* p = note->text;
        char* e = note->text + sizeof note->text - 1;
        for (const std::string* s : {&a, &b, &c}) {
            size_t n = std::min<size_t>(s->size(), e - p);
            memcpy(p, s->data(), n);
            p += n;
            if (p < e) *p++ = ' ';
        }
        *p = 0;
    }
    void sample(const std::string& s, size_t cap = 6)
    {
        if (samples.size() < cap) samples.push_back(s);
    }

    // One transition from w: model and every implementation; compares the whole memory.
    // next receives the model's successor.
    Mem<double> md;
    Mem<float> mf;
    bool step(const World& w, const Op& op, World& next, const std::string& scen, const std::string& path)
    {
        transitions++;
        World wf;
        for (int impl = 0; impl < NIMPL; impl++) {
            if (!(op.impls & (1u << impl))) continue;
            const World* start;
            World succ;
            if (impl == CPPF) {
                wf = w;
                for (auto& f : wf.f) {
                    for (auto& x : f.d) x = Num((double)(float)x.v);
                }
                start = &wf;
            } else start = &w;
            succ = *start;
            for (auto& f : succ.f) {
                std::fill(f.touched.begin(), f.touched.end(), 0);
                for (auto& x : f.d) x.m = std::fabs(x.v);
            }
            op.model(succ);
            if (impl == CPPF) mf.load(*start);
            else md.load(*start);
            doing(scen, path, op.label);
#ifdef SCHED
            if (impl != FTN) {
                bool ok = impl == CPPF ? schedules(mf, *start, impl, op, scen, path) : schedules(md, *start, impl, op, scen, path);
                if (!ok) return false;
            }
            if (impl != CPPF || !(op.impls & ~2u)) next = std::move(succ);
            continue;
#endif
#ifdef FOOT
            if (!(impl == CPPF ? footprint(mf, succ, impl, op, scen, path) : footprint(md, succ, impl, op, scen, path))) return false;
            runs++;
            if (impl != CPPF || !(op.impls & ~2u)) next = std::move(succ);
            continue;
#endif
            op.run(impl, md, mf);
            runs++;
            bool ok = impl == CPPF ? compare(mf, *start, succ, 5.97e-8, impl, op, scen, path)
                                   : compare(md, *start, succ, 1.12e-16, impl, op, scen, path);
            if (!ok) return false;
            if (impl != CPPF || !(op.impls & ~2u)) {
                next = std::move(succ);
            }
        }
        return true;
    }
#ifdef FOOT
    // P20: every access of the call is to memory the call describes
    template <class T>
    bool footprint(Mem<T>& mem, const World& succ, int impl, const Op& op, const std::string& scen, const std::string& path)
    {
        auto& F = rt::foot;
        F.n = succ.f.size();
        for (int k = 0; k < F.n; k++) {
            auto& v = mem.b[k];
            const char* lo = (const char*)v.data();
            F.r[k] = {lo, lo + v.size() * sizeof(T), lo + Mem<T>::G * sizeof(T), lo + (Mem<T>::G + succ.f[k].n) * sizeof(T),
                      succ.f[k].touched.data(), (unsigned)sizeof(T), true};
        }
        std::vector<std::vector<T>> before = mem.b;
        rt::foot_begin(__builtin_frame_address(0), impl == FTN);
        op.run(impl, md, mf);
        rt::foot_end();
        cells += F.reads + F.writes;
        F.reads = F.writes = 0;
        for (auto& f : succ.f)
            for (char t : f.touched) changed += t;
        std::string who = fmt("[%s] %s | %s: %s ", scen.c_str(), path.c_str(), op.label.c_str(), implname(impl));
        if (F.bad) {
            static const char* w[] = {"", "reads outside", "writes outside", "writes an element that is not part of the result:"};
            if (F.bad == 4) violation(who + fmt("writes %u bytes of memory that is neither its result nor its own (%s%ld)", F.size, F.elem ? "caller's frame +" : "address class ", F.elem));
            else violation(who + fmt("%s array '%s' (element %ld of %ld)", w[F.bad], succ.f[F.region].name.c_str(), F.elem, succ.f[F.region].n));
            return false;
        }
        for (int k = 0; k < F.n; k++) // the memory agrees with what was observed
            for (size_t i = 0; i < before[k].size(); i++) {
                long e = (long)i - Mem<T>::G;
                if (e >= 0 && e < succ.f[k].n && succ.f[k].touched[e]) continue;
                if (memcmp(&before[k][i], &mem.b[k][i], sizeof(T))) {
                    violation(who + fmt("changed array '%s' element %ld, which is not part of the result", succ.f[k].name.c_str(), e));
                    return false;
                }
            }
        return true;
    }
#endif
#ifdef SCHED
    // P19: every schedule of the parallel iterations gives the same memory
    template <class T>
    bool schedules(Mem<T>& mem, const World& start, int impl, const Op& op, const std::string& scen, const std::string& path)
    {
        auto& S = rt::sched;
        std::string who = fmt("[%s] %s | %s: %s ", scen.c_str(), path.c_str(), op.label.c_str(), implname(impl));
        std::vector<std::vector<T>> ref;
        auto go = [&](int n, const int* order, bool track) {
            mem.load(start);
            S.nthreads = n;
            S.order = order;
            S.track = track;
            op.run(impl, md, mf);
            runs++;
            return true;
        };
        auto same = [&](const char* what) {
            for (size_t k = 0; k < ref.size(); k++) {
                cells += ref[k].size();
                if (memcmp(ref[k].data(), mem.b[k].data(), ref[k].size() * sizeof(T))) {
                    violation(who + fmt("array '%s' depends on the schedule: one thread and %s differ", start.f[k].name.c_str(), what));
                    return false;
                }
            }
            return true;
        };
        // one thread per iteration, conflicting accesses; before any other run, so that state kept from an earlier call does not hide them
        constexpr int MAX = 512;
        S.conflict = false;
        long a0 = S.active;
        go(MAX, nullptr, true);
        if (S.conflict) {
            std::string where = "other memory";
            for (size_t k = 0; k < mem.b.size(); k++) {
                const char* lo = (const char*)mem.b[k].data();
                if (S.addr >= lo && S.addr < lo + mem.b[k].size() * sizeof(T))
                    where = fmt("array '%s' element %ld", start.f[k].name.c_str(), (long)((S.addr - lo) / sizeof(T)) - Mem<T>::G);
            }
            violation(who + fmt("parallel iterations %d and %d both access %s and %s write", S.t1, S.t2, where.c_str(), S.ww ? "both" : "one of them"));
            return false;
        }
        std::vector<std::vector<T>> many = std::move(mem.b);
        changed += S.active - a0;
        go(1, nullptr, false);
        ref = std::move(mem.b);
        mem.b = std::move(many);
        if (!same("one thread per iteration")) return false;
        static std::vector<int> rev;
        if (rev.empty())
            for (int i = 0; i < MAX; i++) rev.push_back(MAX - 1 - i);
        go(MAX, rev.data(), false);
        if (!same("one thread per iteration, last first")) return false;
        for (int n = 2; n <= (deep ? 4 : 2); n++) {
            std::vector<int> p(n);
            for (int i = 0; i < n; i++) p[i] = i;
            do {
                go(n, p.data(), false);
                if (!same(fmt("%d threads in order %d,%d,..", n, p[0], p[1]).c_str())) return false;
            } while (std::next_permutation(p.begin(), p.end()));
        }
        for (int n : {3, 5}) {
            if (!deep && n == 5) break;
            go(n, rev.data() + MAX - n, false);
            if (!same(fmt("%d threads, last first", n).c_str())) return false;
        }
        return true;
    }
#endif
    double tolfactor = 64;
    template <class T>
    bool compare(Mem<T>& mem, const World& start, const World& succ, double eps, int impl, const Op& op,
                 const std::string& scen, const std::string& path)
    {
        constexpr long G = Mem<T>::G;
        for (size_t k = 0; k < succ.f.size(); k++) {
            const Field& f = succ.f[k];
            const T* p = mem.b[k].data();
            for (long i = 0; i < G; i++) {
                T g = Mem<T>::guard(i);
                if (memcmp(&p[i], &g, sizeof(T)) || memcmp(&p[G + f.n + i], &g, sizeof(T))) {
                    violation(fmt("[%s] %s | %s: %s wrote outside array '%s' (guard offset %ld)", scen.c_str(),
                                  path.c_str(), op.label.c_str(), implname(impl), f.name.c_str(), i));
                    return false;
                }
            }
            for (long i = 0; i < f.n; i++) {
                cells++;
                double got = (double)p[G + i];
                const Num& want = f.d[i];
                bool ok;
                if (!f.touched[i]) ok = got == want.v && std::signbit(got) == std::signbit(want.v);
                else {
                    changed++;
                    if (std::isnan(want.v) || std::isinf(want.v))
                        ok = !std::isfinite(got); // degenerate data: only require it to show
                    else ok = std::fabs(got - want.v) <= tolfactor * eps * want.m + 1e-300;
                }
                if (!ok) {
                    long r = i;
                    int x[4] = {0, 0, 0, 0};
                    // decode (largest stride first)
                    for (int rep = 0; rep < 4; rep++) {
                        int b = -1;
                        for (int q = 0; q < 4; q++)
                            if (f.st[q] > 0 && f.st[q] <= r && (b < 0 || f.st[q] > f.st[b])) b = q;
                        if (b < 0) break;
                        x[b] = r / f.st[b];
                        r %= f.st[b];
                    }
                    violation(fmt("[%s] %s | %s: %s %s %s(%d,%d,%d;%d) = %.17g, expected %.17g (was %.17g)",
                                  scen.c_str(), path.c_str(), op.label.c_str(), implname(impl),
                                  f.touched[i] ? "computed" : "must not write but changed", f.name.c_str(),
                                  x[0] + f.lo[0], x[1] + f.lo[1], x[2] + f.lo[2], x[3], got, want.v,
                                  start.f[k].d[i].v));
                    return false;
                }
            }
        }
        return true;
    }

    static std::pair<uint64_t, uint64_t> hash(const World& w)
    {
        uint64_t a = 0x1234567, b = 0x89abcdef;
        for (auto& f : w.f)
            for (auto& x : f.d) {
                uint64_t u;
                double v = x.v;
                memcpy(&u, &v, 8);
                a = mix64(a ^ u);
                b = mix64(b + u * 0x9ddfea08eb382d69ull);
            }
        return {a, b};
    }

    int maxdepth = 1 << 20;
    // Breadth-first exploration of all operation sequences up to `depth` from w0.
    bool explore(const World& w0, const std::vector<OpP>& ops, int depth, const std::string& scen)
    {
        struct Node {
            World w;
            std::string path;
        };
        if (depth > maxdepth) depth = maxdepth;
        std::set<std::pair<uint64_t, uint64_t>> seen;
        std::vector<Node> cur, nxt;
        cur.push_back({w0, ""});
        seen.insert(hash(w0));
        states++;
        for (int d = 0; d < depth; d++) {
            nxt.clear();
            for (auto& nd : cur)
                for (auto& op : ops) {
                    World s;
                    if (!step(nd.w, *op, s, scen, nd.path)) return false;
                    auto h = hash(s);
                    if (seen.insert(h).second) {
                        states++;
                        if (d + 1 < depth) nxt.push_back({std::move(s), nd.path + (nd.path.empty() ? "" : " ; ") + op->label});
                        if (samples.size() < 4 && d + 1 == depth)
                            sample("[" + scen + "] " + nd.path + (nd.path.empty() ? "" : " ; ") + op->label);
                    }
                }
            cur.swap(nxt);
        }
        return true;
    }
};

// property entry point, defined by each check
void check(Ctx&);

inline std::string readall(const std::string& p)
{
    std::string s;
    if (FILE* f = fopen(p.c_str(), "r")) {
        char b[65536];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
        fclose(f);
    }
    return s;
}

// main: <prog> --prop P --out DIR [--thorough] [--seed S] [--workers N] | --replay FILE
inline int core_main(int argc, char** argv)
{
    Ctx c;
    int workers = 8;
    std::string replay;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nextarg = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") c.prop = nextarg();
        else if (a == "--out") c.out = nextarg();
        else if (a == "--thorough") c.thorough = true;
        else if (a == "--deep") c.deep = true;
        else if (a == "--seed") c.seed = atol(nextarg().c_str());
        else if (a == "--depth") c.maxdepth = atoi(nextarg().c_str());
        else if (a == "--workers") workers = atoi(nextarg().c_str());
        else if (a == "--replay") replay = nextarg();
        else if (a == "--known") {
            std::string pat = nextarg();
            c.known.emplace_back(pat, nextarg());
        }
    }
    c.t0 = Ctx::now();
    if (!replay.empty()) {
        long scen = -1, seed = 1, thorough = 0;
        std::string s = readall(replay);
        auto field = [&](const char* k, long d) {
            auto p = s.find(std::string(k) + "=");
            return p == std::string::npos ? d : atol(s.c_str() + p + strlen(k) + 1);
        };
        scen = field("scenario", -1);
        seed = field("seed", 1);
        thorough = field("thorough", 0);
        c.deep = field("deep", 0);
        c.only = scen;
        if (long w = field("worker", -1); w >= 0) {
            c.only = -1;
            c.shard = w;
            c.shards = workers;
        }
        c.seed = seed;
        c.thorough = thorough;
        check(c);
        if (c.bad) {
            printf("REPRODUCED %s\n", c.what.c_str());
            return 1;
        }
        printf("not reproduced\n");
        return 0;
    }
    std::vector<pid_t> pids;
    auto* notes = (Ctx::Note*)mmap(nullptr, sizeof(Ctx::Note) * workers, PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int k = 0; k < workers; k++) {
        pid_t p = fork();
        if (p == 0) {
            c.note = notes + k;
            c.shard = k;
            c.shards = workers;
            check(c);
            FILE* f = fopen((c.out + fmt("/w%d.json", k)).c_str(), "w");
            fprintf(f,
                    "{\"bad\":%s,\"scenario\":%ld,\"what\":\"%s\",\"scenarios\":%ld,\"mine\":%ld,\"states\":%ld,"
                    "\"transitions\":%ld,\"runs\":%ld,\"cells\":%ld,\"changed\":%ld,\"bounds\":\"%s\",\"kinds\":[",
                    c.bad ? "true" : "false", c.bad_scen, jesc(c.what).c_str(), c.scenarios, c.mine, c.states,
                    c.transitions, c.runs, c.cells, c.changed, jesc(c.bounds).c_str());
            bool first = true;
            for (auto& s : c.kinds) fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()), first = false;
            fprintf(f, "],\"samples\":[");
            for (size_t i = 0; i < c.samples.size(); i++)
                fprintf(f, "%s\"%s\"", i ? "," : "", jesc(c.samples[i]).c_str());
            fprintf(f, "],\"known\":[");
            first = true;
            for (auto& s : c.found) fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()), first = false;
            fprintf(f, "]}\n");
            fclose(f);
            _exit(0);
        }
        pids.push_back(p);
    }
    int rc = 0;
    for (size_t k = 0; k < pids.size(); k++) {
        int st;
        waitpid(pids[k], &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { // the machine ran out of memory: no verdict
            rc = 3;
            continue;
        }
        if (WIFSIGNALED(st)) { // the code under test crashed or does not terminate
            const char* why = WTERMSIG(st) == SIGALRM ? "does not terminate" : strsignal(WTERMSIG(st));
            FILE* f = fopen((c.out + fmt("/w%zu.json", k)).c_str(), "w");
            fprintf(f, "{\"bad\":true,\"crash\":true,\"scenario\":%ld,\"what\":\"%s: %s\"}\n", notes[k].scen, why,
                    jesc(notes[k].text).c_str());
            fclose(f);
        } else rc = 3;
    }
    return rc;
}
