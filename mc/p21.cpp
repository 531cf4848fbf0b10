// P21: the array container: histories of host and device accesses, and where an index lives
#include "core.h"
#include "md_device_vector.hpp"

// ---- histories -------------------------------------------------------------------------------
// The model: a host copy, a device copy, whether the device may have been written since the last synchronisation
// and whether the host copy was written behind it (then only host reads and operations that push it are explored).
template <class V, class T> struct CNode {
    V v;
    std::vector<T> H, D;
    bool dev = false, ahead = false;
    std::string path;
    std::string key() const
    {
        std::string s((const char*)H.data(), H.size() * sizeof(T));
        s.append((const char*)D.data(), D.size() * sizeof(T));
        return s + char(dev) + char(ahead);
    }
};
template <class T> static std::string strv(const std::vector<T>& v)
{
    std::string s = "{";
    for (auto x : v) s += fmt("%s%g", s.size() > 1 ? "," : "", (double)x);
    return s + "}";
}
template <class T, class V> static std::vector<T> devcopy(const V& v) // what a kernel would see
{
    V c(v);
    const T* p = c.data();
    return std::vector<T>(p, p + v.size());
}
template <class T, class V> static std::vector<T> hostcopy(const V& v)
{
    const T* p = v.host_data();
    return std::vector<T>(p, p + v.size());
}
template <class T, class V> static void history(Ctx& c, const std::string& name, V v0, int n, int row, int vals, long maxstates)
{
    if (!c.scenario()) return;
    c.kinds.insert("container histories");
    using N = CNode<V, T>;
    std::string scen = fmt("%s of %d %s", name.c_str(), n, std::is_same_v<T, int> ? "int" : std::is_same_v<T, float> ? "float" : "double");
    std::set<std::string> seen;
    std::vector<N> cur, nxt;
    auto bad = [&](const std::string& path, const std::string& s) { c.violation(fmt("%s%s: %s", scen.c_str(), path.c_str(), s.c_str())); };
    // everything a user can see of the container
    auto ok = [&](const N& m) {
        c.cells += 4 * n, c.changed += 4 * n;
        if (m.v.size() != n) return bad(m.path, fmt("size() is %d", m.v.size())), false;
        if (auto d = devcopy<T>(m.v); !m.ahead && d != m.D) return bad(m.path, "a kernel sees " + strv(d) + ", expected " + strv(m.D)), false;
        if (auto h = hostcopy<T>(m.v); !m.dev && h != m.H) return bad(m.path, "the host copy is " + strv(h) + ", expected " + strv(m.H)), false;
        V a(m.v), b(m.v);
        const auto& h = a.host();
        std::vector<T> hv(h.begin(), h.end()), sv = b, want = m.dev ? m.D : m.H;
        if (hv != want) return bad(m.path, "host() is " + strv(hv) + ", expected " + strv(want)), false;
        if (sv != want) return bad(m.path, "the std::vector is " + strv(sv) + ", expected " + strv(want)), false;
        return true;
    };
    N root{v0, std::vector<T>(n, T(0)), std::vector<T>(n, T(0)), false, false, ""};
    c.doing(scen, "", "");
    if (!ok(root)) return;
    seen.insert(root.key());
    c.states++;
    cur.push_back(root);
    while (!cur.empty() && (long)seen.size() < maxstates) {
        nxt.clear();
        for (auto& s : cur) {
            auto go = [&](const std::string& how, auto f) {
                N m = s; // a copy: the original must not notice
                m.path += " " + how + ";";
                c.transitions++, c.runs++;
                c.doing(scen, m.path, "");
                std::string err = f(m);
                if (!err.empty()) return bad(m.path, err), false;
                if (!ok(m)) return false;
                if (seen.insert(m.key()).second) c.states++, nxt.push_back(std::move(m));
                return true;
            };
            if (!s.ahead) {
                for (int i = 0; i < n; i++)
                    for (int x = 0; x < vals; x++)
                        if (!go(fmt("kernel writes [%d]=%d", i, x), [&](N& m) {
                                m.v.data()[i] = T(x);
                                m.D[i] = T(x), m.dev = true;
                                return std::string();
                            }))
                            return;
                if (!go("kernel writes [0]=1 and the last after that", [&](N& m) { // one pointer, several writes
                        T* p = m.v.data();
                        p[0] = T(1), p[n - 1] = T(0);
                        m.D[0] = T(1), m.D[n - 1] = T(0), m.dev = true;
                        return std::string();
                    }))
                    return;
                if (!go("const data()", [&](N& m) {
                        const V& k = m.v;
                        const T* p = k.data();
                        m.dev = true;
                        return std::vector<T>(p, p + n) == m.D ? std::string() : std::string("the kernel reads something else");
                    }))
                    return;
            }
            if (!go("host()", [&](N& m) {
                    const auto& h = m.v.host();
                    std::vector<T> g(h.begin(), h.end());
                    if (m.dev) m.H = m.D, m.dev = false;
                    return g == m.H ? std::string() : "host() is " + strv(g) + ", expected " + strv(m.H);
                }))
                return;
            if (!go("std::vector", [&](N& m) {
                    std::vector<T> g = m.v;
                    if (m.dev) m.H = m.D, m.dev = false;
                    return g == m.H ? std::string() : "the std::vector is " + strv(g) + ", expected " + strv(m.H);
                }))
                return;
            if (!s.dev)
                for (int i = 0; i < n; i++)
                    for (int x = 0; x < vals; x++)
                        if (!go(fmt("host_data()[%d]=%d", i, x), [&](N& m) {
                                m.v.host_data()[i] = T(x);
                                m.H[i] = T(x), m.ahead = m.H != m.D;
                                return std::string();
                            }))
                            return;
            for (int x = 0; x < vals; x++)
                if (!go(fmt("fill_random(%d,%d)", x, x), [&](N& m) {
                        m.v.fill_random(T(x), T(x));
                        m.H.assign(n, T(x)), m.D = m.H, m.dev = m.ahead = false;
                        return std::string();
                    }))
                    return;
            if (row > 0) {
                int tot = 1;
                for (int k = 0; k < row; k++) tot *= vals;
                for (int r = 0; r < n / row; r++)
                    for (int k = 0; k < tot; k++) {
                        int x[3] = {k % vals, k / vals % vals, k / vals / vals};
                        if (!go(fmt("set_offset(%d, %s)", r, strv(std::vector<int>(x, x + row)).c_str()), [&](N& m) {
                                if (row == 1) m.v.set_offset(r, x[0]);
                                else if (row == 2) m.v.set_offset(r, x[0], x[1]);
                                else m.v.set_offset(r, x[0], x[1], x[2]);
                                if (m.dev) m.H = m.D;
                                for (int q = 0; q < row; q++) m.H[r * row + q] = T(x[q]);
                                m.D = m.H, m.dev = m.ahead = false;
                                return std::string();
                            }))
                            return;
                    }
            }
            if (!go("assigned to a filled container", [&](N& m) {
                    V t(v0);
                    t.fill_random(T(1), T(1));
                    t = m.v;
                    m.v = t;
                    return std::string();
                }))
                return;
            N again = s;
            if (!ok(again)) return; // operations on copies left the original alone
        }
        cur.swap(nxt);
    }
    c.sample(scen + fmt(": %zu states", seen.size()));
}

// ---- layout ----------------------------------------------------------------------------------
// filled within the asked range, both copies alike
template <class T, class V> static bool filled(V& v, T a, T b)
{
    v.fill_random(a, b);
    auto d = devcopy<T>(v);
    std::vector<T> h = v;
    for (auto x : h)
        if (!(x >= a && x <= b)) return false;
    return d == h;
}
template <class T, class V> static bool place(Ctx& c, V& v, const Field& f, const std::vector<int>& slow, const std::string& who)
{
    auto bad = [&](const std::string& s) { return c.violation(who + ": " + s), false; };
    if (v.size() != f.n) return bad(fmt("size() is %d, expected %ld", v.size(), f.n));
    for (size_t k = 0; k < slow.size(); k++)
        if (int e = f.hi[slow[k]] - f.lo[slow[k]] + 1; v.dim(k) != e) return bad(fmt("dim(%zu) is %d, expected %d", k, v.dim(k), e));
    for (T x : (std::vector<T>)v)
        if (x != T(0)) return bad("not zero when constructed");
    if (!filled<T>(v, T(0), T(1)) || !filled<T>(v, T(2), T(4))) return bad("fill_random leaves the two copies different or values outside the range");
    int x[4];
    for (x[3] = f.lo[3]; x[3] <= f.hi[3]; x[3]++)
        for (x[2] = f.lo[2]; x[2] <= f.hi[2]; x[2]++)
            for (x[1] = f.lo[1]; x[1] <= f.hi[1]; x[1]++)
                for (x[0] = f.lo[0]; x[0] <= f.hi[0]; x[0]++) {
                    c.transitions++, c.runs++, c.cells++, c.changed++, c.states++;
                    long want = 0;
                    for (int q : slow) want += (x[q] - f.lo[q]) * f.st[q];
                    int got = -1;
                    if (slow.size() == 1) {
                        if constexpr (V::N == 1) got = v.index(x[slow[0]]);
                    } else if (slow.size() == 2) {
                        if constexpr (V::N == 2) got = v.index(x[slow[0]], x[slow[1]]);
                    } else if (slow.size() == 3) {
                        if constexpr (V::N == 3) got = v.index(x[slow[0]], x[slow[1]], x[slow[2]]);
                    } else if constexpr (V::N == 4) got = v.index(x[slow[0]], x[slow[1]], x[slow[2]], x[slow[3]]);
                    if (got != want) return bad(fmt("index(%d,%d,%d;%d) is %d, expected %ld", x[0], x[1], x[2], x[3], got, want));
                }
    return true;
}
template <class T, int... O> struct Lay {
    static std::vector<int> slow() { return {(O == 3 ? 3 : 2 - O)...}; }
    static void run(Ctx& c, const std::vector<int>& ext)
    {
        constexpr int N = sizeof...(O);
        long tot = 1;
        for (int k = 0; k < N; k++) tot *= ext.size();
        static const int org[4] = {-2, 0, 3, -1};
        for (long k = 0; k < tot; k++)
            for (int g = 0; g <= 3; g++) {
                if (!c.scenario()) continue;
                c.kinds.insert(fmt("layout of %d-dimensional containers", N));
                int lo[4] = {0, 0, 0, 0}, hi[4] = {0, 0, 0, 0};
                long m = k;
                for (int q : slow()) lo[q] = org[q], hi[q] = lo[q] + ext[m % ext.size()] - 1, m /= ext.size();
                auto bn = [&](auto d) { return lazy::dir_bounds<decltype(d)::value>(lo[d.value == 3 ? 3 : 2 - d.value], hi[d.value == 3 ? 3 : 2 - d.value]); };
                // Field's window starts at 0: place it by hand
                auto field = [&](int gg) {
                    std::vector<int> fast = slow();
                    std::reverse(fast.begin(), fast.end());
                    int l[4], h[4];
                    for (int q = 0; q < 3; q++) {
                        bool has = std::find(fast.begin(), fast.end(), q) != fast.end();
                        l[q] = lo[q] - (has ? gg : 0), h[q] = hi[q] + (has ? gg : 0);
                    }
                    Field f("v", fast, l, h, hi[3] - lo[3] + 1);
                    f.lo[3] = std::find(fast.begin(), fast.end(), 3) != fast.end() ? lo[3] : 0;
                    f.hi[3] = f.lo[3] + (f.lo[3] == 0 && std::find(fast.begin(), fast.end(), 3) == fast.end() ? 0 : hi[3] - lo[3]);
                    return f;
                };
                std::string who = fmt("container, order");
                for (int q : slow()) who += fmt(" %c %d..%d", "xyzw"[q], lo[q], hi[q]);
                who += fmt(", ghosts %d", g);
                c.doing(who, "", "");
                auto a = make_md_vec<T>(g, bn(std::integral_constant<int, O>{})...);
                if (!place<T>(c, a, field(g), slow(), who)) return;
                if (g == 0) {
                    auto b = make_md_vec<T>(bn(std::integral_constant<int, O>{})...);
                    if (!place<T>(c, b, field(0), slow(), who + " (no ghosts given)")) return;
                }
            }
    }
};
static void tables(Ctx& c)
{
    for (int n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 27, 300, 70001})
        for (int d = 1; d <= 3; d++) {
            if (!c.scenario()) continue;
            c.kinds.insert("offset tables");
            std::string who = fmt("make_offset_vec(%d, %d)", n, d);
            c.doing(who, "", "");
            auto o = make_offset_vec(n, d);
            int lo[3] = {0, 0, 0}, hi[3] = {d - 1, 0, 0};
            Field f("o", {0, 3}, lo, hi, n);
            if (!place<int>(c, o, f, {3, 0}, who)) return;
            std::vector<int> want(n * d, 7);
            o.fill_random(7, 7);
            for (int r : {n - 1, 0, n / 2}) {
                int x[3] = {r - 4, -r, 2 * r + 1};
                if (d == 1) o.set_offset(r, x[0]);
                else if (d == 2) o.set_offset(r, x[0], x[1]);
                else o.set_offset(r, x[0], x[1], x[2]);
                for (int q = 0; q < d; q++) want[r * d + q] = x[q];
                if ((std::vector<int>)o != want || devcopy<int>(o) != want) return c.violation(who + fmt(": set_offset of row %d does not leave exactly that row", r));
            }
        }
}
template <class T> static void copies(Ctx& c)
{
    for (int n : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 300, 70001}) {
        if (!c.scenario()) continue;
        std::vector<T> v(n);
        for (int i = 0; i < n; i++) v[i] = T(3 * i - 5);
        thrust::device_vector<T> d(v);
        c.transitions++, c.runs++, c.states++, c.cells += n, c.changed += n;
        if (to_std(d) != v) return c.violation(fmt("to_std of %d elements differs", n));
    }
}
template <class T> static void histories(Ctx& c)
{
    const long M = 2000000;
    history<T>(c, "x 0..0", make_md_vec<T>(Ib{0, 0}), 1, 1, 3, M);
    history<T>(c, "x -1..1", make_md_vec<T>(Ib{-1, 1}), 3, 3, 2, M);
    history<T>(c, "x 0..0 with ghosts 1", make_md_vec<T>(1, Ib{0, 0}), 3, 0, 3, M);
    history<T>(c, "w 0..1, x 0..1", make_md_vec<T>(Wb{0, 1}, Ib{0, 1}), 4, 2, 2, M);
    history<T>(c, "w 0..0, x 0..2", make_md_vec<T>(Wb{0, 0}, Ib{0, 2}), 3, 3, 2, M);
    history<T>(c, "w 0..2, x 0..0", make_md_vec<T>(Wb{0, 2}, Ib{0, 0}), 3, 1, 3, M);
    history<T>(c, "z 1..2, y 0..1, x -1..-1", make_md_vec<T>(Kb{1, 2}, Jb{0, 1}, Ib{-1, -1}), 4, 1, 2, M);
    history<T>(c, "w 0..1, x 0..2", make_md_vec<T>(Wb{0, 1}, Ib{0, 2}), 6, 3, 2, M);
    history<T>(c, "w 0..2, x 0..1", make_md_vec<T>(Wb{0, 2}, Ib{0, 1}), 6, 2, 2, M);
    history<T>(c, "x 0..4", make_md_vec<T>(Ib{0, 4}), 5, 0, 2, M);
    history<T>(c, "w 0..3, x 0..0", make_md_vec<T>(Wb{0, 3}, Ib{0, 0}), 4, 1, 3, M);
    if (c.thorough) {
        history<T>(c, "w 0..4, x 0..0", make_md_vec<T>(Wb{0, 4}, Ib{0, 0}), 5, 1, 3, M);
        history<T>(c, "y 0..1, x 0..3", make_md_vec<T>(Jb{0, 1}, Ib{0, 3}), 8, 0, 2, M);
        history<T>(c, "w 0..1, x 0..1, 4 values", make_md_vec<T>(Wb{0, 1}, Ib{0, 1}), 4, 2, 4, M);
    }
}
static void offs(Ctx& c)
{
    history<int>(c, "make_offset_vec(2, 2)", make_offset_vec(2, 2), 4, 2, 2, 1000000);
    history<int>(c, "make_offset_vec(3, 1)", make_offset_vec(3, 1), 3, 1, 3, 1000000);
    history<int>(c, "make_offset_vec(1, 3)", make_offset_vec(1, 3), 3, 3, 2, 1000000);
    history<int>(c, "make_offset_vec(2, 3)", make_offset_vec(2, 3), 6, 3, 2, 2000000);
}
template <class T> static void layouts(Ctx& c)
{
    std::vector<int> e = c.thorough ? std::vector<int>{1, 2, 3, 5, 8} : std::vector<int>{1, 2, 4}, s = c.thorough ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2};
    Lay<T, 2>::run(c, {1, 2, 3, 7, 12, 70001});
    Lay<T, 1>::run(c, {1, 2, 3, 7});
    Lay<T, 0>::run(c, {1, 2, 3, 7});
    auto e2 = e;
    e2.push_back(260); // products beyond 16 bits
    Lay<T, 1, 2>::run(c, e2);
    Lay<T, 2, 1>::run(c, e2);
    Lay<T, 0, 2>::run(c, e);
    Lay<T, 2, 3>::run(c, e);
    Lay<T, 3, 2>::run(c, e);
    Lay<T, 0, 1, 2>::run(c, e);
    Lay<T, 2, 0, 1>::run(c, e);
    Lay<T, 1, 2, 0>::run(c, e);
    Lay<T, 2, 1, 0>::run(c, e);
    Lay<T, 1, 2, 3>::run(c, e);
    Lay<T, 0, 1, 2, 3>::run(c, s);
    Lay<T, 2, 0, 1, 3>::run(c, s);
    Lay<T, 1, 2, 0, 3>::run(c, s);
}
void check(Ctx& c)
{
    c.bounds = "histories of kernel writes through data(), host writes through host_data(), host(), conversion, fill, set_offset and copying, to a fixpoint of the state graph, on containers of "
               "1..6 (thorough 8) elements over 2 or 3 (4) values, int/float/double; layouts of all small boxes in 16 storage orders with ghosts 0..3, rows of 70001 and planes of 260x260; offset tables of 1..9, 27, 300 and 70001 rows in 1..3 dimensions";
    histories<double>(c);
    histories<float>(c);
    histories<int>(c);
    offs(c);
    layouts<double>(c);
    layouts<int>(c);
    tables(c);
    copies<double>(c);
    copies<int>(c);
}
int main(int argc, char** argv) { return core_main(argc, argv); }
