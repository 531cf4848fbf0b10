template <int D> static bool run(Ctx& c, const Box& b, int sg, int k, int pat, int depth, bool sub, const std::vector<int>& ratios)
{
    if (!c.scenario()) return true;
    static const StSys<1>::Par par[3] = {{1.0, 0.5, 0.25}, {-0.75, 2.0, 1.5}, {0.0, -1.0, 0.5}};
    int dxi = (k + sg + pat) % 3;
    StSys<D> s{b, b, b, sg, 1, {DXS[dxi][0], DXS[dxi][1], DXS[dxi][2]}};
    std::string lab = fmt("%dD box %s sgcw %d par#%d dx#%d data#%d", D, b.str().c_str(), sg, k, dxi, pat);
    World w = s.world(c.seed, pat);
    std::vector<OpP> ops;
    typename StSys<D>::Par P{par[k].beta, par[k].dirf, par[k].neuf};
    for (auto& g : s.segments(sub)) s.adjust(ops, g, P, ratios);
    for (auto& o : ops) c.kinds.insert(fmt("%dD ", D) + o->label.substr(0, o->label.find(' ')));
    return c.explore(w, ops, depth, lab);
}
template <int D> static bool extreme(Ctx& c, const Extreme& x)
{
    if (!c.scenario()) return true;
    static const StSys<1>::Par par[4] = {{1.0, 1.0, 1.0}, {-1.0, 0.5, 2.0}, {0x1p-8, 64.0, 0x1p-6}, {1.0, 0.0, 0.0}};
#ifdef WITH_NODE
    int sg = 0;
#else
    int sg = x.k % 3;
#endif
    StSys<D> s{x.b, x.b, x.b, sg, 1, {x.h()[0], x.h()[1], x.h()[2]}};
    std::vector<OpP> ops;
    auto& k = par[x.k % 4];
    typename StSys<D>::Par P{k.beta, k.dirf, k.neuf};
    for (auto& g : s.segments(false)) s.adjust(ops, g, P, {2, 7, 16});
    return c.explore(s.world(c.seed, x.pat), ops, 1, fmt("%dD box %s sgcw %d case#%d dx %g,%g,%g data#%d", D, x.b.str().c_str(), sg, x.k, s.dx[0], s.dx[1], s.dx[2], x.pat));
}
template <int D> static void dim(Ctx& c)
{
    for (auto& x : extremes<D>(c.thorough))
        if (!extreme<D>(c, x)) return;
#ifdef WITH_NODE
    const int sgmin = 0, sgmax = 0;
#else
    const int sgmin = 0, sgmax = 1;
#endif
    std::vector<std::vector<int>> org = {{0, 0, 0}, {-3, 2, -1}};
    // single adjustments: every segment, many boxes
    std::vector<int> e1 = D == 1 ? std::vector<int>{1, 2, 3, 5} : D == 2 ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2, 3};
    if (c.thorough) e1 = D == 3 ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 2, 3, 4, 5};
#ifdef SCHED // which accesses are made depends on neither the data nor the value of the ratio
    const int pats = c.thorough || c.deep ? 2 : 1;
    const std::vector<int> ratios = {2, 3};
#else
    const int pats = 2;
    const std::vector<int> ratios = {1, 2, 3, 4};
#endif
    for (auto& b : boxes<D>(e1, org))
        for (int sg = sgmin; sg <= sgmax; sg++)
            for (int k = 0; k < 3; k++)
                for (int pat = 0; pat < pats; pat++)
                    if (!run<D>(c, b, sg, k, pat, 1, true, ratios)) return;
    for (auto& b : longboxes<D>(false))
        for (int k = 0; k < (D == 3 && !c.thorough ? 1 : 3); k++)
            if (!run<D>(c, b, sgmax * (1 + 2 * k), k, k % 2, 1, false, {2, 3, 5})) return;
    // all histories of two (and in one dimension three) adjustments on full sides
    std::vector<int> e2 = D == 3 ? std::vector<int>{1, 2} : std::vector<int>{1, 2, 3};
    for (auto& b : boxes<D>(e2, {{-1, 0, 1}}))
        for (int k = 0; k < 2; k++)
            if (!run<D>(c, b, sgmax, k, 0, D == 1 ? 3 : 2, false, {2})) return;
    if (c.thorough)
        for (auto& b : boxes<D>(D == 3 ? std::vector<int>{1, 2} : std::vector<int>{1, 2, 4}, {{-1, 0, 1}}))
            for (int k = 0; k < 3; k++)
                if (!run<D>(c, b, sgmin, k, 1, D == 1 ? 4 : 2, D == 2, {2, 4})) return;
}
#ifndef WITH_NODE
void check(Ctx& c)
{
    c.bounds = "1-3D: every adjustment kernel x side x sub-segment x condition type x order x ratio on small boxes from "
               "fresh data; all histories of length 2 (1D: 3) on full sides, empty and disjoint segments, long boxes"
               "; unusual cases: boxes to 70001 cells long and 300x260, 41x37x33 cells, 10^6 from the origin, equal, tiny and huge spacings, zero, constant, tiny, huge data";
    dim<1>(c);
    dim<2>(c);
    dim<3>(c);
}
#endif
