// Generator for the standard container scenarios (C17, C14).
#include "../sim/rt.h"
#include "stl.h"

namespace sim
{
    static void gen_stl(Rng& r, Plan& p, bool lives)
    {
        p.knobs.resize(K_USER + 9, 0);
        bool mt = r.chance(30);
        int env = mt ? int(r.range(SE_MT_FIRST, SE_NUM - 1)) : int(r.range(0, SE_MT_FIRST - 1));
        if (lives && !mt && r.chance(50)) env = r.pick(std::vector<int>{ SE_CONSTRUCT, SE_CONSTRUCT, SE_SPLIT, SE_SPARE });
        int clients = mt ? int(r.range(2, 3)) : 1;
        p.knobs[K_USER] = env; p.knobs[K_CLIENTS] = clients;
        const std::vector<int> tracked{ SK_VEC_TR, SK_DEQUE_TR, SK_LIST_TR, SK_MAP_TR, SK_UMAP_TR };
        for (int i = 0; i < 8; i++) p.knobs[size_t(K_USER + 1 + i)] = lives && r.chance(70) ? r.pick(tracked) : int(r.range(0, SK_NUM - 1));
        //              con cpy mov xcp xmv asg mas swp trf des slf chk add ad2 mid rng rem rmr rsz clr spc fnd
        int w[SO_NUM] = { 8, 4,  4,  4,  4,  4,  4,  4,  6,  2,  1,  1,  14, 6,  6,  5,  6,  4,  4,  2,  4,  4 };
        int total = 0;
        for (int i = 0; i < SO_NUM; i++) { if (i && r.chance(20)) w[i] = 0; total += w[i]; }
        int n = mt ? int(r.range(3, 7)) * clients : int(r.range(3, 24));
        int slots = int(r.range(1, 4));
        for (int i = 0; i < n; i++)
        {
            Op o; o.id = i; o.client = mt ? (i < clients ? i + 1 : int(r.range(1, clients))) : 1;
            int x = int(r.below(uint64_t(total))), k = 0; while (x >= w[k]) x -= w[k++];
            if (i < (mt ? clients : 2)) k = SO_CONSTRUCT;
            o.kind = k; o.a = int64_t(r.below(uint64_t(slots))); o.b = int64_t(r.below(32)); o.c = int64_t(r.below(64));
            if (!mt && i == 1) o.a = p.ops[0].a ^ 1;
            p.ops.push_back(o);
        }
        if (mt) gen_schedule(r, p, clients, 60);
    }
    static Scenario* make_stl(const Plan& p)
    {
        int e = int(p.knob(K_USER) % SE_NUM); Scenario* s = make_stl1(e, p);
        if (!s) s = make_stl2(e, p);
        if (!s) s = make_stl3(e, p);
        if (!s) s = make_stl4(e, p);
        if (!s) s = make_stl5(e, p);
        return s;
    }
    static Register regStl({ "std-containers", "C17", 1, [](Rng& r, Plan& p) { gen_stl(r, p, false); }, make_stl });
    static Register regStlLives({ "std-lives", "C14", 1, [](Rng& r, Plan& p) { gen_stl(r, p, true); }, make_stl });
}
