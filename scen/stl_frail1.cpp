#include "stl_frail.h"

namespace sim
{
    static FrailState* g_frails;
    FrailState*& frails() { return g_frails; }

    static Scenario* make_frail(const Plan& p)
    {
        int e = int(p.knob(K_USER) % FE_NUM);
        switch (e)
        {
        case FE_OVERFLOW: return new FrailWorld<EnvOverflow>(p);
        case FE_CONSTRUCT: return new FrailWorld<EnvConstruct>(p);
        case FE_SPLIT: return new FrailWorld<EnvSplit>(p);
        case FE_MALLOC: return new FrailWorld<EnvMalloc>(p);
        default: return make_frail2(e, p);
        }
    }
    static void gen_frail(Rng& r, Plan& p)
    {
        p.knobs.resize(K_USER + 9, 0);
        bool mt = r.chance(20);
        int clients = mt ? int(r.range(2, 3)) : 1;
        p.knobs[K_USER] = mt ? r.range(FE_MT_FIRST, FE_NUM - 1) : r.range(0, FE_MT_FIRST - 1); p.knobs[K_CLIENTS] = clients;
        for (int i = 0; i < 8; i++) p.knobs[size_t(K_USER + 1 + i)] = r.range(0, FK_NUM - 1);
        //              con cpy xcp mov xmv asg mas fil des add ad2 mid  n  rsz era ern clr asn spc
        int w[FO_NUM] = { 4,  4,  2,  2,  2,  4,  3,  4,  2,  9,  9,  7,  6,  4,  4,  3,  1,  4,  4 };
        int total = 0;
        for (int i = 0; i < FO_NUM; i++) { if (i && r.chance(20)) w[i] = 0; total += w[i]; }
        int n = mt ? int(r.range(2, 6)) * clients : int(r.range(3, 16)), slots = int(r.range(1, 4)), bad = int(r.range(5, 50));
        for (int i = 0; i < n; i++)
        {
            Op o; o.id = i; o.client = mt ? (i < clients ? i + 1 : int(r.range(1, clients))) : 1;
            int x = int(r.below(uint64_t(total))), k = 0; while (x >= w[k]) x -= w[k++];
            if (i < (mt ? clients : 2)) k = FO_FILL;
            o.kind = k; o.a = int64_t(r.below(uint64_t(slots))); o.b = int64_t(r.below(64)); o.c = int64_t(r.below(64));
            if (!mt && i == 1) o.a = p.ops[0].a ^ 1;
            if (r.chance(bad)) p.faults.push_back(Fault{ F_ELEM, o.id, r.chance(40) ? int(r.below(3)) : int(r.below(24)), 1 });
            p.ops.push_back(o);
        }
        if (mt) gen_schedule(r, p, clients, 60);
    }
    static Register regFrail({ "std-throwing-elements", "C17", 1, gen_frail, make_frail });
    static Register regFrailLives({ "std-throwing-lives", "C14", 1, gen_frail, make_frail });
}
