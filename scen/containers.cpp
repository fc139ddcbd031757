// Generators for the trivial_vector and trivial_array scenarios (C12, C15, C16).
#include "containers.h"

namespace sim
{
    enum Mode { M_SEQ, M_OWN, M_REFUSE };

    static void gen_cont(Rng& r, Plan& p, Mode mode)
    {
        p.knobs.resize(K_USER + 2, 0);
        int kit;
        switch (mode)
        {
        case M_SEQ: kit = int(r.range(0, KIT_NUM - 1)); break;
        case M_OWN: kit = r.chance(35) ? int(r.range(KIT_INST_INT, KIT_SHARED_P32)) : r.chance(40) ? int(r.range(KIT_MT, KIT_NUM - 1)) : int(r.range(0, KIT_NUM - 1)); break;
        default: do kit = r.chance(40) ? int(r.range(KIT_INST_INT, KIT_SHARED_P32)) : int(r.range(0, KIT_NUM - 1)); while (kit == KIT_STD_P12);
        }
        bool mt = kit >= KIT_MT, vec = r.chance(65);
        int clients = mt ? int(r.range(2, 3)) : 1;
        p.knobs[K_USER] = kit; p.knobs[K_USER + 1] = vec; p.knobs[K_CLIENTS] = clients;
        //              con cpy mov xcp xmv asg mas swp des slf rsz wri chk psh pmv prg emb emp era err pop clr rsv pss ems fil mass
        int w[CO_NUM] = { 8, 4,  4,  4,  4,  4,  4,  3,  3,  2,  7,  3,  1,  12, 5,  7,  5,  6,  5,  5,  4,  2,  4,  3,  3,  4,  0 };
        if (mode == M_OWN) for (int k = CO_COPY; k <= CO_DESTROY; k++) w[k] *= 3;
        if (mode == M_REFUSE) { w[CO_RESERVE] *= 2; w[CO_RESIZE] *= 2; }
        int total = 0;
        for (int i = 0; i < CO_NUM; i++) { if (i && r.chance(20)) w[i] = 0; total += w[i]; }
        int n = mt ? int(r.range(3, 9)) * clients : int(r.range(3, 28));
        int maxn = r.pick(std::vector<int>{ 3, 6, 12, 12, 40 });
        int slots = int(r.range(1, 4));
        for (int i = 0; i < n; i++)
        {
            Op o; o.id = i; o.client = mt ? (i < clients ? i + 1 : int(r.range(1, clients))) : 1;
            int x = int(r.below(uint64_t(total))), k = 0; while (x >= w[k]) x -= w[k++];
            if (i < (mt ? clients : 1)) k = CO_CONSTRUCT;
            o.kind = k; o.a = int64_t(r.below(uint64_t(slots))); o.b = int64_t(r.below(uint64_t(maxn + 1))); o.c = int64_t(r.below(512));
            if (k == CO_RESIZE || k == CO_RESERVE) o.c = mode != M_OWN && r.chance(8) ? 9 : 0;
            p.ops.push_back(o);
        }
        if (r.below(200) == 0)
        {
            // once in a while far more elements; very rarely more than 16 bits can count
            bool huge = !mt && r.below(20) == 0;
            if (huge) p.ops.resize(std::min<size_t>(p.ops.size(), 8));
            Op o; o.kind = CO_MASS; o.a = p.ops[0].a; o.b = huge ? r.range(65000, 70000) : r.range(200, mt ? 700 : 6000); o.c = int64_t(r.below(256));
            size_t at = 1 + size_t(r.below(p.ops.size())); if (huge) p.knobs[K_RED] = 0;
            o.client = mt ? p.ops[0].client : 1;
            p.ops.insert(p.ops.begin() + long(std::min(at, p.ops.size())), o);
            for (size_t i = 0; i < p.ops.size(); i++) p.ops[i].id = int(i);
        }
        if (mt) gen_schedule(r, p, clients, 30);
        if (kit == KIT_STD_P12) return;
        if (mode == M_OWN) gen_faults(r, p, { F_STUB, F_HEAP }, 20, 3, 2);
        if (mode == M_REFUSE) { gen_faults(r, p, { F_STUB, F_HEAP }, 95, 6, 2); }
    }

    static Scenario* make_cont(const Plan& p)
    {
        int kit = int(p.knob(K_USER) % KIT_NUM); Scenario* s;
        if (p.knob(K_USER + 1)) { s = make_vector_kit(kit, p); if (!s) s = make_vector_kit2(kit, p); }
        else { s = make_array_kit(kit, p); if (!s) s = make_array_kit2(kit, p); }
        return s;
    }
    static Register regSeq({ "containers", "C12", 15, [](Rng& r, Plan& p) { gen_cont(r, p, M_SEQ); }, make_cont });
    static Register regOwn({ "container-memory", "C15", 2, [](Rng& r, Plan& p) { gen_cont(r, p, M_OWN); }, make_cont });
    static Register regRef({ "container-refusals", "C16", 2, [](Rng& r, Plan& p) { gen_cont(r, p, M_REFUSE); }, make_cont });
}
