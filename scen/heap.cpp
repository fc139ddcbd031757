// Generators for the binary_heap scenarios (C13, C14, C15, C16).
#include "heap.h"

namespace sim
{
    enum HMode { HM_ORDER, HM_LIFE, HM_OWN, HM_REFUSE };

    static void gen_heap(Rng& r, Plan& p, HMode mode)
    {
        p.knobs.resize(K_USER + 1, 0);
        int kit = int(r.range(0, HK_HEAP_NUM - 1));
        if (mode == HM_LIFE && r.chance(50)) kit = r.pick(std::vector<int>{ HK_TR_LESS_INST, HK_TR_GREATER_CONSTRUCT, HK_TR_DIR_SHARED, HK_TR_LESS_OVERFLOW, HK_TR_DIR_CONSTRUCT, HK_INT_DIR_CONSTRUCT, HK_KI_GREATER_OVERFLOW, HK_TR_LESS_SPLIT, HK_TR_GREATER_SPARE, HK_PIN_DIR_INST, HK_PIN_LESS_CONSTRUCT, HK_WIDE_DIR_SPLIT, HK_TR_DIR_INST, HK_TR_DIR_MT, HK_TR_LESS_MTOVERFLOW });
        if (mode == HM_OWN && r.chance(50)) kit = r.pick(std::vector<int>{ HK_INT_LESS_INST, HK_KI_DIR_INST, HK_TR_LESS_INST, HK_TR_DIR_INST, HK_TR_DIR_SHARED, HK_TR_DIR_MT, HK_TR_LESS_MTOVERFLOW });
        if (mode == HM_REFUSE) while (kit == HK_TR_DIR_STD) kit = int(r.range(0, HK_HEAP_NUM - 1));
        bool mt = kit >= HK_HEAP_MT; int clients = mt ? int(r.range(2, 3)) : 1;
        p.knobs[K_USER] = kit; p.knobs[K_CLIENTS] = clients;
        //              con cpy mov xcp xmv asg mas swp des slf rsv chk ins inm inv ise pop pek fnd clr drn fil mas
        int w[HO_NUM] = { 6, 3,  3,  3,  4,  4,  3,  3,  2,  2,  3,  1,  16, 10, 5,  4,  14, 2,  4,  2,  3,  3,  0 };
        if (mode == HM_OWN || mode == HM_LIFE) for (int k = HO_COPY; k <= HO_DESTROY; k++) w[k] *= 2;
        if (mode == HM_ORDER) for (int k = HO_COPY; k <= HO_SELF; k++) w[k] = (w[k] + 1) / 2;
        int total = 0;
        for (int i = 0; i < HO_NUM; i++) { if (i && i != HO_INSERT && r.chance(20)) w[i] = 0; total += w[i]; }
        int n = mt ? int(r.range(3, 8)) * clients : int(r.range(3, mode == HM_ORDER ? 45 : 26));
        int slots = int(r.range(1, mode == HM_ORDER ? 2 : 3)), keys = r.pick(std::vector<int>{ 2, 5, 23, 23 });
        for (int i = 0; i < n; i++)
        {
            Op o; o.id = i; o.client = mt ? (i < clients ? i + 1 : int(r.range(1, clients))) : 1;
            int x = int(r.below(uint64_t(total))), k = 0; while (x >= w[k]) x -= w[k++];
            if (i < (mt ? clients : 1)) k = HO_CONSTRUCT;
            o.kind = k; o.a = int64_t(r.below(uint64_t(slots))); o.b = int64_t(r.below(16)); o.c = int64_t(r.below(1024));
            if (k >= HO_INSERT && k <= HO_INSERTV) o.c = int64_t(r.below(uint64_t(keys)));
            if (k == HO_RESERVE) o.c = mode == HM_REFUSE && r.chance(15) ? 9 : 0;
            p.ops.push_back(o);
        }
        if (r.below(400) == 0)
        {
            bool huge = !mt && r.below(300) == 0;
            if (huge) { p.ops.resize(std::min<size_t>(p.ops.size(), 5)); p.knobs[K_RED] = 0; }
            Op o; o.kind = HO_MASS; o.a = p.ops[0].a; o.b = huge ? r.range(65000, 70000) : r.chance(80) ? r.range(200, 400) : r.range(400, mt ? 500 : 2500); o.c = int64_t(r.below(256));
            o.client = mt ? p.ops[0].client : 1;
            p.ops.insert(p.ops.begin() + long(1 + r.below(p.ops.size())), o);
            for (size_t i = 0; i < p.ops.size(); i++) p.ops[i].id = int(i);
        }
        if (mt) gen_schedule(r, p, clients, 40);
        if (kit == HK_TR_DIR_STD) return;
        if (mode == HM_REFUSE) gen_faults(r, p, { F_STUB, F_HEAP }, 95, 6, 2);
        else gen_faults(r, p, { F_STUB, F_HEAP }, mode == HM_ORDER ? 10 : 25, 3, 2);
    }
    static Scenario* make_heap(const Plan& p)
    {
        int kit = int(p.knob(K_USER) % HK_HEAP_NUM); Scenario* s = make_heap_kit(kit, p);
        return s ? s : make_heap_kit2(kit, p);
    }
    static Register regOrder({ "heap-order", "C13", 1, [](Rng& r, Plan& p) { gen_heap(r, p, HM_ORDER); }, make_heap });
    static Register regLife({ "heap-lives", "C14", 1, [](Rng& r, Plan& p) { gen_heap(r, p, HM_LIFE); }, make_heap });
    static Register regOwn({ "heap-memory", "C15", 1, [](Rng& r, Plan& p) { gen_heap(r, p, HM_OWN); }, make_heap });
    static Register regRef({ "heap-refusals", "C16", 1, [](Rng& r, Plan& p) { gen_heap(r, p, HM_REFUSE); }, make_heap });
}
