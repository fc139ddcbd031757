#include "stubs.h"

namespace sim
{
    static UpState* g_ups; static NodeReg* g_nodes;
    UpState*& ups() { return g_ups; }
    NodeReg*& nodes() { return g_nodes; }

    void* up_allocate(int k, size_t n)
    {
        UpEnter e(k, false);
        UpPool& p = ups()->pool[k];
        auto& log = ups()->log[rt::client() & 7];
        if (rt::fault(rt::F_THROW)) { p.refused++; log.push_back({ k, n, 0 }); rt::trace("upstream %d allocate(%zu) throws (injected)", k, n); throw std::bad_alloc(); }
        if (rt::fault(rt::F_STUB)) { p.refused++; log.push_back({ k, n, 0 }); rt::trace("upstream %d allocate(%zu) refuses (injected)", k, n); return nullptr; }
        if (n > ups()->limit || (ups()->capacity[k] && p.liveBytes + n > ups()->capacity[k])) { p.refused++; log.push_back({ k, n, 0 }); rt::trace("upstream %d allocate(%zu) refuses", k, n); return nullptr; }
        void* m = rt::obj_alloc(n ? n : 1);
        p.live[reinterpret_cast<uintptr_t>(m)] = n;
        log.push_back({ k, n, reinterpret_cast<uintptr_t>(m) });
        p.allocs++; p.liveBytes += n;
        if (n > p.largest) p.largest = n;
        if (p.live.size() > p.maxLive) p.maxLive = p.live.size();
        if (p.liveBytes > p.peakBytes) p.peakBytes = p.liveBytes;
        rt::trace("upstream %d allocate(%zu) = %p", k, n, m);
        return m;
    }

    void up_deallocate(int k, void* q, size_t n)
    {
        UpEnter e(k, false);
        rt::trace("upstream %d deallocate(%p, %zu)", k, q, n);
        UpPool& p = ups()->pool[k];
        auto it = p.live.find(reinterpret_cast<uintptr_t>(q));
        if (it == p.live.end())
        {
            for (int j = 0; j < 6; j++)
                if (ups()->pool[j].live.count(reinterpret_cast<uintptr_t>(q)))
                    rt::violate("misrouted-free", "memory from upstream %d (%zu bytes) is returned to upstream %d (op %d)", j, n, k, rt::op_id());
            rt::violate("foreign-free", "upstream %d is asked to release %p (%zu bytes), which it never handed out or already got back (op %d)", k, q, n, rt::op_id());
        }
        if (it->second != n)
            rt::violate("wrong-size-free", "upstream %d handed out %zu bytes but gets them back as %zu bytes (op %d)", k, it->second, n, rt::op_id());
        if (ups()->released) ups()->released(q, n);
        p.live.erase(it); p.frees++; p.liveBytes -= n;
        rt::obj_free(q);
    }

    bool up_owns(int k, void* q)
    {
        UpEnter e(k, true);
        UpPool& p = ups()->pool[k];
        uintptr_t a = reinterpret_cast<uintptr_t>(q);
        auto it = p.live.upper_bound(a);
        if (it == p.live.begin()) return false;
        --it;
        return a >= it->first && (a < it->first + it->second || a == it->first);
    }
}
