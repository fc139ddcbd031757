// Deterministic simulation runtime. Not instrumented. See rt.h.
#include "rt.h"

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <deque>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>

extern "C" {
    void* __real_malloc(size_t);
    void __real_free(void*);
    void* __real_calloc(size_t, size_t);
    void* __real_realloc(void*, size_t);
    int __real_posix_memalign(void**, size_t, size_t);
    void* __real_aligned_alloc(size_t, size_t);
    void* __real_memalign(size_t, size_t);
    int __real_pthread_mutex_lock(pthread_mutex_t*);
    int __real_pthread_mutex_trylock(pthread_mutex_t*);
    int __real_pthread_mutex_unlock(pthread_mutex_t*);
    int __real_pthread_mutex_timedlock(pthread_mutex_t*, const timespec*);
    int __real_pthread_mutex_clocklock(pthread_mutex_t*, clockid_t, const timespec*);
    int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
    int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
    int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
    int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
    int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
    int __real_pthread_spin_lock(pthread_spinlock_t*);
    int __real_pthread_spin_trylock(pthread_spinlock_t*);
    int __real_pthread_spin_unlock(pthread_spinlock_t*);
    pthread_t __real_pthread_self(void);
    int __real_sched_yield(void);
    int __real_nanosleep(const timespec*, timespec*);
    int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
    int __real_usleep(useconds_t);
    long __real_syscall(long, ...);
    int __real___cxa_guard_acquire(uint64_t*);
    void __real___cxa_guard_release(uint64_t*);
    void __real___cxa_guard_abort(uint64_t*);
    extern char __libc_single_threaded;
    extern char __data_start, _end;
    void rt_switch(void** from, void* to);
    void rt_tramp();
}
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

int rt_sut = 0; // the SUT flag of the running client

namespace rt
{
    const char* const kFaultNames[F_NUM] = { "heap_alloc_fail", "upstream_refuse", "upstream_throw", "lock_error",
        "client_stall", "cas_spurious_fail", "byte_flip", "client_abandons", "element_throw" };

    namespace
    {
        constexpr int MAXT = 8;
        constexpr uintptr_t ARENA = 0x200000000000ull;
        constexpr size_t ARENA_SZ = 64u << 20;
        constexpr uintptr_t STACKS = 0x210000000000ull;
        constexpr size_t STACK_SZ = 256u << 10;
        constexpr uint64_t FAIR = 2500;       // consecutive steps before a forced switch (spin loops)
        constexpr uint64_t STEP_CAP = 1500000;

        struct VC { uint32_t c[MAXT]; void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } void zero() { memset(c, 0, sizeof c); } };

        enum { PW, PR, AW, AR };
        struct Cell { uint32_t gen; uint8_t mask[4][MAXT]; uint32_t clk[4][MAXT]; uint32_t pc[4][MAXT]; };

        struct Event { int step; int stall; int val; };

        struct Fiber
        {
            void* sp; int id; int state; // 0 unused 1 runnable 2 blocked 3 done
            uintptr_t wait; uint64_t stallUntil;
            int sut; int op; int opstep; uint64_t runlen; size_t ev; const std::vector<Event>* evs;
            int fcnt[F_NUM]; bool opfault; bool stopped; int held; bool inop;
            VC vc, acqPending, relFence; bool hasRelFence;
            char eh[16];
            std::vector<char>* tls;
        };

        struct Sync { uintptr_t key; VC vc; int lastRel; int owner; int count; int readers; uint8_t rd[MAXT]; int guard; };

        struct Block { uintptr_t addr; size_t size, cap; BlockKind kind; uint8_t state; int client; uint64_t seq; uint64_t pc; };

        struct State
        {
            Fiber fib[MAXT]; int nfib; Fiber* cur; bool mt; bool running;
            uint64_t steps, capBase, switches, midop, seq, hash, ops, fired[F_NUM], heapreq, heapfail;
            bool nontriv; bool armed; bool tracing;
            int burst[F_NUM];
            const Plan* plan; Scenario* scen;
            std::vector<std::vector<Event>>* evs; std::vector<std::vector<Fault>>* flts; std::vector<int>* opIndexOf;
            uint32_t gen;
            uint8_t* bytes; uint32_t* granule; Cell* cells; Cell* dataCells; uintptr_t dataLo, dataHi;
            std::vector<Block>* blocks; uintptr_t cur_addr; bool malloc8; size_t maxBlock; uint64_t stepCap; size_t live, peak, liveBlocks;
            std::vector<uint32_t>* freed;
            std::vector<Sync>* syncs; VC slots[64];
            char* snap; size_t snapSz; bool snapped;
            char* tlsBase; size_t tlsSz; char* tlsInit;
            Result* result; ProbeTable* probes; volatile uint64_t* progress; uint64_t lastProgress, lastCalls; volatile uint64_t calls; int ticks;
            int minOp, maxOp;
        };
        State* G = nullptr;

        struct Off { int p; Off() : p(rt_sut) { rt_sut = 0; } ~Off() { rt_sut = p; } };

        inline void mix(uint64_t v) { G->hash = (G->hash ^ v) * 0x100000001B3ull; G->hash ^= G->hash >> 29; }

        int opIdx(int op) { return op + 2; }

        void set_op(Fiber* f, int op)
        {
            f->op = op; f->opstep = 0; f->ev = 0; f->opfault = false;
            memset(f->fcnt, 0, sizeof f->fcnt);
            int i = opIdx(op);
            f->evs = (i >= 0 && size_t(i) < G->evs->size()) ? &(*G->evs)[i] : nullptr;
        }

        // ---------------------------------------------------------------- switching
        void switch_to(Fiber* t)
        {
            Fiber* f = G->cur;
            if (f == t) return;
            f->sut = rt_sut;
            memcpy(f->eh, __cxxabiv1::__cxa_get_globals(), 16);
            if (G->tlsSz) { memcpy(f->tls->data(), G->tlsBase, G->tlsSz); memcpy(G->tlsBase, t->tls->data(), G->tlsSz); }
            memcpy(__cxxabiv1::__cxa_get_globals(), t->eh, 16);
            G->cur = t; G->switches++; t->runlen = 0;
            mix(0x5157ull << 32 | uint64_t(f->id) << 16 | uint64_t(t->id) << 8); mix(G->steps);
            if (G->tracing) fprintf(stderr, "  [%llu] switch client %d -> %d\n", (unsigned long long)G->steps, f->id, t->id);
            rt_sut = t->sut;
            rt_switch(&f->sp, t->sp);
        }

        bool eligible(Fiber* f) { return f->state == 1 && f->stallUntil <= G->steps; }

        // next client to run other than `except` (k-th candidate in cyclic order); nullptr if none
        Fiber* pick_next(Fiber* from, int k, bool includeSelf)
        {
            Fiber* c[MAXT]; int n = 0;
            for (int d = 1; d <= G->nfib; d++)
            {
                Fiber* f = &G->fib[(from->id + d) % G->nfib];
                if (f->id == 0) continue;
                if (f == from && !includeSelf) continue;
                if (eligible(f)) c[n++] = f;
            }
            if (n) return c[unsigned(k) % unsigned(n)];
            // nobody eligible: end the earliest stall
            Fiber* best = nullptr;
            for (int i = 1; i < G->nfib; i++)
            {
                Fiber* f = &G->fib[i];
                if (f->state == 1 && (f != from || includeSelf) && f->stallUntil > G->steps && (!best || f->stallUntil < best->stallUntil)) best = f;
            }
            return best;
        }

        void do_stall_or_pre(Fiber* f)
        {
            while (f->evs && f->ev < f->evs->size() && (*f->evs)[f->ev].step <= f->opstep)
            {
                const Event& e = (*f->evs)[f->ev++];
                if (e.step < f->opstep) continue;
                Fiber* t;
                if (e.stall)
                {
                    t = pick_next(f, 0, false);
                    if (!t || t->stallUntil > G->steps) continue;
                    f->stallUntil = G->steps + uint64_t(e.val);
                    G->fired[F_STALL]++;
                    mix(0x57A11);
                }
                else
                {
                    t = pick_next(f, e.val, false);
                    if (!t || t->stallUntil > G->steps) continue;
                }
                if (f->inop) { G->midop++; G->nontriv = true; }
                switch_to(t);
            }
        }

        void step_point()
        {
            Fiber* f = G->cur;
            G->steps++; f->opstep++; f->runlen++;
            if (G->steps - G->capBase > G->stepCap) violate("no-progress", "no operation finished within %llu steps (livelock)", (unsigned long long)G->stepCap);
            if (!G->mt || f->id == 0) return;
            if (f->evs && f->ev < f->evs->size() && (*f->evs)[f->ev].step <= f->opstep) do_stall_or_pre(f);
            else if (f->runlen > FAIR)
            {
                Fiber* t = pick_next(f, 0, false);
                f->runlen = 0;
                if (t) { t->stallUntil = 0; switch_to(t); }
            }
        }

        void block_on(uintptr_t addr)
        {
            Fiber* f = G->cur;
            f->state = 2; f->wait = addr;
            mix(0xB10C);
            if (f->inop) { G->midop++; G->nontriv = true; }
            Fiber* t = (G->mt && f->id != 0) ? pick_next(f, 0, false) : nullptr;
            if (!t) violate("deadlock", "client %d waits for a lock that nobody will release (op %d)", f->id, f->op);
            if (t->stallUntil > G->steps) t->stallUntil = 0;
            switch_to(t);
        }

        void wake(uintptr_t addr)
        {
            for (int i = 0; i < G->nfib; i++)
                if (G->fib[i].state == 2 && G->fib[i].wait == addr) { G->fib[i].state = 1; G->fib[i].wait = 0; }
        }

        // ---------------------------------------------------------------- race detector and address check
        Cell* cell_of(uintptr_t a)
        {
            if (a - ARENA < ARENA_SZ) return &G->cells[(a - ARENA) >> 3];
            if (a >= G->dataLo && a < G->dataHi) return &G->dataCells[(a - G->dataLo) >> 3];
            return nullptr;
        }

        void touch(Cell* c) { if (c->gen != G->gen) { memset(c, 0, sizeof *c); c->gen = G->gen; } }

        [[noreturn]] void race(uintptr_t a, int kind, int u, int ukind, uint32_t upc, uintptr_t pc)
        {
            static const char* names[] = { "write", "read", "atomic write", "atomic read" };
            violate("race", "unsynchronised %s of %#lx by client %d (pc %#lx, op %d) conflicts with a %s by client %d (pc %#x)",
                names[kind], (unsigned long)a, G->cur->id, (unsigned long)pc, G->cur->op, names[ukind], u, upc);
        }

        void race_check(uintptr_t a, size_t n, int kind, uintptr_t pc)
        {
            if (G->nfib <= 2) return; // nobody to race with
            Fiber* f = G->cur; int t = f->id;
            uintptr_t end = a + n;
            while (a < end)
            {
                uintptr_t g = a & ~uintptr_t(7);
                uintptr_t stop = std::min(end, g + 8);
                uint8_t m = uint8_t(((1u << (stop - g)) - 1) & ~((1u << (a - g)) - 1));
                Cell* c = cell_of(g);
                if (c)
                {
                    touch(c);
                    if (G->mt || f->id == 0)
                        for (int u = 0; u < G->nfib; u++)
                        {
                            if (u == t) continue;
                            uint32_t seen = f->vc.c[u];
                            if ((c->mask[PW][u] & m) && c->clk[PW][u] > seen) race(a, kind, u, PW, c->pc[PW][u], pc);
                            if (kind == PW && (c->mask[PR][u] & m) && c->clk[PR][u] > seen) race(a, kind, u, PR, c->pc[PR][u], pc);
                            if (kind <= PR && (c->mask[AW][u] & m) && c->clk[AW][u] > seen) race(a, kind, u, AW, c->pc[AW][u], pc);
                            if (kind == PW && (c->mask[AR][u] & m) && c->clk[AR][u] > seen) race(a, kind, u, AR, c->pc[AR][u], pc);
                            if (kind == AW && (c->mask[PR][u] & m) && c->clk[PR][u] > seen) race(a, kind, u, PR, c->pc[PR][u], pc);
                        }
                    if (c->clk[kind][t] == f->vc.c[t]) c->mask[kind][t] |= m;
                    else { c->clk[kind][t] = f->vc.c[t]; c->mask[kind][t] = m; }
                    c->pc[kind][t] = uint32_t(pc);
                }
                a = stop;
            }
        }

        void forget(uintptr_t a, size_t n)
        {
            for (uintptr_t g = a & ~uintptr_t(7); g < a + n; g += 8) { Cell* c = cell_of(g); if (c) c->gen = 0; }
        }

        const Block* block_at(uintptr_t a)
        {
            if (a - ARENA >= ARENA_SZ) return nullptr;
            uint32_t id = G->granule[(a - ARENA) >> 4];
            return id ? &(*G->blocks)[id - 1] : nullptr;
        }

        [[noreturn]] void bad_access(uintptr_t a, size_t n, int kind, uintptr_t pc, uint8_t st)
        {
            const Block* b = block_at(a);
            if (!b) for (uintptr_t q = a & ~uintptr_t(15); q >= ARENA && a - q < 4096; q -= 16) if ((b = block_at(q))) break;
            violate(st == 2 ? "use-after-free" : "out-of-bounds", "%s of %zu bytes at %#lx by client %d (pc %#lx, op %d): %s%s",
                kind == PW || kind == AW ? "write" : "read", n, (unsigned long)a, G->cur->id, (unsigned long)pc, G->cur->op,
                st == 2 ? "memory already freed" : "not inside any live allocation",
                b ? (" (nearest block " + std::to_string(b->addr - ARENA) + "+" + std::to_string(b->size) + ", access at offset " + std::to_string(int64_t(a - b->addr)) + ")").c_str() : "");
        }

        void addr_check(uintptr_t a, size_t n, int kind, uintptr_t pc)
        {
            if (a - ARENA >= ARENA_SZ) return;
            const uint8_t* s = G->bytes + (a - ARENA);
            for (size_t i = 0; i < n; i++)
                if (s[i] != 1) bad_access(a + i, n, kind, pc, s[i]);
        }

        void check(uintptr_t a, size_t n, int kind, uintptr_t pc)
        {
            addr_check(a, n, kind, pc);
            race_check(a, n, kind, pc);
        }

        inline void access(void* p, size_t n, int kind, void* pc)
        {
            step_point();
            if (n > (8u << 20)) violate("out-of-bounds", "a block operation covers %zu bytes from %p (client %d, op %d, pc %#lx)", n, p, G->cur->id, G->cur->op, (unsigned long)uintptr_t(pc));
            check(uintptr_t(p), n, kind, uintptr_t(pc));
        }

        // ---------------------------------------------------------------- sync variables
        Sync& sync_of(uintptr_t key)
        {
            for (Sync& s : *G->syncs) if (s.key == key) return s;
            Off off;
            G->syncs->emplace_back();
            Sync& s = G->syncs->back();
            memset(&s, 0, sizeof s);
            s.key = key; s.owner = -1; s.lastRel = -1;
            return s;
        }

        void tick(Fiber* f) { f->vc.c[f->id]++; }

        void drop_syncs(uintptr_t a, size_t n)
        {
            auto& v = *G->syncs;
            for (size_t i = 0; i < v.size();)
            {
                if (v[i].key >= a && v[i].key < a + n)
                {
                    if (v[i].owner >= 0 || v[i].readers > 0)
                        violate("freed-while-locked", "memory holding a lock owned by client %d is released by client %d (op %d)", v[i].owner, G->cur->id, G->cur->op);
                    v[i] = v.back(); v.pop_back();
                }
                else i++;
            }
        }

        void at_load(Sync& s, int mo)
        {
            Fiber* f = G->cur;
            if (mo == 1 || mo == 2 || mo >= 4) f->vc.join(s.vc);
            else f->acqPending.join(s.vc);
        }
        void at_store(Sync& s, int mo)
        {
            Fiber* f = G->cur;
            if (mo >= 3) { s.vc = f->vc; s.lastRel = f->id; tick(f); }
            else if (f->hasRelFence) { s.vc = f->relFence; s.lastRel = f->id; }
            else if (s.lastRel != f->id) { s.vc.zero(); }
        }
        void at_rmw(uintptr_t a, size_t n, int mo, uintptr_t pc)
        {
            Fiber* f = G->cur;
            Sync& s = sync_of(a);
            if (mo == 1 || mo == 2 || mo >= 4) f->vc.join(s.vc); else f->acqPending.join(s.vc);
            race_check(a, n, AW, pc); // between the two halves: the access itself is part of what is released
            if (mo >= 3) { s.vc.join(f->vc); s.lastRel = f->id; tick(f); }
            else if (f->hasRelFence) s.vc.join(f->relFence);
        }

        // ---------------------------------------------------------------- heap
        Block* find_block(void* p)
        {
            uintptr_t a = uintptr_t(p);
            const Block* b = block_at(a);
            return b && b->addr == a ? const_cast<Block*>(b) : nullptr;
        }

        void fill_garbage(uintptr_t a, size_t n, int mode, uint64_t seq)
        {
            unsigned char* q = reinterpret_cast<unsigned char*>(a);
            if (mode == 0) memset(q, 0, n);
            else if (mode == 1) memset(q, 0xA5, n);
            else if (mode == 2) memset(q, 0xFF, n);
            else
            {
                uint64_t s = G->plan->seed * 31 + seq;
                for (size_t i = 0; i < n; i++) { if (!(i & 7)) s = s * 6364136223846793005ull + 1442695040888963407ull; q[i] = (unsigned char)(s >> (8 * (i & 7))); }
            }
        }

        void* raw_alloc(size_t n, BlockKind kind, size_t align, uintptr_t pc)
        {
            if (n > G->maxBlock) return nullptr;
            const Plan& p = *G->plan;
            size_t cap = (std::max<size_t>(n, 1) + 15) & ~size_t(15);
            if (kind != B_OBJ && p.knob(K_QUOTA) > 0 && G->live + n > size_t(p.knob(K_QUOTA))) return nullptr;
            Off off;
            uint32_t id = 0;
            if (kind != B_OBJ && align <= 16 && p.knob(K_PLACE) != 0 && !G->malloc8)
            {
                auto& fr = *G->freed;
                if (p.knob(K_PLACE) == 1) { for (size_t i = fr.size(); i-- > 0;) if ((*G->blocks)[fr[i] - 1].cap == cap) { id = fr[i]; fr.erase(fr.begin() + long(i)); break; } }
                else { for (size_t i = 0; i < fr.size(); i++) if ((*G->blocks)[fr[i] - 1].cap == cap) { id = fr[i]; fr.erase(fr.begin() + long(i)); break; } }
            }
            if (!id)
            {
                size_t red = p.knob(K_RED) == 0 ? 32 : p.knob(K_RED) == 1 ? 96 : 160;
                uintptr_t a = G->cur_addr + red;
                a = (a + align - 1) & ~uintptr_t(align - 1);
                if (align <= 16)
                {
                    int64_t sk = p.knob(K_SKEW);
                    if (sk == 0) { if (!(a & 16)) a += 16; }                 // 16-aligned, never 32-aligned
                    else a += 16 * ((G->blocks->size() * uint64_t(sk)) % 5);
                }
                if (kind == B_MALLOC && align <= 16 && G->malloc8) a += 8;
                if (a + cap + 256 > ARENA + ARENA_SZ) return nullptr;
                G->cur_addr = a + cap;
                Block b{}; b.addr = a; b.cap = cap;
                G->blocks->push_back(b);
                id = uint32_t(G->blocks->size());
                for (uintptr_t q = a & ~uintptr_t(15); q < a + cap; q += 16) G->granule[(q - ARENA) >> 4] = id;
            }
            Block& b = (*G->blocks)[id - 1];
            b.size = n; b.kind = kind; b.state = 1; b.client = G->cur->id; b.seq = G->seq++; b.pc = pc;
            memset(G->bytes + (b.addr - ARENA), 0, cap);
            memset(G->bytes + (b.addr - ARENA), 1, n);
            forget(b.addr, cap);
            if (kind != B_OBJ) { G->live += n; G->liveBlocks++; G->peak = std::max(G->peak, G->live); }
            fill_garbage(b.addr, n, int(p.knob(K_FILL)), b.seq);
            mix(0xA110C ^ (uint64_t(n) << 24) ^ (b.addr - ARENA));
            return reinterpret_cast<void*>(b.addr);
        }

        void raw_free(void* p, BlockKind kind, uintptr_t pc)
        {
            if (!p) return;
            static const char* kinds[] = { "malloc", "new", "new[]", "aligned new", "object" };
            Off off;
            Block* b = find_block(p);
            if (!b)
            {
                const Block* in = block_at(uintptr_t(p));
                if (in) violate("bad-free", "%s-free of %p, which is %zu bytes inside a block of %zu bytes (client %d, op %d, pc %#lx)", kinds[kind], p, size_t(uintptr_t(p) - in->addr), in->size, G->cur->id, G->cur->op, (unsigned long)pc);
                violate("bad-free", "%s-free of %p, which was never allocated (client %d, op %d, pc %#lx)", kinds[kind], p, G->cur->id, G->cur->op, (unsigned long)pc);
            }
            if (b->state != 1) violate("double-free", "block %#lx (%zu bytes) freed twice (client %d, op %d, pc %#lx)", (unsigned long)(b->addr - ARENA), b->size, G->cur->id, G->cur->op, (unsigned long)pc);
            if (b->kind != kind) violate("mismatched-free", "block %#lx obtained from %s is released by the %s deallocator (client %d, op %d)", (unsigned long)(b->addr - ARENA), kinds[b->kind], kinds[kind], G->cur->id, G->cur->op);
            if (G->running) race_check(b->addr, b->size, PW, pc);
            drop_syncs(b->addr, b->size);
            b->state = 2;
            memset(G->bytes + (b->addr - ARENA), 2, b->size);
            if (kind != B_OBJ) { G->live -= b->size; G->liveBlocks--; G->freed->push_back(uint32_t(b - G->blocks->data()) + 1); }
            memset(reinterpret_cast<void*>(b->addr), 0xDD, b->size);
            mix(0xF4EE ^ (b->addr - ARENA));
        }

        void* sut_alloc(size_t n, BlockKind kind, size_t align, void* pc)
        {
            step_point();
            G->heapreq++;
            if (fault(F_HEAP)) { G->heapfail++; trace("malloc(%zu) FAILS (injected)", n); return nullptr; }
            void* p = raw_alloc(n, kind, align, uintptr_t(pc));
            if (!p) { G->heapfail++; G->cur->opfault = true; G->nontriv = true; }
            trace("malloc(%zu) = %p", n, p);
            return p;
        }

        void sut_free(void* p, BlockKind kind, void* pc)
        {
            step_point();
            trace("free(%p)", p);
            raw_free(p, kind, uintptr_t(pc));
        }

        // ---------------------------------------------------------------- clients
        void fiber_main()
        {
            Fiber* f = G->cur;
            for (size_t i = 0; i < G->plan->ops.size() && !f->stopped; i++)
            {
                const Op& op = G->plan->ops[i];
                if (op.client != f->id) continue;
                set_op(f, op.id);
                rt_sut = 0;
                step_point(); // preemption at the operation boundary
                f->inop = true; G->ops++; G->capBase = G->steps;
                mix(0x0FF ^ uint64_t(op.id) << 8);
                if (G->tracing) fprintf(stderr, "  [%llu] client %d: op %d kind %d (%lld,%lld,%lld)\n", (unsigned long long)G->steps, f->id, op.id, op.kind, (long long)op.a, (long long)op.b, (long long)op.c);
                try { G->scen->exec(op); }
                catch (const std::exception& e) { violate("unexpected-exception", "op %d of client %d threw %s", op.id, f->id, e.what()); }
                rt_sut = 0;
                f->inop = false;
                G->calls = G->calls + 1;
            }
            f->state = 3;
            tick(f);
            mix(0xD09E);
            Fiber* t = pick_next(f, 0, false);
            if (t) { if (t->stallUntil > G->steps) t->stallUntil = 0; switch_to(t); }
            else
            {
                for (int i = 1; i < G->nfib; i++)
                    if (G->fib[i].state == 2) violate("deadlock", "client %d is blocked forever on a lock (op %d)", i, G->fib[i].op);
                switch_to(&G->fib[0]);
            }
            abort();
        }

        void on_signal(int sig, siginfo_t* si, void* uc)
        {
            const char* n = sig == SIGSEGV ? "crash:SEGV" : sig == SIGABRT ? "crash:ABRT" : sig == SIGTRAP ? "crash:TRAP" : sig == SIGFPE ? "crash:FPE" : sig == SIGILL ? "crash:ILL" : "crash:BUS";
            unsigned long pc = (unsigned long)static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[REG_RIP];
            static volatile sig_atomic_t depth;
            if (depth++) _exit(5); // the simulator's own memory is damaged
            rt_sut = 0;
            if (!G || !G->running) { fprintf(stderr, "signal %d outside a run, pc %#lx addr %p\n", sig, pc, si->si_addr); _exit(4); }
            violate(n, "signal %d (address %p, pc %#lx) in op %d of client %d", sig, si->si_addr, pc, G->cur->op, G->cur->id);
        }

        void on_timer(int, siginfo_t*, void* uc)
        {
            if (!G || !G->progress || !G->running) return;
            // a new run began, or a call on the system under test came back
            if (*G->progress != G->lastProgress || G->calls != G->lastCalls) { G->lastProgress = *G->progress; G->lastCalls = G->calls; G->ticks = 0; return; }
            if (++G->ticks < 8) return;
            rt_sut = 0;
            unsigned long pc = (unsigned long)static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[REG_RIP];
            violate("hang", "op %d of client %d uses processor time without end (pc %#lx)", G->cur->op, G->cur->id, pc);
        }

        int tls_cb(dl_phdr_info* info, size_t, void*)
        {
            if (info->dlpi_name && info->dlpi_name[0]) return 0;
            for (int i = 0; i < info->dlpi_phnum; i++)
                if (info->dlpi_phdr[i].p_type == PT_TLS)
                {
                    size_t sz = info->dlpi_phdr[i].p_memsz, al = std::max<size_t>(info->dlpi_phdr[i].p_align, 1);
                    size_t tot = (sz + al - 1) & ~(al - 1);
                    char* tp; asm("mov %%fs:0,%0" : "=r"(tp));
                    G->tlsSz = tot; G->tlsBase = tp - tot;
                }
            return 1;
        }

        void* map_at(uintptr_t at, size_t n)
        {
            void* p = mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
            if (p == MAP_FAILED || (at && uintptr_t(p) != at)) { perror("mmap"); _exit(4); }
            return p;
        }
    }

    // -------------------------------------------------------------------- public
    std::vector<ScenarioDef>& registry() { static std::vector<ScenarioDef> r; return r; }

    std::string Plan::text() const
    {
        std::string s = "scenario " + scen + "\nseed " + std::to_string(seed) + "\n";
        for (size_t i = 0; i < knobs.size(); i++) s += "knob " + std::to_string(i) + " " + std::to_string(knobs[i]) + "\n";
        for (const Op& o : ops) { char b[160]; snprintf(b, sizeof b, "op %d %d %d %lld %lld %lld\n", o.id, o.client, o.kind, (long long)o.a, (long long)o.b, (long long)o.c); s += b; }
        for (const Pre& p : pre) { char b[96]; snprintf(b, sizeof b, "pre %d %d %d\n", p.op, p.step, p.pick); s += b; }
        for (const Fault& f : faults) { char b[96]; snprintf(b, sizeof b, "fault %s %d %d %d\n", kFaultNames[f.kind], f.op, f.n, f.len); s += b; }
        return s;
    }

    bool Plan::parse(const std::string& t, std::string* expect, std::string* expectHash)
    {
        size_t i = 0;
        while (i < t.size())
        {
            size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size();
            std::string l = t.substr(i, e - i); i = e + 1;
            char w[64] = { 0 };
            long long a, b, c; int x, y, z;
            if (l.empty() || l[0] == '#') continue;
            if (sscanf(l.c_str(), "scenario %63s", w) == 1) scen = w;
            else if (sscanf(l.c_str(), "seed %llu", (unsigned long long*)&a) == 1) seed = (unsigned long long)a;
            else if (sscanf(l.c_str(), "knob %d %lld", &x, &a) == 2) { if (knobs.size() <= size_t(x)) knobs.resize(size_t(x) + 1); knobs[size_t(x)] = a; }
            else if (sscanf(l.c_str(), "op %d %d %d %lld %lld %lld", &x, &y, &z, &a, &b, &c) == 6) ops.push_back(Op{ x, y, z, a, b, c });
            else if (sscanf(l.c_str(), "pre %d %d %d", &x, &y, &z) == 3) pre.push_back(Pre{ x, y, z });
            else if (sscanf(l.c_str(), "fault %63s %d %d %d", w, &x, &y, &z) == 4) { for (int k = 0; k < F_NUM; k++) if (!strcmp(w, kFaultNames[k])) faults.push_back(Fault{ k, x, y, z }); }
            else if (l.compare(0, 13, "expect_class ") == 0) { if (expect) *expect = l.substr(13); }
            else if (l.compare(0, 12, "expect_hash ") == 0) { if (expectHash) *expectHash = l.substr(12); }
            else if (l.compare(0, 8, "property") == 0 || l.compare(0, 7, "message") == 0) {}
            else return false;
        }
        return !scen.empty();
    }

    void gen_schedule(Rng& r, Plan& p, int clients, int opsteps)
    {
        if (clients < 2 || p.ops.empty()) return;
        auto step = [&]() -> int {
            switch (r.below(4))
            {
            case 0: return 1;                                        // operation boundary
            case 1: return int(r.range(2, std::max(3, opsteps / 4)));
            default: return int(r.range(2, opsteps));
            }
        };
        int mode = int(r.below(4));
        if (mode == 0) // a few preemptions
        {
            int n = int(r.range(1, 4));
            for (int i = 0; i < n; i++) p.pre.push_back(Pre{ p.ops[r.below(p.ops.size())].id, step(), int(r.below(4)) });
        }
        else if (mode == 1) // dense
        {
            for (const Op& o : p.ops)
                for (int k = int(r.below(4)); k > 0; k--) p.pre.push_back(Pre{ o.id, step(), int(r.below(4)) });
        }
        else if (mode == 2) // boundaries everywhere, a few inside
        {
            for (const Op& o : p.ops) if (r.chance(60)) p.pre.push_back(Pre{ o.id, 1, int(r.below(4)) });
            for (int i = int(r.range(1, 6)); i > 0; i--) p.pre.push_back(Pre{ p.ops[r.below(p.ops.size())].id, step(), int(r.below(4)) });
        }
        else // bursts: several switches inside the same operations
        {
            for (int i = int(r.range(1, 3)); i > 0; i--)
            {
                int op = p.ops[r.below(p.ops.size())].id, s = step();
                for (int k = int(r.range(2, 6)); k > 0; k--) { p.pre.push_back(Pre{ op, s, int(r.below(4)) }); s += int(r.range(1, 6)); }
            }
            for (const Op& o : p.ops) if (r.chance(35)) p.pre.push_back(Pre{ o.id, step(), int(r.below(4)) });
        }
        if (r.chance(25))
            for (int i = int(r.range(1, 2)); i > 0; i--) p.faults.push_back(Fault{ F_STALL, p.ops[r.below(p.ops.size())].id, int(r.range(1, opsteps)), int(r.range(20, 600)) });
    }

    void gen_faults(Rng& r, Plan& p, const std::vector<int>& kinds, int percentRuns, int maxFaults, int maxN)
    {
        if (kinds.empty() || p.ops.empty() || !r.chance(percentRuns)) return;
        int n = int(r.range(1, maxFaults));
        for (int i = 0; i < n; i++)
        {
            Fault f;
            f.kind = r.pick(kinds);
            f.op = p.ops[r.below(p.ops.size())].id;
            f.n = r.chance(70) ? 0 : int(r.range(0, maxN));
            f.len = r.chance(75) ? 1 : int(r.range(2, 8));
            p.faults.push_back(f);
        }
    }

    void violate(const char* cls, const char* fmt, ...)
    {
        rt_sut = 0;
        char buf[1500];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        if (G->tracing) fprintf(stderr, "VIOLATION-CLASS %s: %s\n", cls, buf);
        if (G->result)
        {
            mix(0xBAD); for (const char* q = cls; *q; q++) mix(uint64_t(*q));
            snprintf(G->result->cls, sizeof G->result->cls, "%s", cls);
            snprintf(G->result->msg, sizeof G->result->msg, "%s", buf);
            G->result->hash = G->hash; G->result->step = G->steps; G->result->op = G->cur ? G->cur->op : 0; G->result->client = G->cur ? G->cur->id : 0;
            G->result->set = 1;
        }
        _exit(3);
    }

    void probe(const char* name, uint64_t add)
    {
        ProbeTable* t = G->probes;
        if (!t) return;
        Off off;
        for (int i = 0; i < t->n; i++) if (!strcmp(t->e[i].name, name)) { t->e[i].count += add; return; }
        if (t->n < 160) { snprintf(t->e[t->n].name, sizeof t->e[0].name, "%s", name); t->e[t->n].count = add; t->n++; }
    }
    void note(uint64_t a, uint64_t b, uint64_t c) { mix(a); mix(b); mix(c); }
    bool tracing() { return G->tracing; }
    void trace(const char* fmt, ...)
    {
        if (!G->tracing) return;
        Off off;
        va_list ap; va_start(ap, fmt);
        fprintf(stderr, "  [%llu] c%d: ", (unsigned long long)G->steps, G->cur->id); vfprintf(stderr, fmt, ap); fputc('\n', stderr);
        va_end(ap);
    }
    void nontrivial() { G->nontriv = true; }
    const Plan& plan() { return *G->plan; }
    int sut_flag() { return rt_sut; }
    void enter_sut() { rt_sut = 1; }
    void leave_sut(int prev) { rt_sut = prev; }
    void yield() { Off off; step_point(); }
    int client() { return G->cur->id; }
    uint64_t now() { return ++G->seq; }
    uint64_t steps() { return G->steps; }
    void progressed() { G->capBase = G->steps; G->calls = G->calls + 1; }
    int op_id() { return G->cur->op; }
    void op_mark(int id) { set_op(G->cur, id); }
    void abandon() { G->cur->stopped = true; G->fired[F_DROP]++; mix(0xAB44D04); }
    bool fault(int kind)
    {
        if (!G->armed) return false;
        Fiber* f = G->cur;
        int n = f->fcnt[kind]++;
        bool fire = false;
        if (G->burst[kind] > 0) { G->burst[kind]--; fire = true; }
        else
        {
            int i = opIdx(f->op);
            if (i >= 0 && size_t(i) < G->flts->size())
                for (const Fault& x : (*G->flts)[size_t(i)])
                    if (x.kind == kind && x.n == n) { fire = true; G->burst[kind] = std::max(G->burst[kind], x.len - 1); }
        }
        if (fire) { G->fired[kind]++; G->nontriv = true; f->opfault = true; mix(0xFA17 ^ uint64_t(kind) << 20); }
        return fire;
    }
    void disarm() { G->armed = false; memset(G->burst, 0, sizeof G->burst); }
    bool faults_fired() { for (int i = 0; i < F_NUM; i++) if (i != F_STALL && i != F_ELEM && G->fired[i]) return true; return false; }
    uint64_t fired(int k) { return G->fired[k]; }
    bool op_fault_fired() { return G->cur->opfault; }
    uint64_t heap_fail_count() { return G->heapfail; }
    void hb_release(int s) { G->slots[s & 63].join(G->cur->vc); tick(G->cur); }
    void hb_acquire(int s) { G->cur->vc.join(G->slots[s & 63]); }
    int held_locks() { return G->cur->held; }

    bool in_arena(const void* p) { return uintptr_t(p) - ARENA < ARENA_SZ; }
    void malloc_align8(bool on) { G->malloc8 = on; }
    void big_blocks(size_t n) { G->maxBlock = n; G->stepCap = STEP_CAP * 40; }
    void* obj_alloc(size_t n, size_t align)
    {
        void* p = raw_alloc(n, B_OBJ, std::max<size_t>(align, 16), 0);
        if (!p) { fprintf(stderr, "arena exhausted by harness objects\n"); _exit(4); }
        return p;
    }
    void obj_free(void* p) { raw_free(p, B_OBJ, 0); }
    bool live_range(const void* p, size_t n)
    {
        if (!in_arena(p) || (n && !in_arena(static_cast<const char*>(p) + n - 1))) return false;
        for (size_t i = 0; i < n; i++) if (G->bytes[uintptr_t(p) - ARENA + i] != 1) return false;
        return true;
    }
    bool same_block(const void* p, const void* q) { const Block* a = block_at(uintptr_t(p)); return a && a == block_at(uintptr_t(q)); }
    size_t block_size(const void* p) { const Block* b = block_at(uintptr_t(p)); return b && b->state == 1 ? b->size : 0; }
    const void* block_base(const void* p) { const Block* b = block_at(uintptr_t(p)); return b && b->state == 1 ? reinterpret_cast<void*>(b->addr) : nullptr; }
    uint8_t block_kind(const void* p) { const Block* b = block_at(uintptr_t(p)); return b && b->state == 1 ? uint8_t(b->kind) : 255; }
    uint64_t block_seq(const void* p) { const Block* b = block_at(uintptr_t(p)); return b && b->state == 1 ? b->seq : 0; }
    size_t live_blocks() { return G->liveBlocks; }
    size_t live_bytes() { return G->live; }
    size_t peak_bytes() { return G->peak; }
    uint64_t heap_requests() { return G->heapreq; }
    std::string describe_leaks()
    {
        std::string s; int n = 0;
        for (const Block& b : *G->blocks)
            if (b.state == 1 && b.kind != B_OBJ && n++ < 4)
            {
                char t[128]; snprintf(t, sizeof t, "%s%zu bytes at +%#lx from client %d (pc %#lx)", n > 1 ? ", " : "", b.size, (unsigned long)(b.addr - ARENA), b.client, (unsigned long)b.pc);
                s += t;
            }
        return s;
    }

    static void client_access(uintptr_t a, size_t n, int kind)
    {
        if (!in_arena(reinterpret_cast<void*>(a))) return;
        for (size_t i = 0; i < n; i++)
            if (G->bytes[a - ARENA + i] != 1)
                violate("grant-not-live", "client %d uses granted memory %#lx+%zu, but byte %zu is %s (op %d)", G->cur->id, (unsigned long)(a - ARENA), n, i,
                    G->bytes[a - ARENA + i] == 2 ? "already released underneath it" : "outside every live allocation", G->cur->op);
        race_check(a, n, kind, 0);
    }
    void client_write(void* p, size_t n) { Off off; client_access(uintptr_t(p), n, PW); }
    void client_read(const void* p, size_t n) { Off off; client_access(uintptr_t(p), n, PR); }

    static inline unsigned char pat(uint64_t tag, size_t i) { return (unsigned char)((tag * 0x9E3779B1u + i * 0x85EBCA6Bu + (i >> 3)) >> 7) ^ (unsigned char)(tag); }
    void payload_fill(void* p, size_t n, uint64_t tag)
    {
        client_write(p, n);
        for (size_t i = 0; i < n; i++) static_cast<unsigned char*>(p)[i] = pat(tag, i);
    }
    bool payload_ok(const void* p, size_t n, uint64_t tag, size_t* bad)
    {
        client_read(p, n);
        for (size_t i = 0; i < n; i++) if (static_cast<const unsigned char*>(p)[i] != pat(tag, i)) { if (bad) *bad = i; return false; }
        return true;
    }

    void init(const char*)
    {
        static_assert(sizeof(State) < (1 << 20), "");
        G = new (map_at(0, sizeof(State))) State();
        map_at(ARENA, ARENA_SZ);
        G->bytes = static_cast<uint8_t*>(map_at(0, ARENA_SZ));
        G->granule = static_cast<uint32_t*>(map_at(0, ARENA_SZ / 16 * 4));
        G->cells = static_cast<Cell*>(map_at(0, ARENA_SZ / 8 * sizeof(Cell)));
        G->dataLo = uintptr_t(&__data_start) & ~uintptr_t(7); G->dataHi = uintptr_t(&_end);
        G->dataCells = static_cast<Cell*>(map_at(0, ((G->dataHi - G->dataLo) / 8 + 2) * sizeof(Cell)));
        G->gen = 1;
        G->blocks = new std::vector<Block>(); G->freed = new std::vector<uint32_t>(); G->syncs = new std::vector<Sync>();
        G->evs = new std::vector<std::vector<Event>>(); G->flts = new std::vector<std::vector<Fault>>();
        dl_iterate_phdr(tls_cb, nullptr);
        G->tlsInit = static_cast<char*>(__real_malloc(G->tlsSz + 1));
        for (int i = 0; i < MAXT; i++)
        {
            if (i) { map_at(STACKS + size_t(i) * (STACK_SZ * 2), STACK_SZ * 2); mprotect(reinterpret_cast<void*>(STACKS + size_t(i) * (STACK_SZ * 2)), STACK_SZ, PROT_NONE); }
            G->fib[i].tls = new std::vector<char>(G->tlsSz + 1);
        }
        stack_t ss{}; ss.ss_sp = __real_malloc(64 << 10); ss.ss_size = 64 << 10; sigaltstack(&ss, nullptr);
        struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT }) sigaction(s, &sa, nullptr);
        struct sigaction st{}; st.sa_sigaction = on_timer; st.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &st, nullptr);
        __libc_single_threaded = 0;
    }

    void set_result(Result* r) { G->result = r; }
    void set_trace(bool on) { G->tracing = on; }
    void set_probes(ProbeTable* t) { G->probes = t; }
    void watch(volatile uint64_t* p)
    {
        G->progress = p;
        itimerval it{}; it.it_interval.tv_usec = 500000; it.it_value.tv_usec = 500000;
        setitimer(ITIMER_VIRTUAL, &it, nullptr);
    }

    RunStats execute(const Plan& plan, const ScenarioDef& def)
    {
        // every run starts from the same static data (function-local statics, global<> allocators, ...)
        if (!G->snapped)
        {
            G->snapped = true;
            G->snapSz = G->dataHi - uintptr_t(&__data_start);
            G->snap = static_cast<char*>(__real_malloc(G->snapSz));
            memcpy(G->snap, &__data_start, G->snapSz);
            memcpy(G->tlsInit, G->tlsBase ? G->tlsBase : G->tlsInit, G->tlsSz);
        }
        else { memcpy(&__data_start, G->snap, G->snapSz); if (G->tlsSz) memcpy(G->tlsBase, G->tlsInit, G->tlsSz); }
        // reset
        if (G->cur_addr)
        {
            size_t used = std::min<size_t>(ARENA_SZ, G->cur_addr - ARENA + 4096);
            memset(G->bytes, 0, used); memset(G->granule, 0, used / 16 * 4);
        }
        G->cur_addr = ARENA + 4096;
        G->gen++;
        G->blocks->clear(); G->freed->clear(); G->syncs->clear();
        G->malloc8 = false; G->maxBlock = 256u << 10; G->stepCap = STEP_CAP;
        G->live = G->peak = G->liveBlocks = 0;
        memset(G->slots, 0, sizeof G->slots);
        G->capBase = G->steps = G->switches = G->midop = G->ops = G->heapreq = G->heapfail = 0; G->seq = 1; G->hash = 0xCBF29CE484222325ull;
        memset(G->fired, 0, sizeof G->fired); memset(G->burst, 0, sizeof G->burst);
        G->nontriv = false; G->armed = true;
        G->plan = &plan;
        int maxOp = -1, clients = 1;
        for (const Op& o : plan.ops) { maxOp = std::max(maxOp, o.id); clients = std::max(clients, o.client); }
        if (clients >= MAXT) clients = MAXT - 1;
        G->evs->assign(size_t(maxOp + 3), {}); G->flts->assign(size_t(maxOp + 3), {});
        auto ok = [&](int op) { return opIdx(op) >= 0 && opIdx(op) < maxOp + 3; };
        for (const Pre& p : plan.pre) if (ok(p.op)) (*G->evs)[size_t(opIdx(p.op))].push_back(Event{ p.step, 0, p.pick });
        for (const Fault& f : plan.faults)
            if (ok(f.op)) { if (f.kind == F_STALL) (*G->evs)[size_t(opIdx(f.op))].push_back(Event{ std::max(1, f.n), 1, f.len }); else (*G->flts)[size_t(opIdx(f.op))].push_back(f); }
        for (auto& v : *G->evs) std::stable_sort(v.begin(), v.end(), [](const Event& a, const Event& b) { return a.step < b.step; });

        G->nfib = clients + 1; G->cur = &G->fib[0]; G->mt = false; G->running = true;
        for (int i = 0; i < MAXT; i++)
        {
            Fiber& f = G->fib[i];
            auto* tls = f.tls;
            f = Fiber{}; f.tls = tls; f.id = i; f.state = i <= clients ? 1 : 0;
            f.vc.zero(); f.vc.c[i] = 1;
            if (G->tlsSz) memcpy(tls->data(), G->tlsInit, G->tlsSz);
        }
        set_op(&G->fib[0], OP_SETUP);
        rt_sut = 0;
        Scenario* s = def.make(plan);
        G->scen = s;
        s->setup();
        rt_sut = 0;
        // spawn
        tick(&G->fib[0]);
        for (int i = 1; i <= clients; i++)
        {
            Fiber& f = G->fib[i];
            f.vc.join(G->fib[0].vc);
            uintptr_t top = STACKS + size_t(i) * (STACK_SZ * 2) + STACK_SZ * 2 - 64;
            void** sp = reinterpret_cast<void**>(top & ~uintptr_t(15));
            *--sp = nullptr; *--sp = nullptr;
            *--sp = reinterpret_cast<void*>(&rt_tramp);
            for (int k = 0; k < 6; k++) *--sp = nullptr;
            sp[0] = reinterpret_cast<void*>(&fiber_main); // popped into r15.. see asm
            f.sp = sp;
        }
        if (!plan.ops.empty())
        {
            G->mt = clients > 1;
            Fiber* first = &G->fib[1 + uint64_t(plan.knob(K_START)) % uint64_t(clients)];
            G->fib[0].state = 2; G->fib[0].wait = 1;
            switch_to(first);
            G->fib[0].state = 1;
        }
        for (int i = 1; i <= clients; i++) { G->fib[0].vc.join(G->fib[i].vc); }
        G->mt = false;
        set_op(&G->fib[0], OP_END);
        rt_sut = 0;
        s->quiesce();
        rt_sut = 0;
        s->teardown();
        rt_sut = 0;
        delete s;
        G->running = false;
        RunStats st{};
        st.steps = G->steps; st.switches = G->switches; st.midop_switches = G->midop; st.ops = G->ops; st.heapreq = G->heapreq;
        memcpy(st.fired, G->fired, sizeof st.fired);
        mix(G->steps); st.hash = G->hash; st.nontrivial = G->nontriv;
        return st;
    }
}

asm(R"(
    .text
    .globl rt_switch
    .type rt_switch,@function
rt_switch:
    .cfi_startproc
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
    .cfi_endproc
    .size rt_switch,.-rt_switch
    .globl rt_tramp
    .type rt_tramp,@function
rt_tramp:
    .cfi_startproc
    .cfi_undefined rip
    callq *%r15
    ud2
    .cfi_endproc
    .size rt_tramp,.-rt_tramp
)");

using namespace rt;

// ------------------------------------------------------------------------ instrumentation callbacks
#define RA __builtin_return_address(0)
#define HOOK extern "C" __attribute__((used, visibility("default"))) void
HOOK __tsan_init() {}
HOOK __tsan_func_entry(void*) {}
HOOK __tsan_func_exit() {}
HOOK __tsan_ignore_thread_begin() {}
HOOK __tsan_ignore_thread_end() {}
#define RW(n) \
    HOOK __tsan_read##n(void* p) { if (rt_sut) access(p, n, PR, RA); } \
    HOOK __tsan_write##n(void* p) { if (rt_sut) access(p, n, PW, RA); } \
    HOOK __tsan_unaligned_read##n(void* p) { if (rt_sut) access(p, n, PR, RA); } \
    HOOK __tsan_unaligned_write##n(void* p) { if (rt_sut) access(p, n, PW, RA); } \
    HOOK __tsan_volatile_read##n(void* p) { if (rt_sut) access(p, n, PR, RA); } \
    HOOK __tsan_volatile_write##n(void* p) { if (rt_sut) access(p, n, PW, RA); } \
    HOOK __tsan_read_write##n(void* p) { if (rt_sut) { access(p, n, PR, RA); access(p, n, PW, RA); } } \
    HOOK __tsan_unaligned_read_write##n(void* p) { if (rt_sut) { access(p, n, PR, RA); access(p, n, PW, RA); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
HOOK __tsan_vptr_update(void** p, void*) { if (rt_sut) access(p, 8, PW, RA); }
HOOK __tsan_vptr_read(void** p) { if (rt_sut) access(p, 8, PR, RA); }
HOOK __tsan_read_range(void* p, size_t n) { if (rt_sut) access(p, n, PR, RA); }
HOOK __tsan_write_range(void* p, size_t n) { if (rt_sut) access(p, n, PW, RA); }

extern "C" void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if (rt_sut && n)
    {
        // the halves of a copy are separate events: another client may run in between
        access(const_cast<void*>(s), n, PR, RA); access(d, n, PW, RA);
    }
    return n ? __builtin_memmove(d, s, n) : d;
}
extern "C" void* __tsan_memmove(void* d, const void* s, size_t n)
{
    if (rt_sut && n) { access(const_cast<void*>(s), n, PR, RA); access(d, n, PW, RA); }
    return n ? __builtin_memmove(d, s, n) : d;
}
extern "C" void* __tsan_memset(void* d, int c, size_t n)
{
    if (rt_sut && n) access(d, n, PW, RA);
    return n ? __builtin_memset(d, c, n) : d;
}

template<typename T, typename F> static inline T rmw(volatile T* p, int mo, void* pc, F f)
{
    if (rt_sut) { step_point(); addr_check(uintptr_t(p), sizeof(T), AW, uintptr_t(pc)); at_rmw(uintptr_t(p), sizeof(T), mo, uintptr_t(pc)); }
    T o = *p; *p = f(o);
    return o;
}
template<typename T> static inline bool cas(volatile T* p, T* e, T v, int mo, int fmo, bool weak, void* pc)
{
    if (rt_sut)
    {
        step_point();
        addr_check(uintptr_t(p), sizeof(T), AW, uintptr_t(pc));
        T cur = *p;
        bool ok = memcmp(&cur, e, sizeof(T)) == 0;
        if (ok && weak && fault(F_CAS)) ok = false;
        if (ok) { at_rmw(uintptr_t(p), sizeof(T), mo, uintptr_t(pc)); *p = v; return true; }
        at_load(sync_of(uintptr_t(p)), fmo); race_check(uintptr_t(p), sizeof(T), AR, uintptr_t(pc));
        *e = cur;
        return false;
    }
    T cur = *p;
    if (cur == *e) { *p = v; return true; }
    *e = cur; return false;
}
typedef unsigned __int128 u128;
#define ATOMIC(bits, T) \
    extern "C" T __tsan_atomic##bits##_load(const volatile T* p, int mo) { if (rt_sut) { step_point(); addr_check(uintptr_t(p), sizeof(T), AR, uintptr_t(RA)); at_load(sync_of(uintptr_t(p)), mo); race_check(uintptr_t(p), sizeof(T), AR, uintptr_t(RA)); } return *p; } \
    extern "C" void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { if (rt_sut) { step_point(); addr_check(uintptr_t(p), sizeof(T), AW, uintptr_t(RA)); race_check(uintptr_t(p), sizeof(T), AW, uintptr_t(RA)); at_store(sync_of(uintptr_t(p)), mo); } *p = v; } \
    extern "C" T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return rmw<T>(p, mo, RA, [=](T) { return v; }); } \
    extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return rmw<T>(p, mo, RA, [=](T o) { return T(o + v); }); } \
    extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return rmw<T>(p, mo, RA, [=](T o) { return T(o - v); }); } \
    extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return rmw<T>(p, mo, RA, [=](T o) { return T(o & v); }); } \
    extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return rmw<T>(p, mo, RA, [=](T o) { return T(o | v); }); } \
    extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return rmw<T>(p, mo, RA, [=](T o) { return T(o ^ v); }); } \
    extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return rmw<T>(p, mo, RA, [=](T o) { return T(~(o & v)); }); } \
    extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return cas<T>(p, e, v, mo, fmo, false, RA); } \
    extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return cas<T>(p, e, v, mo, fmo, true, RA); } \
    extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { cas<T>(p, &e, v, mo, fmo, false, RA); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, u128)
HOOK __tsan_atomic_thread_fence(int mo)
{
    if (!rt_sut) return;
    step_point();
    Fiber* f = G->cur;
    if (mo == 1 || mo == 2 || mo >= 4) f->vc.join(f->acqPending);
    if (mo >= 3) { f->relFence = f->vc; f->hasRelFence = true; tick(f); }
}
HOOK __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------ locks
static int lock_common(uintptr_t a, bool recursive, bool errcheck, bool tryOnly, bool mayFail = true)
{
    step_point();
    addr_check(a, 8, AW, 0);
    race_check(a, 8, AW, 0);
    if (!tryOnly && mayFail && fault(F_LOCKERR)) { trace("lock FAILS (injected)"); return EAGAIN; }
    for (;;)
    {
        Sync& s = sync_of(a);
        Fiber* f = G->cur;
        if (s.owner < 0 && s.readers == 0)
        {
            s.owner = f->id; s.count = 1; f->held++; f->vc.join(s.vc);
            mix(0x10C4 ^ uint64_t(f->id) << 20);
            return 0;
        }
        if (s.owner == f->id)
        {
            if (recursive) { s.count++; f->held++; return 0; }
            if (tryOnly) return EBUSY;
            if (errcheck) return EDEADLK;
            violate("deadlock", "client %d locks a mutex it already holds (op %d)", f->id, f->op);
        }
        if (tryOnly) return EBUSY;
        if (s.rd[f->id]) violate("deadlock", "client %d locks exclusively what it already holds shared (op %d)", f->id, f->op);
        probe("lock_contended");
        block_on(a);
    }
}
static int unlock_common(uintptr_t a)
{
    step_point();
    addr_check(a, 8, AW, 0);
    Sync& s = sync_of(a);
    Fiber* f = G->cur;
    if (s.owner == f->id)
    {
        f->held--;
        if (--s.count == 0) { s.owner = -1; s.vc.join(f->vc); tick(f); wake(a); }
    }
    else if (s.rd[f->id])
    {
        s.rd[f->id]--; s.readers--; f->held--; s.vc.join(f->vc); tick(f);
        if (s.readers == 0) wake(a);
    }
    else violate("unlock-not-owner", "client %d unlocks a lock held by client %d (op %d)", f->id, s.owner, f->op);
    mix(0x0410C4 ^ uint64_t(f->id) << 20);
    step_point();
    return 0;
}
static int rdlock_common(uintptr_t a, bool tryOnly)
{
    step_point();
    addr_check(a, 8, AW, 0);
    race_check(a, 8, AW, 0);
    for (;;)
    {
        Sync& s = sync_of(a);
        Fiber* f = G->cur;
        if (s.owner < 0) { s.readers++; s.rd[f->id]++; f->held++; f->vc.join(s.vc); return 0; }
        if (s.owner == f->id) { if (tryOnly) return EBUSY; return EDEADLK; }
        if (tryOnly) return EBUSY;
        block_on(a);
    }
}
extern "C" {
    int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!rt_sut) return __real_pthread_mutex_lock(m); int k = m->__data.__kind & 3; return lock_common(uintptr_t(m), k == PTHREAD_MUTEX_RECURSIVE_NP, k == PTHREAD_MUTEX_ERRORCHECK_NP, false); }
    int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!rt_sut) return __real_pthread_mutex_trylock(m); int k = m->__data.__kind & 3; return lock_common(uintptr_t(m), k == PTHREAD_MUTEX_RECURSIVE_NP, false, true); }
    int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { if (!rt_sut) return __real_pthread_mutex_timedlock(m, t); return __wrap_pthread_mutex_lock(m); }
    int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) { if (!rt_sut) return __real_pthread_mutex_clocklock(m, c, t); return __wrap_pthread_mutex_lock(m); }
    int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!rt_sut) return __real_pthread_mutex_unlock(m); return unlock_common(uintptr_t(m)); }
    int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!rt_sut) return __real_pthread_rwlock_wrlock(m); return lock_common(uintptr_t(m), false, true, false, false); }
    int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!rt_sut) return __real_pthread_rwlock_trywrlock(m); return lock_common(uintptr_t(m), false, false, true); }
    int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!rt_sut) return __real_pthread_rwlock_rdlock(m); return rdlock_common(uintptr_t(m), false); }
    int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!rt_sut) return __real_pthread_rwlock_tryrdlock(m); return rdlock_common(uintptr_t(m), true); }
    int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!rt_sut) return __real_pthread_rwlock_unlock(m); return unlock_common(uintptr_t(m)); }
    int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { if (!rt_sut) return __real_pthread_spin_lock(m); return lock_common(uintptr_t(m), false, false, false); }
    int __wrap_pthread_spin_trylock(pthread_spinlock_t* m) { if (!rt_sut) return __real_pthread_spin_trylock(m); return lock_common(uintptr_t(m), false, false, true); }
    int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { if (!rt_sut) return __real_pthread_spin_unlock(m); return unlock_common(uintptr_t(m)); }
    pthread_t __wrap_pthread_self(void) { if (!rt_sut) return __real_pthread_self(); return pthread_t(0x1000 + G->cur->id * 0x100); }

    static void relinquish()
    {
        step_point();
        Fiber* f = G->cur;
        if (!G->mt || f->id == 0) return;
        Fiber* t = pick_next(f, 0, false);
        if (t) { if (t->stallUntil > G->steps) t->stallUntil = 0; switch_to(t); }
    }
    int __wrap_sched_yield(void) { if (!rt_sut) return __real_sched_yield(); relinquish(); return 0; }
    int __wrap_nanosleep(const timespec* a, timespec* b) { if (!rt_sut) return __real_nanosleep(a, b); relinquish(); return 0; }
    int __wrap_clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) { if (!rt_sut) return __real_clock_nanosleep(c, f, a, b); relinquish(); return 0; }
    int __wrap_usleep(useconds_t u) { if (!rt_sut) return __real_usleep(u); relinquish(); return 0; }
    long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) { if (!rt_sut) return __real_syscall(n, a, b, c, d, e, f); relinquish(); return 0; }

    int __wrap___cxa_guard_acquire(uint64_t* g)
    {
        if (!rt_sut) return __real___cxa_guard_acquire(g);
        step_point();
        for (;;)
        {
            Sync& s = sync_of(uintptr_t(g));
            if (*reinterpret_cast<char*>(g)) { G->cur->vc.join(s.vc); return 0; }
            if (!s.guard) { s.guard = 1; s.owner = -1; return 1; }
            block_on(uintptr_t(g));
        }
    }
    void __wrap___cxa_guard_release(uint64_t* g)
    {
        if (!rt_sut) { __real___cxa_guard_release(g); return; }
        Sync& s = sync_of(uintptr_t(g));
        *reinterpret_cast<char*>(g) = 1; s.guard = 0; s.vc.join(G->cur->vc); tick(G->cur); wake(uintptr_t(g));
    }
    void __wrap___cxa_guard_abort(uint64_t* g)
    {
        if (!rt_sut) { __real___cxa_guard_abort(g); return; }
        Sync& s = sync_of(uintptr_t(g));
        s.guard = 0; wake(uintptr_t(g));
    }

    // -------------------------------------------------------------------- heap entry points
    void* __wrap_malloc(size_t n) { if (!rt_sut) return __real_malloc(n); void* p = sut_alloc(n, B_MALLOC, 16, RA); if (!p) errno = ENOMEM; return p; }
    void __wrap_free(void* p)
    {
        if (!rt_sut) { if (in_arena(p)) raw_free(p, B_MALLOC, uintptr_t(RA)); else __real_free(p); return; }
        if (p && !in_arena(p) && !(G->running && rt_sut)) { __real_free(p); return; }
        sut_free(p, B_MALLOC, RA);
    }
    void* __wrap_calloc(size_t a, size_t b)
    {
        if (!rt_sut) return __real_calloc(a, b);
        size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr;
        void* p = sut_alloc(n, B_MALLOC, 16, RA); if (p) __builtin_memset(p, 0, n); return p;
    }
    void* __wrap_realloc(void* o, size_t n)
    {
        if (!rt_sut) return __real_realloc(o, n);
        void* p = sut_alloc(n, B_MALLOC, 16, RA);
        if (p && o) { __builtin_memcpy(p, o, std::min(n, block_size(o))); sut_free(o, B_MALLOC, RA); }
        return p;
    }
    int __wrap_posix_memalign(void** out, size_t al, size_t n) { if (!rt_sut) return __real_posix_memalign(out, al, n); void* p = sut_alloc(n, B_MALLOC, al, RA); if (!p) return ENOMEM; *out = p; return 0; }
    void* __wrap_aligned_alloc(size_t al, size_t n) { if (!rt_sut) return __real_aligned_alloc(al, n); return sut_alloc(n, B_MALLOC, al, RA); }
    void* __wrap_memalign(size_t al, size_t n) { if (!rt_sut) return __real_memalign(al, n); return sut_alloc(n, B_MALLOC, al, RA); }
}

static void* new_common(size_t n, BlockKind k, size_t al, bool nothrow, void* pc)
{
    void* p;
    if (rt_sut) p = sut_alloc(n, k, al, pc);
    else p = al > 16 ? __real_aligned_alloc(al, (n + al - 1) & ~(al - 1)) : __real_malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void delete_common(void* p, BlockKind k, void* pc)
{
    if (!p) return;
    if (in_arena(p)) { if (rt_sut) sut_free(p, k, pc); else raw_free(p, k, uintptr_t(pc)); }
    else __real_free(p);
}
void* operator new(size_t n) { return new_common(n, B_NEW, 16, false, RA); }
void* operator new[](size_t n) { return new_common(n, B_NEWARR, 16, false, RA); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_common(n, B_NEW, 16, true, RA); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_common(n, B_NEWARR, 16, true, RA); }
void* operator new(size_t n, std::align_val_t a) { return new_common(n, B_NEWALIGNED, size_t(a), false, RA); }
void* operator new[](size_t n, std::align_val_t a) { return new_common(n, B_NEWALIGNED, size_t(a), false, RA); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return new_common(n, B_NEWALIGNED, size_t(a), true, RA); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return new_common(n, B_NEWALIGNED, size_t(a), true, RA); }
void operator delete(void* p) noexcept { delete_common(p, B_NEW, RA); }
void operator delete[](void* p) noexcept { delete_common(p, B_NEWARR, RA); }
void operator delete(void* p, size_t) noexcept { delete_common(p, B_NEW, RA); }
void operator delete[](void* p, size_t) noexcept { delete_common(p, B_NEWARR, RA); }
void operator delete(void* p, const std::nothrow_t&) noexcept { delete_common(p, B_NEW, RA); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { delete_common(p, B_NEWARR, RA); }
void operator delete(void* p, std::align_val_t) noexcept { delete_common(p, B_NEWALIGNED, RA); }
void operator delete[](void* p, std::align_val_t) noexcept { delete_common(p, B_NEWALIGNED, RA); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { delete_common(p, B_NEWALIGNED, RA); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { delete_common(p, B_NEWALIGNED, RA); }
