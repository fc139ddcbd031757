// C12, C15, C16: trivial_vector and trivial_array against a plain sequence, over many allocators.
#pragma once
#include "stubs.h"

#include <algorithm>

namespace sim
{
    using namespace rt;
    using namespace ktl;

    // ------------------------------------------------------------ elements
    struct P12 { int a, b, c; };
    struct P40 { int64_t a[5]; };
    struct alignas(16) P32 { int a[8]; };
    inline bool same(uint8_t x, uint8_t y) { return x == y; }
    inline bool same(int x, int y) { return x == y; }
    inline bool same(double x, double y) { return std::memcmp(&x, &y, sizeof x) == 0; }
    template<typename T> bool same(const T& x, const T& y) { return std::memcmp(&x, &y, sizeof x) == 0; }
    template<typename T> struct Elem;
    template<> struct Elem<uint8_t> { static uint8_t mk(int i) { return uint8_t(i * 37 + 11); } };
    template<> struct Elem<int> { static int mk(int i) { return i * 1000003 + 7; } };
    template<> struct Elem<double> { static double mk(int i) { return i * 0.37 - 5; } };
    template<> struct Elem<P12> { static P12 mk(int i) { return { i, ~i, i * 77 }; } };
    template<> struct Elem<P40> { static P40 mk(int i) { P40 p; for (int k = 0; k < 5; k++) p.a[k] = int64_t(i) * 1000 + k; return p; } };
    template<> struct Elem<P32> { static P32 mk(int i) { P32 p; for (int k = 0; k < 8; k++) p.a[k] = i * 8 + k; return p; } };

    // ------------------------------------------------------------ allocators below the containers
    // mk(i): the i-th allocator (0..2). POOLED: requests are visible in pool(i). TIGHT: may be full at any time.
    struct EnvBase
    {
        static constexpr bool DEF = false, POOLED = false, TIGHT = false, MT = false, EXACT = true, THROWS = false;
        bool broken = false;
        int pool(int) const { return -1; }
        void setup() {}
        void teardown() {}
    };
    struct EnvInst : EnvBase // three allocators that are not equal
    {
        static constexpr bool DEF = true, POOLED = true;
        using Raw = Inst<>;
        Raw mk(int i) { return Raw(i + 1); }
        int pool(int i) const { return i + 1; }
    };
    struct EnvShared : EnvBase
    {
        static constexpr bool DEF = true;
        using Raw = shared<Inst<>>;
        Obj<Raw> r[3];
        void setup() { for (int i = 0; i < 3; i++) { r[i].make(i + 1); } if (op_fault_fired()) broken = true; }
        Raw mk(int i) { return *r[i]; }
        int pool(int i) const { return broken ? -1 : i + 1; }
        void teardown() { for (auto& o : r) o.destroy(); }
    };
    struct EnvRef : EnvBase
    {
        static constexpr bool TIGHT = true; // only serves some sizes
        using FL = freelist<0, 256, Up<5, U_OWNS>>;
        using Raw = reference<FL>;
        Obj<FL> fl[3];
        void setup() { for (auto& o : fl) o.make(); }
        Raw mk(int i) { return Raw(*fl[i]); }
        void teardown() { for (auto& o : fl) o.destroy(); }
    };
    struct EnvMalloc : EnvBase
    {
        static constexpr bool DEF = true;
        using Raw = mallocator;
        Raw mk(int) { return Raw(); }
    };
    struct EnvOverflow : EnvBase
    {
        using Raw = shared<overflow<Up<4, U_OWNS>, SimStream>>;
        SimStream str; Obj<Raw> r[3];
        void setup() { for (auto& o : r) o.make(str); if (op_fault_fired()) broken = true; }
        Raw mk(int i) { return *r[i]; }
        void teardown()
        {
            for (auto& o : r) o.destroy();
            if (!str.text.empty()) violate("overflow-report", "an overflow allocator below containers reports: %s", str.text.c_str());
        }
    };
    struct EnvLinear : EnvBase
    {
        static constexpr bool TIGHT = true;
        using Raw = shared<linear_allocator<512>>;
        Obj<Raw> r[3];
        void setup() { for (auto& o : r) o.make(); }
        Raw mk(int i) { return *r[i]; }
        void teardown() { for (auto& o : r) o.destroy(); }
    };
    struct EnvStack : EnvBase
    {
        static constexpr bool TIGHT = true;
        using Raw = stack_allocator<1024>;
        Obj<stack<1024>> r[3];
        void setup() { for (auto& o : r) o.make(); }
        Raw mk(int i) { return Raw(*r[i]); }
        void teardown() { for (auto& o : r) o.destroy(); }
    };
    struct EnvSeg : EnvBase // small blocks and large blocks from different places
    {
        using Raw = shared<segragator<64, freelist<0, 64, Inst<>>, Inst<>>>;
        Obj<Raw> r[3];
        void setup() { for (int i = 0; i < 3; i++) r[i].make(std::tuple<int>(i), std::tuple<int>(i + 3)); if (op_fault_fired()) broken = true; }
        Raw mk(int i) { return *r[i]; }
        void teardown() { for (auto& o : r) o.destroy(); }
    };
    struct EnvFallback : EnvBase
    {
        using Raw = shared<fallback<linear_allocator<256>, Up<2, U_OWNS>>>;
        Obj<Raw> r[3];
        void setup() { for (auto& o : r) o.make(); if (op_fault_fired()) broken = true; }
        Raw mk(int i) { return *r[i]; }
        void teardown() { for (auto& o : r) o.destroy(); }
    };
    struct EnvCascade : EnvBase
    {
        using Raw = shared<cascading<linear_allocator<1024>>>;
        static constexpr bool TIGHT = true; // blocks larger than a node are refused
        Obj<Raw> r[3];
        void setup() { for (auto& o : r) o.make(); if (op_fault_fired()) broken = true; }
        Raw mk(int i) { return *r[i]; }
        void teardown() { for (auto& o : r) o.destroy(); }
    };
    struct EnvStd : EnvBase
    {
        static constexpr bool THROWS = true;
        struct Raw {};
        Raw mk(int) { return Raw(); }
    };
    struct EnvMT : EnvBase
    {
        static constexpr bool MT = true;
        using Raw = atomic_shared<threaded<segragator<128, freelist<0, 128, Up<5, U_OWNS>>, Up<4, U_OWNS>>>>;
        Obj<Raw> r[1];
        void setup() { for (auto& o : r) o.make(); if (op_fault_fired()) broken = true; }
        Raw mk(int) { return *r[0]; }
        void teardown() { for (auto& o : r) o.destroy(); }
    };
    struct EnvMTOverflow : EnvBase
    {
        static constexpr bool MT = true;
        using Raw = atomic_shared<threaded<overflow<Up<4, U_OWNS>, SimStream>>>;
        SimStream str; Obj<Raw> r[1];
        void setup() { for (auto& o : r) o.make(str); if (op_fault_fired()) broken = true; }
        Raw mk(int) { return *r[0]; }
        void teardown()
        {
            for (auto& o : r) o.destroy();
            if (!str.text.empty()) violate("overflow-report", "an overflow allocator below containers reports: %s", str.text.c_str());
        }
    };
    struct EnvMTCascade : EnvBase
    {
        static constexpr bool MT = true, TIGHT = true;
        using Raw = atomic_shared<threaded<cascading<linear_allocator<1024>>>>;
        Obj<Raw> r[1];
        void setup() { r[0].make(); if (op_fault_fired()) broken = true; }
        Raw mk(int) { return *r[0]; }
        void teardown() { r[0].destroy(); }
    };

    template<typename T, typename Env> struct AllocOf { using type = type_allocator<T, typename Env::Raw>; static type mk(Env& e, int i) { return type(e.mk(i)); } };
    template<typename T> struct AllocOf<T, EnvStd> { using type = std::allocator<T>; static type mk(EnvStd&, int) { return type(); } };

    enum ContOp
    {
        CO_CONSTRUCT = 0, CO_COPY, CO_MOVE, CO_XCOPY, CO_XMOVE, CO_ASSIGN, CO_MASSIGN, CO_SWAP, CO_DESTROY, CO_SELF, CO_RESIZE, CO_WRITE, CO_CHECK,
        CO_PUSH, CO_PUSHM, CO_PUSHR, CO_EMPLACEB, CO_EMPLACE, CO_ERASE, CO_ERASER, CO_POP, CO_CLEAR, CO_RESERVE, CO_PUSHSELF, CO_EMPLACESELF, CO_FILLUP, CO_MASS, CO_NUM
    };

    template<bool V, typename T, typename Env>
    struct Cont : Scenario
    {
        using Alloc = typename AllocOf<T, Env>::type;
        using C = std::conditional_t<V, trivial_vector<T, Alloc>, trivial_array<T, Alloc>>;
        using E = Elem<T>;
        using Ids = std::vector<int>; // -1: not initialised
        struct Slot { Obj<C> o; Ids m; int ai = -1; };
        static constexpr int SLOTS = 4;
        const Plan& plan; UpState up; Env env; Slot slot[5][SLOTS]; int clients; int nextId = 1; uint64_t checks = 0;
        uint64_t heapFails[5];

        explicit Cont(const Plan& p) : plan(p), clients(int(p.knob(K_CLIENTS)))
        {
            if (clients < 1 || !Env::MT) clients = 1;
            if (clients > 4) clients = 4;
        }

        // no value but a byte-sized one is ever used twice
        int id() { return nextId++; }

        Alloc alloc(int i) { Harness h; return AllocOf<T, Env>::mk(env, i % 3); }

        void setup() override
        {
            ups() = &up; up.exclusive = Env::MT;
            for (auto& o : plan.ops) if (o.kind == CO_MASS) { big_blocks(8u << 20); up.limit = 8u << 20; }
            env.setup();
        }

        size_t capOf(const C& c) { if constexpr (V) { Sut s; return c.capacity(); } else { Sut s; return c.size(); } }
        size_t sizeOf(const C& c) { Sut s; return c.size(); }
        const T* dataOf(const C& c) { Sut s; return c.data(); }

        bool matches(Slot& s, const Ids& m)
        {
            const C& c = *s.o;
            if (sizeOf(c) != m.size()) return false;
            const T* d = dataOf(c);
            for (size_t i = 0; i < m.size(); i++) if (m[i] >= 0 && !same(d[i], E::mk(m[i]))) return false;
            return true;
        }

        void verify(Slot& s, const char* what)
        {
            if (!s.o) return;
            C& c = *s.o; const C& k = c; const Ids& m = s.m;
            size_t n = sizeOf(k), cap = capOf(k); const T* d = dataOf(k);
            bool e; { Sut u; e = k.empty(); }
            note(n, cap);
            if (n != m.size()) violate("wrong-size", "%s leaves size %zu instead of %zu (op %d)", what, n, m.size(), op_id());
            if (e != (n == 0)) violate("wrong-size", "empty() yields %d with %zu elements (op %d)", e, n, op_id());
            if (cap < n) violate("wrong-capacity", "capacity %zu below size %zu (op %d)", cap, n, op_id());
            if (cap)
            {
                if (!live_range(d, cap * sizeof(T))) violate("memory-not-held", "%s leaves room for %zu elements where the memory for them is not allocated (op %d)", what, cap, op_id());
                if (reinterpret_cast<uintptr_t>(d) % alignof(T)) violate("misaligned", "elements at %p are not aligned (op %d)", static_cast<const void*>(d), op_id());
                if (Env::POOLED)
                {
                    int where = -1; size_t sz = 0;
                    for (int p = 0; p < 6; p++) { auto it = up.pool[p].live.find(reinterpret_cast<uintptr_t>(d)); if (it != up.pool[p].live.end()) { where = p; sz = it->second; } }
                    if (where < 0) violate("memory-not-held", "%s leaves elements in memory no allocator handed out (op %d)", what, op_id());
                    if (sz < cap * sizeof(T)) violate("memory-not-held", "%s leaves room for %zu elements in a block of %zu bytes (op %d)", what, cap, sz, op_id());
                    if (s.ai >= 0 && where != env.pool(s.ai)) violate("wrong-allocator", "%s takes memory from allocator %d instead of the one it was given, %d (op %d)", what, where, env.pool(s.ai), op_id());
                }
            }
            auto cmp = [&](const T& v, size_t i, const char* how) { if (m[i] >= 0 && !same(v, E::mk(m[i]))) violate("wrong-element", "after %s, element %zu of %zu read through %s is not the one that belongs there (op %d)", what, i, n, how, op_id()); };
            switch (checks++ % 7)
            {
            case 0: for (size_t i = 0; i < n; i++) { const T* v; { Sut u; v = &k[i]; } cmp(*v, i, "operator[] const"); } break;
            case 1: for (size_t i = 0; i < n; i++) { const T* v; { Sut u; v = &k.at(i); } cmp(*v, i, "at()"); } break;
            case 2: { size_t i = 0; const T *b, *x; { Sut u; b = k.begin(); x = k.end(); } if (size_t(x - b) != n) violate("wrong-size", "end() - begin() is not size() (op %d)", op_id()); for (; b != x; ++b) cmp(*b, i++, "iterators"); break; }
            case 3:
            {
                size_t i = n; Sut u; auto b = k.rbegin(); auto x = k.rend();
                for (; b != x; ++b) { const T* p = &*b; Harness h; if (i == 0) violate("wrong-size", "reverse iteration yields more than size() elements (op %d)", op_id()); cmp(*p, --i, "reverse iterators"); }
                if (i != 0) violate("wrong-size", "reverse iteration yields %zu elements fewer than size() (op %d)", i, op_id());
                break;
            }
            case 4: for (size_t i = 0; i < n; i++) { T* v; { Sut u; v = &c[i]; } cmp(*v, i, "operator[]"); } break;
            case 5: { size_t i = 0; T *b, *x; { Sut u; b = c.begin(); x = c.end(); } if (size_t(x - b) != n) violate("wrong-size", "end() - begin() is not size() (op %d)", op_id()); for (; b != x; ++b) cmp(*b, i++, "iterators"); break; }
            default: { T* v; { Sut u; v = c.data(); } for (size_t i = 0; i < n; i++) cmp(v[i], i, "data()"); }
            }
        }

        void verifyOthers(const Slot* except, const char* what)
        {
            int c = client();
            for (auto& s : slot[c])
            {
                if (!s.o) continue;
                if (&s != except && !matches(s, s.m)) violate("other-changed", "%s changes a container that takes no part in it (op %d)", what, op_id());
                const T* d = dataOf(*s.o); size_t cap = capOf(*s.o);
                for (auto& t : slot[c])
                {
                    if (&t <= &s || !t.o || !cap) continue;
                    const T* d2 = dataOf(*t.o); size_t cap2 = capOf(*t.o);
                    if (cap2 && d < d2 + cap2 && d2 < d + cap) violate("memory-shared", "after %s two containers hold the same memory (op %d)", what, op_id());
                }
            }
        }

        bool refused() // may an allocation of the current operation have been refused?
        {
            int c = client();
            if (Env::TIGHT || env.broken || op_fault_fired() || heap_fail_count() != heapFails[c]) return true;
            for (auto& e : up.log[c & 7]) if (e.p == 0) return true;
            return false;
        }

        // the container must now hold `want`; if memory was refused, one of the others will do
        bool settle(Slot& s, const char* what, const Ids& want, std::initializer_list<const Ids*> ifRefused)
        {
            bool ok = matches(s, want), r = refused();
            if (ok) s.m = want;
            else
            {
                const Ids* alt = nullptr;
                if (r) for (const Ids* a : ifRefused) if (!alt && matches(s, *a)) alt = a;
                if (alt) { s.m = *alt; probe("refusals_survived"); nontrivial(); }
                else if (r && ifRefused.size()) violate("refusal-not-survived", "%s, whose memory was refused, leaves %zu elements: neither the old contents nor the new (op %d)", what, sizeOf(*s.o), op_id());
                else s.m = want; // verify() below says what is wrong
            }
            verify(s, what);
            return ok;
        }

        struct Range { T* p; size_t n; Ids ids; };
        Range range(size_t n)
        {
            Range r; r.n = n; r.p = static_cast<T*>(obj_alloc(n ? n * sizeof(T) : 1, alignof(T) < 16 ? 16 : alignof(T)));
            for (size_t i = 0; i < n; i++) { int x = id(); r.ids.push_back(x); T v = E::mk(x); std::memcpy(static_cast<void*>(r.p + i), &v, sizeof v); }
            return r;
        }

        static constexpr size_t NEVER = size_t(1) << 32; // more elements than any memory here could hold
        // element counts no memory exists for, also ones whose size in bytes wraps around to something small
        static size_t impossible(int64_t b) { return (b & 1) && sizeof(T) > 1 ? size_t(-1) / sizeof(T) + 1 + size_t(b >> 1) : size_t(-1) / size_t(1 + b); }

        void make(Slot& s, const Op& op)
        {
            int ai = int((op.c >> 4) % 3); size_t n = size_t(op.b);
            bool def = Env::DEF && (op.c & 256);
            s.ai = def ? -1 : ai; s.m.clear();
            Ids want; const Ids none;
            auto build = [&](auto&&... x)
            {
                if constexpr (Env::DEF) { if (def) { s.o.make(x...); if (op_fault_fired()) env.broken = true; return; } }
                s.o.make(x..., alloc(ai));
            };
            switch (op.c & 7)
            {
            case 0: build(); break;
            case 1:
                if (!Env::THROWS && (op.c & 0xC8) == 0xC8) { build(impossible(op.b)); probe("impossible_sizes"); break; }
                build(n); want.assign(n, -1); break;
            case 2: case 3: { int x = id(); T v = E::mk(x); build(n, static_cast<const T&>(v)); want.assign(n, x); break; }
            case 4:
            {
                int x = id(), y = id(), z = id();
                switch (n % 4)
                {
                case 0: build(std::initializer_list<T>{}); break;
                case 1: build(std::initializer_list<T>{ E::mk(x) }); want = { x }; break;
                case 2: build(std::initializer_list<T>{ E::mk(x), E::mk(y) }); want = { x, y }; break;
                default: build(std::initializer_list<T>{ E::mk(x), E::mk(y), E::mk(z) }); want = { x, y, z };
                }
                break;
            }
            default: { Range r = range(n); build(static_cast<const T*>(r.p), static_cast<const T*>(r.p + n)); want = r.ids; obj_free(r.p); }
            }
            settle(s, "construction", want, { &none });
        }

        void checkIter(Slot& s, T* it, size_t index, const char* what)
        {
            const T* d = dataOf(*s.o);
            if (it != d + index) violate("wrong-iterator", "%s returns an iterator to position %td instead of %zu (op %d)", what, it - d, index, op_id());
        }

        void exec(const Op& op) override
        {
            int c = client();
            up.log[c & 7].clear(); heapFails[c] = heap_fail_count();
            if (op.a < 0) return;
            Slot* sl = slot[c];
            Slot& s = sl[op.a % SLOTS];
            const char* what = "?"; Slot* also = nullptr;
            if (op.kind == CO_CONSTRUCT)
            {
                if (s.o) { s.o.destroy(); s.m.clear(); }
                make(s, op); what = "construction";
                verifyOthers(&s, what);
                return;
            }
            // operations between two containers
            if (op.kind <= CO_SWAP)
            {
                Slot& t = sl[op.b % SLOTS];
                if (!t.o || &s == &t) return;
                const Ids none, was = s.m, his = t.m;
                also = &t;
                switch (op.kind)
                {
                case CO_COPY: case CO_XCOPY:
                {
                    if (s.o) { s.o.destroy(); s.m.clear(); }
                    const C& src = *t.o;
                    if (op.kind == CO_COPY) { what = "copy construction"; s.ai = -2; s.o.make(src); }
                    else { what = "copy construction with an allocator"; s.ai = int(op.c % 3); s.o.make(src, alloc(s.ai)); }
                    settle(s, what, his, { &none });
                    if (!matches(t, his)) violate("source-changed", "%s changes the container that is copied (op %d)", what, op_id());
                    break;
                }
                case CO_MOVE: case CO_XMOVE:
                {
                    if (s.o) { s.o.destroy(); s.m.clear(); }
                    if (op.kind == CO_MOVE) { what = "move construction"; s.ai = t.ai; s.o.make(std::move(*t.o)); }
                    else { what = "move construction with an allocator"; s.ai = int(op.c % 3); s.o.make(std::move(*t.o), alloc(s.ai)); }
                    bool ok = settle(s, what, his, { &none });
                    // the source is empty, or keeps its elements if there was no memory for them elsewhere
                    t.m = ok || his.empty() ? none : his;
                    if (!matches(t, t.m)) violate("source-changed", "%s leaves the container moved from with %zu elements instead of %zu (op %d)", what, sizeOf(*t.o), t.m.size(), op_id());
                    verify(t, what);
                    probe("moved");
                    break;
                }
                case CO_ASSIGN:
                {
                    if (!s.o) return;
                    what = "copy assignment"; s.ai = -2;
                    { const C& src = *t.o; Sut u; C& r = (*s.o = src); if (&r != &*s.o) { Harness h; violate("wrong-return", "assignment returns something else"); } }
                    settle(s, what, his, { &none, &was });
                    if (!matches(t, his)) violate("source-changed", "%s changes the container that is copied (op %d)", what, op_id());
                    break;
                }
                case CO_MASSIGN:
                {
                    if (!s.o) return;
                    what = "move assignment"; s.ai = -2;
                    { Sut u; C& r = (*s.o = std::move(*t.o)); if (&r != &*s.o) { Harness h; violate("wrong-return", "assignment returns something else"); } }
                    bool ok = settle(s, what, his, { &none, &was });
                    t.m = ok || his.empty() ? none : his;
                    verify(t, what);
                    probe("move_assigned");
                    break;
                }
                default:
                {
                    if (!s.o) return;
                    what = "swap"; s.ai = t.ai = -2;
                    { Sut u; std::swap(*s.o, *t.o); }
                    settle(s, what, his, {}); t.m = was; verify(t, what);
                    probe("swapped");
                }
                }
                verifyOthers(&s, what);
                return;
            }
            if (!s.o) return;
            C& v = *s.o;
            const Ids was = s.m; Ids want = was; const Ids none;
            size_t n = was.size(), cap0 = capOf(v); const T* d0 = dataOf(v);
            auto grown = [&](bool ok) // after an operation that may have needed memory
            {
                if (!ok && (capOf(v) != cap0 || dataOf(v) != d0)) violate("refusal-not-survived", "%s, whose memory was refused, changes the capacity from %zu to %zu (op %d)", what, cap0, capOf(v), op_id());
                if (ok && V && want.size() <= cap0 && want.size() && dataOf(v) != d0) violate("moved-without-need", "%s moves the elements although there was room for %zu (op %d)", what, cap0, op_id());
                if (ok && V && want.size() > cap0) probe("grown");
            };
            switch (op.kind)
            {
            case CO_DESTROY: s.o.destroy(); s.m.clear(); what = "destruction"; break;
            case CO_SELF:
                if (op.c & 1) { what = "assignment to itself"; { Sut u; C& r = v; v = static_cast<const C&>(r); } settle(s, what, was, {}); }
                else { what = "move assignment to itself"; { Sut u; C& r = v; v = std::move(r); } if (matches(s, none)) s.m = none; verify(s, what); }
                break;
            case CO_WRITE: if (n) { size_t i = size_t(op.b) % n; int x = id(); T e = E::mk(x); { Sut u; if (op.c & 1) v[i] = e; else *(v.begin() + long(i)) = e; } s.m[i] = x; what = "writing an element"; verify(s, what); } break;
            case CO_CHECK: verify(s, "nothing"); what = "nothing"; break;
            case CO_RESIZE:
            {
                size_t k = op.c == 9 ? impossible(op.b) : size_t(op.b);
                what = "resize";
                if (Env::THROWS && k > NEVER) return;
                if (k < NEVER) want.resize(k, -1);
                { Sut u; v.resize(k); }
                if (k >= NEVER) { if (sizeOf(v) != n) violate("refusal-not-survived", "resize(%zu) cannot have succeeded, but size() is %zu (op %d)", k, sizeOf(v), op_id()); verify(s, what); grown(false); probe("impossible_sizes"); break; }
                grown(settle(s, what, want, { &was }));
                break;
            }
            case CO_MASS: mass(op, s, what); break;
            default:
                if constexpr (V) { execVector(op, s, what, want, grown); break; }
                else
                {
                    what = "assign"; size_t k = op.kind == CO_PUSH ? n : size_t(op.b);
                    Range r = range(k); want = r.ids;
                    { Sut u; v.assign(static_cast<const T*>(r.p), static_cast<const T*>(r.p + k)); }
                    obj_free(r.p);
                    grown(settle(s, what, want, { &was }) || k == n); // (settle reports if the same number of elements did not fit)
                    if (k == n && !matches(s, want)) violate("wrong-element", "assign of as many elements as there are needs no memory, but does not happen (op %d)", op_id());
                }
            }
            verifyOthers(s.o ? &s : nullptr, what);
        }

        // many more elements than the other operations ever get to
        void mass(const Op& op, Slot& s, const char*& what)
        {
            C& v = *s.o; const Ids was = s.m; Ids want = was; size_t n = size_t(op.b);
            probe(n > 65535 ? "beyond_65535_elements" : "hundreds_of_elements");
            if constexpr (V)
            {
                if (op.c % 4 == 2) { what = "reserve of many elements"; { Sut u; v.reserve(was.size() + n); } progressed(); settle(s, what, was, {}); if (capOf(v) < was.size() + n && !refused()) violate("wrong-capacity", "reserve(%zu) leaves a capacity of %zu (op %d)", was.size() + n, capOf(v), op_id()); }
                if (op.c % 4 != 3)
                {
                    what = "push_back of many elements";
                    for (size_t i = 0; i < n; )
                    {
                        size_t k = op.c % 4 == 1 ? std::min<size_t>(n - i, 500) : 1, before = want.size();
                        if (k == 1) { int x = id(); T e = E::mk(x); { Sut u; v.push_back(static_cast<const T&>(e)); } want.push_back(x); }
                        else { Range r = range(k); { Sut u; v.push_back(static_cast<const T*>(r.p), static_cast<const T*>(r.p + k)); } obj_free(r.p); want.insert(want.end(), r.ids.begin(), r.ids.end()); }
                        progressed(); i += k;
                        if (sizeOf(v) != want.size() && refused()) { want.resize(before); break; }
                    }
                    settle(s, what, want, {});
                    return;
                }
            }
            if (op.c & 4)
            {
                what = "assign of many elements"; Range r = range(n); want = r.ids;
                if constexpr (V) { { Sut u; v.clear(); } s.m.clear(); { Sut u; v.push_back(static_cast<const T*>(r.p), static_cast<const T*>(r.p + n)); } settle(s, what, want, { &s.m }); }
                else { { Sut u; v.assign(static_cast<const T*>(r.p), static_cast<const T*>(r.p + n)); } settle(s, what, want, { &was }); }
                obj_free(r.p);
                return;
            }
            what = "resize to many elements"; want.resize(was.size() + n, -1);
            { Sut u; v.resize(was.size() + n); }
            if (settle(s, what, want, { &was }))
            {
                for (size_t i = was.size(); i < want.size(); i += 1 + i / 64) { int x = id(); T e = E::mk(x); { Sut u; v[i] = e; } want[i] = x; }
                s.m = want; verify(s, what);
            }
        }

        template<typename G> void execVector(const Op& op, Slot& s, const char*& what, Ids& want, G&& grown)
        {
            if constexpr (V)
            {
                C& v = *s.o; const Ids was = s.m; size_t n = was.size(), cap0 = capOf(v);
                size_t pos = n ? size_t(op.b) % n : 0;
                T* it = nullptr;
                auto added = [&](size_t at)
                {
                    bool ok = settle(s, what, want, { &was });
                    if (ok && it) checkIter(s, it, at, what);
                    else if (it) checkIter(s, it, n, what); // end(), if there was no memory
                    grown(ok);
                };
                switch (op.kind)
                {
                case CO_PUSH: { int x = id(); T e = E::mk(x); want.push_back(x); what = "push_back"; { Sut u; it = v.push_back(static_cast<const T&>(e)); } added(n); break; }
                case CO_PUSHM: { int x = id(); T e = E::mk(x); want.push_back(x); what = "push_back(&&)"; { Sut u; it = v.push_back(std::move(e)); } added(n); break; }
                case CO_PUSHR:
                {
                    Range r = range(size_t(op.b)); what = "push_back of a range";
                    want.insert(want.end(), r.ids.begin(), r.ids.end());
                    { Sut u; it = v.push_back(static_cast<const T*>(r.p), static_cast<const T*>(r.p + r.n)); }
                    obj_free(r.p); added(n); break;
                }
                case CO_EMPLACEB: { int x = id(); T e = E::mk(x); want.push_back(x); what = "emplace_back"; { Sut u; it = v.emplace_back(e); } added(n); break; }
                case CO_EMPLACE:
                {
                    int x = id(); T e = E::mk(x); what = "emplace"; size_t at = size_t(op.b) % (n + 1);
                    want.insert(want.begin() + long(at), x);
                    { Sut u; v.emplace(v.begin() + at, e); }
                    added(at); break;
                }
                case CO_ERASE:
                    if (!n) return;
                    what = "erase"; want.erase(want.begin() + long(pos));
                    { Sut u; it = v.erase(v.begin() + pos); }
                    settle(s, what, want, {}); checkIter(s, it, pos, what);
                    break;
                case CO_ERASER:
                {
                    size_t a = size_t(op.b) % (n + 1), b = a + size_t(op.c) % (n + 1 - a); what = "erase of a range";
                    want.erase(want.begin() + long(a), want.begin() + long(b));
                    { Sut u; it = v.erase(v.begin() + a, v.begin() + b); }
                    settle(s, what, want, {}); checkIter(s, it, a, what);
                    break;
                }
                case CO_POP:
                {
                    if (!n) return;
                    T e = E::mk(0); what = "pop_back"; { Sut u; e = v.pop_back(); }
                    if (was.back() >= 0 && !same(e, E::mk(was.back()))) violate("wrong-element", "pop_back yields an element that was not the last (op %d)", op_id());
                    want.pop_back(); settle(s, what, want, {});
                    break;
                }
                case CO_CLEAR: what = "clear"; { Sut u; v.clear(); } settle(s, what, Ids(), {}); break;
                case CO_RESERVE:
                {
                    size_t k = op.c == 9 ? impossible(op.b) : size_t(op.b); what = "reserve";
                    if (Env::THROWS && k > NEVER) return;
                    { Sut u; v.reserve(k); }
                    size_t cap = capOf(v);
                    settle(s, what, want, {});
                    if (cap < k && k < NEVER && !refused()) violate("wrong-capacity", "reserve(%zu) leaves a capacity of %zu (op %d)", k, cap, op_id());
                    if (cap > NEVER) violate("refusal-not-survived", "reserve(%zu) cannot have succeeded, but capacity() is %zu (op %d)", k, cap, op_id());
                    if (cap < cap0) violate("wrong-capacity", "reserve(%zu) shrinks the capacity from %zu to %zu (op %d)", k, cap0, cap, op_id());
                    if (cap < k) { grown(false); if (k > NEVER) probe("impossible_sizes"); }
                    break;
                }
                case CO_PUSHSELF:
                    if (!n) return;
                    what = "adding one of its own elements"; want.push_back(was[pos]);
                    { Sut u; if (op.c % 3 == 0) it = v.push_back(static_cast<const T&>(v[pos])); else if (op.c % 3 == 1) it = v.emplace_back(static_cast<const T&>(v[pos])); else it = v.push_back(std::move(v[pos])); }
                    added(n); probe("own_element_added");
                    break;
                case CO_EMPLACESELF:
                {
                    if (!n) return;
                    size_t at = size_t(op.c) % (n + 1);
                    what = "emplacing one of its own elements"; want.insert(want.begin() + long(at), was[pos]);
                    { Sut u; v.emplace(v.begin() + at, static_cast<const T&>(v[pos])); }
                    added(at); probe("own_element_added");
                    break;
                }
                default: // fill up to the capacity: none of these may need memory
                {
                    what = "push_back within the capacity";
                    size_t k = std::min<size_t>(cap0 - n, 6);
                    for (size_t i = 0; i < k; i++) { int x = id(); want.push_back(x); T e = E::mk(x); { Sut u; it = v.push_back(e); } if (!matches(s, want)) violate("wrong-element", "%s fails (%zu of %zu) (op %d)", what, want.size(), cap0, op_id()); s.m = want; checkIter(s, it, want.size() - 1, what); }
                    grown(true);
                }
                }
            }
        }

        void quiesce() override
        {
            disarm();
            up.log[0].clear(); heapFails[0] = heap_fail_count();
            // memory is available again: every container works normally
            for (int c = 1; c <= clients; c++) for (auto& s : slot[c])
            {
                if (!s.o) continue;
                verify(s, "the run");
                Ids want = s.m; const Ids was = s.m; T e = E::mk(nextId); want.push_back(nextId); nextId++;
                if constexpr (V) { Sut u; s.o->push_back(e); }
                else { { Sut u; s.o->resize(was.size() + 1); } if (sizeOf(*s.o) == want.size()) { Sut u; (*s.o)[was.size()] = e; } }
                settle(s, "adding an element once memory is available", want, { &was });
            }
        }

        void teardown() override
        {
            for (int c = 1; c <= clients; c++) for (auto& s : slot[c]) if (s.o) { verify(s, "the run"); s.o.destroy(); }
            env.teardown();
            for (int k = 0; k < 6; k++) if (!up.pool[k].live.empty()) violate("leak", "%zu blocks were never returned to upstream %d", up.pool[k].live.size(), k);
            ups() = nullptr;
        }
    };

    // kits of one kind of container; the order must be the same for both kinds
    enum { KIT_INST_INT = 0, KIT_INST_BYTE, KIT_INST_P12, KIT_INST_P40, KIT_SHARED_DOUBLE, KIT_SHARED_P32, KIT_REF_INT, KIT_REF_P12, KIT_MALLOC_INT, KIT_MALLOC_P32, KIT_OVERFLOW_BYTE, KIT_OVERFLOW_P12,
           KIT_LINEAR_INT, KIT_STACK_P12, KIT_SEG_P12, KIT_FALLBACK_DOUBLE, KIT_CASC_INT, KIT_STD_P12, KIT_MT_INT, KIT_MT = KIT_MT_INT, KIT_MT_OVERFLOW, KIT_MT_CASC, KIT_NUM };
    Scenario* make_vector_kit(int kit, const Plan& p);
    Scenario* make_array_kit(int kit, const Plan& p);
    Scenario* make_vector_kit2(int kit, const Plan& p);
    Scenario* make_array_kit2(int kit, const Plan& p);
    template<bool V> Scenario* make_kit(int kit, const Plan& p)
    {
        switch (kit)
        {
        case KIT_INST_INT: return new Cont<V, int, EnvInst>(p);
        case KIT_INST_BYTE: return new Cont<V, uint8_t, EnvInst>(p);
        case KIT_INST_P12: return new Cont<V, P12, EnvInst>(p);
        case KIT_INST_P40: return new Cont<V, P40, EnvInst>(p);
        case KIT_SHARED_DOUBLE: return new Cont<V, double, EnvShared>(p);
        case KIT_SHARED_P32: return new Cont<V, P32, EnvShared>(p);
        case KIT_REF_INT: return new Cont<V, int, EnvRef>(p);
        case KIT_REF_P12: return new Cont<V, P12, EnvRef>(p);
        case KIT_MALLOC_INT: return new Cont<V, int, EnvMalloc>(p);
        case KIT_MALLOC_P32: return new Cont<V, P32, EnvMalloc>(p);
        default: return nullptr;
        }
    }
    template<bool V> Scenario* make_kit2(int kit, const Plan& p)
    {
        switch (kit)
        {
        case KIT_OVERFLOW_BYTE: return new Cont<V, uint8_t, EnvOverflow>(p);
        case KIT_OVERFLOW_P12: return new Cont<V, P12, EnvOverflow>(p);
        case KIT_LINEAR_INT: return new Cont<V, int, EnvLinear>(p);
        case KIT_STACK_P12: return new Cont<V, P12, EnvStack>(p);
        case KIT_SEG_P12: return new Cont<V, P12, EnvSeg>(p);
        case KIT_FALLBACK_DOUBLE: return new Cont<V, double, EnvFallback>(p);
        case KIT_CASC_INT: return new Cont<V, int, EnvCascade>(p);
        case KIT_STD_P12: return new Cont<V, P12, EnvStd>(p);
        case KIT_MT_INT: return new Cont<V, int, EnvMT>(p);
        case KIT_MT_OVERFLOW: return new Cont<V, P12, EnvMTOverflow>(p);
        case KIT_MT_CASC: return new Cont<V, int, EnvMTCascade>(p);
        default: return nullptr;
        }
    }
}
