// C13, C14, C15, C16: binary_heap against a multiset, with elements whose lives are tracked.
#pragma once
#include "containers.h"

namespace sim
{
    struct KI { int key, id; };
    inline bool operator==(const KI& a, const KI& b) { return a.key == b.key && a.id == b.id; }
    inline bool operator<(const KI& a, const KI& b) { return a.key < b.key; }
    inline bool operator>(const KI& a, const KI& b) { return a.key > b.key; }
    struct KV { int key, id; }; // what elements can be made from

    // ------------------------------------------------------------ element with a tracked life
    struct TrackReg
    {
        std::map<uintptr_t, uint64_t> live; uint64_t made = 0, gone = 0;
    };
    TrackReg*& tracks();

    class Tracked
    {
    public:
        Tracked(const KV& v) noexcept : m_Key(v.key), m_Id(v.id), m_Self(this), m_State(LIVE) { born(); }
        // A value that has been moved away may be moved or copied on, but it may not be compared, nor returned.
        Tracked(const Tracked& o) noexcept : m_Key(o.m_Key), m_Id(o.m_Id), m_Self(this), m_State(o.m_State) { o.alive("copied"); born(); }
        Tracked(Tracked&& o) noexcept : m_Key(o.m_Key), m_Id(o.m_Id), m_Self(this), m_State(o.m_State) { o.alive("moved"); born(); o.m_State = MOVED; o.m_Key = -7777; }
        Tracked& operator=(const Tracked& o) noexcept { o.alive("copied"); alive("assigned to"); m_Key = o.m_Key; m_Id = o.m_Id; m_State = o.m_State; return *this; }
        Tracked& operator=(Tracked&& o) noexcept
        {
            o.alive("moved"); alive("assigned to");
            int k = o.m_Key; uint32_t st = o.m_State; o.m_State = MOVED; o.m_Key = -7777;
            m_Key = k; m_Id = o.m_Id; m_State = st; return *this;
        }
        ~Tracked()
        {
            Harness h;
            auto* r = tracks(); if (!r) return;
            if (!r->live.count(uintptr_t(this))) violate("destroyed-twice", "an element that was never constructed here, or was destroyed already, is destroyed (op %d)", op_id());
            if (m_Self != this || (m_State != LIVE && m_State != MOVED)) violate("element-overwritten", "an element was overwritten in place before its destruction (op %d)", op_id());
            r->live.erase(uintptr_t(this)); r->gone++;
            m_State = DEAD; m_Self = nullptr;
        }
        KI get() const { return { m_Key, m_Id }; }
        bool spent() const { return m_State == MOVED; }
        void read(const char* what) const
        {
            alive(what);
            if (m_State == MOVED) { Harness h; violate("moved-from-used", "an element whose value has been moved away is %s (op %d)", what, op_id()); }
        }
        friend bool operator==(const Tracked& a, const Tracked& b) { a.read("compared"); b.read("compared"); return a.m_Key == b.m_Key && a.m_Id == b.m_Id; }
        friend bool operator<(const Tracked& a, const Tracked& b) { a.read("compared"); b.read("compared"); return a.m_Key < b.m_Key; }
        friend bool operator>(const Tracked& a, const Tracked& b) { a.read("compared"); b.read("compared"); return a.m_Key > b.m_Key; }

    private:
        enum : uint32_t { LIVE = 0x11CE11CE, MOVED = 0x30CED000, DEAD = 0xDEADDEAD };
        void born()
        {
            Harness h;
            auto* r = tracks(); if (!r) return;
            if (r->live.count(uintptr_t(this))) violate("constructed-twice", "an element is constructed on top of one that has not been destroyed (op %d)", op_id());
            r->live[uintptr_t(this)] = now(); r->made++;
        }
        void alive(const char* what) const
        {
            Harness h;
            auto* r = tracks(); if (!r) return;
            if (!r->live.count(uintptr_t(this))) violate("dead-element-used", "memory that holds no element is %s as one (op %d)", what, op_id());
            if (m_Self != this || (m_State != LIVE && m_State != MOVED)) violate("element-overwritten", "an element that is %s was overwritten in place (op %d)", what, op_id());
        }
        int m_Key, m_Id; const Tracked* m_Self; uint32_t m_State;
    };

    template<typename T> struct HEl;
    template<> struct HEl<int> { static constexpr bool ID = false; static int mk(KI v) { return v.key; } static KI get(int v) { return { v, 0 }; } static long conv(KI v) { return v.key; } };
    template<> struct HEl<KI> { static constexpr bool ID = true; static KI mk(KI v) { return v; } static KI get(const KI& v) { return v; } static KI conv(KI v) { return v; } };
    template<> struct HEl<Tracked> { static constexpr bool ID = true; static Tracked mk(KI v) { return Tracked(KV{ v.key, v.id }); } static KI get(const Tracked& v) { return v.get(); } static KV conv(KI v) { return { v.key, v.id }; } };

    // an element that knows where it lives but has no destructor to speak of; Fill makes it wide
    template<size_t Fill> class Pinned
    {
    public:
        Pinned(const KV& v) noexcept : m_Key(v.key), m_Id(v.id), m_Self(this) { std::memset(m_Fill, v.key, sizeof m_Fill); }
        Pinned(const Pinned& o) noexcept : m_Key(o.m_Key), m_Id(o.m_Id), m_Self(this) { o.alive("copied"); std::memcpy(m_Fill, o.m_Fill, sizeof m_Fill); }
        Pinned& operator=(const Pinned& o) noexcept { o.alive("copied"); alive("assigned to"); m_Key = o.m_Key; m_Id = o.m_Id; std::memmove(m_Fill, o.m_Fill, sizeof m_Fill); return *this; }
        KI get() const { return { m_Key, m_Id }; }
        void read(const char* what) const
        {
            alive(what); Harness h;
            for (char c : m_Fill) if (c != char(m_Key)) violate("element-overwritten", "the inside of an element that is %s has changed (op %d)", what, op_id());
        }
        friend bool operator==(const Pinned& a, const Pinned& b) { a.read("compared"); b.read("compared"); return a.m_Key == b.m_Key && a.m_Id == b.m_Id; }
        friend bool operator<(const Pinned& a, const Pinned& b) { a.read("compared"); b.read("compared"); return a.m_Key < b.m_Key; }
        friend bool operator>(const Pinned& a, const Pinned& b) { a.read("compared"); b.read("compared"); return a.m_Key > b.m_Key; }

    private:
        void alive(const char* what) const { if (m_Self != this) { Harness h; violate("dead-element-used", "memory in which no element was constructed is %s as one (op %d)", what, op_id()); } }
        int m_Key, m_Id; const Pinned* m_Self; char m_Fill[Fill];
    };
    template<size_t Fill> struct HEl<Pinned<Fill>> { static constexpr bool ID = true; static Pinned<Fill> mk(KI v) { return Pinned<Fill>(KV{ v.key, v.id }); } static KI get(const Pinned<Fill>& v) { return v.get(); } static KV conv(KI v) { return { v.key, v.id }; } };
    template<> struct HEl<uint8_t> { static constexpr bool ID = false; static uint8_t mk(KI v) { return uint8_t(v.key); } static KI get(uint8_t v) { return { v, 0 }; } static int conv(KI v) { return v.key; } };

    template<typename T> bool spent(const T&) { return false; }
    inline bool spent(const Tracked& t) { return t.spent(); }

    // a comparison with state, which has to travel with the heap
    struct Dir
    {
        int mode = 0;
        template<typename T> bool operator()(const T& a, const T& b) const
        {
            switch (mode) { case 0: return a < b; case 1: return a > b; default: return weight(HEl<T>::get(a)) < weight(HEl<T>::get(b)); }
        }
        static int weight(KI v) { return (v.key * 7) % 5; }
    };
    inline bool before(int mode, KI a, KI b) { return mode == 0 ? a.key < b.key : mode == 1 ? a.key > b.key : Dir::weight(a) < Dir::weight(b); }
    template<typename Comp, typename T> struct CompOf;
    template<typename T> struct CompOf<std::less<T>, T> { static std::less<T> mk(int) { return {}; } static int mode(int) { return 0; } };
    template<typename T> struct CompOf<std::greater<T>, T> { static std::greater<T> mk(int) { return {}; } static int mode(int) { return 1; } };
    template<typename T> struct CompOf<Dir, T> { static Dir mk(int m) { Dir d; d.mode = m; return d; } static int mode(int m) { return m; } };

    struct EnvConstruct : EnvBase // counts the constructions and destructions made through it
    {
        using U = Up<3, U_OWNS | U_CONSTRUCT>;
        using Raw = shared<U>;
        Obj<Raw> r[3];
        void setup() { for (auto& o : r) o.make(); if (op_fault_fired()) broken = true; }
        Raw mk(int i) { return *r[i]; }
        void teardown() { for (auto& o : r) o.destroy(); }
    };
    // as above, with two counting allocators underneath: each must see the elements that live in its memory
    struct EnvSplit : EnvBase
    {
        using Raw = shared<segragator<64, freelist<0, 64, Up<3, U_OWNS | U_CONSTRUCT>>, Up<4, U_OWNS | U_CONSTRUCT>>>;
        Obj<Raw> r[3];
        void setup() { for (auto& o : r) o.make(); if (op_fault_fired()) broken = true; }
        Raw mk(int i) { return *r[i]; }
        void teardown() { for (auto& o : r) o.destroy(); }
    };
    struct EnvSpare : EnvBase
    {
        using Raw = shared<fallback<freelist<0, 96, Up<3, U_OWNS | U_CONSTRUCT>>, Up<4, U_OWNS | U_CONSTRUCT>>>;
        Obj<Raw> r[3];
        void setup() { for (auto& o : r) o.make(); if (op_fault_fired()) broken = true; }
        Raw mk(int i) { return *r[i]; }
        void teardown() { for (auto& o : r) o.destroy(); }
    };
    template<typename Env> constexpr bool countsElements = std::is_same_v<Env, EnvConstruct> || std::is_same_v<Env, EnvSplit> || std::is_same_v<Env, EnvSpare>;
    inline void accountsBalance(const UpState& up)
    {
        for (int k = 3; k < 5; k++)
            if (up.pool[k].constructs - up.pool[k].failed != up.pool[k].destroys) violate("wrong-account", "the allocator saw %lld constructions and %lld destructions", (long long)(up.pool[k].constructs - up.pool[k].failed), (long long)up.pool[k].destroys);
    }

    enum HeapOp
    {
        HO_CONSTRUCT = 0, HO_COPY, HO_MOVE, HO_XCOPY, HO_XMOVE, HO_ASSIGN, HO_MASSIGN, HO_SWAP, HO_DESTROY, HO_SELF, HO_RESERVE, HO_CHECK,
        HO_INSERT, HO_INSERTM, HO_INSERTV, HO_INSERTSELF, HO_POP, HO_PEEK, HO_FIND, HO_CLEAR, HO_DRAIN, HO_FILLUP, HO_MASS, HO_NUM
    };

    template<typename T, typename Comp, typename Env>
    struct HeapScen : Scenario
    {
        using Alloc = typename AllocOf<T, Env>::type;
        using H = binary_heap<T, Comp, Alloc>;
        using L = HEl<T>;
        using Bag = std::vector<KI>;
        struct Slot { Obj<H> o; Bag m; int mode = 0, ai = -1; };
        static constexpr int SLOTS = 3;
        static constexpr bool COUNTED = countsElements<Env>;
        const Plan& plan; UpState up; TrackReg reg; Env env; Slot slot[5][SLOTS]; int clients; int nextId = 1; uint64_t checks = 0; uint64_t heapFails[5];

        explicit HeapScen(const Plan& p) : plan(p), clients(int(p.knob(K_CLIENTS)))
        {
            if (clients < 1 || !Env::MT) clients = 1;
            if (clients > 4) clients = 4;
        }

        void setup() override
        {
            ups() = &up; tracks() = &reg; up.exclusive = Env::MT;
            up.released = [this](const void* p, size_t n)
            {
                auto it = reg.live.lower_bound(uintptr_t(p));
                if (it != reg.live.end() && it->first < uintptr_t(p) + n) violate("element-lost", "memory is released with a live element in it (op %d)", op_id());
            };
            for (auto& o : plan.ops) if (o.kind == HO_MASS) { big_blocks(8u << 20); up.limit = 8u << 20; }
            env.setup();
        }

        KI fresh(int64_t key) { return { sizeof(T) == 1 ? int(uint8_t(key)) : int(key), L::ID ? nextId++ : 0 }; }
        Alloc alloc(int i) { Harness h; return AllocOf<T, Env>::mk(env, i % 3); }
        static bool lt(const KI& a, const KI& b) { return a.key != b.key ? a.key < b.key : a.id < b.id; }
        static bool eq(const Bag& a, const Bag& b) { Bag x = a, y = b; std::sort(x.begin(), x.end(), lt); std::sort(y.begin(), y.end(), lt); return x == y; }
        size_t sizeOf(const H& h) { Sut s; return h.size(); }
        size_t capOf(const H& h) { Sut s; return h.capacity(); }
        const T* dataOf(const H& h) { Sut s; return h.data(); }
        KI val(const T& v) { Sut s; if constexpr (std::is_class_v<T> && !std::is_same_v<T, KI>) v.read("read"); return L::get(v); }

        Bag contents(const H& h)
        {
            Bag b; size_t n = sizeOf(h);
            switch (checks++ % 3)
            {
            case 0: { const T *x, *e; { Sut s; x = h.begin(); e = h.end(); } if (size_t(e - x) != n) violate("wrong-size", "end() - begin() is %td, size() is %zu (op %d)", e - x, n, op_id()); for (; x != e; ++x) b.push_back(val(*x)); break; }
            case 1: { const T* d = dataOf(h); for (size_t i = 0; i < n; i++) b.push_back(val(d[i])); break; }
            default:
            {
                Sut s; auto x = h.rbegin(), e = h.rend();
                for (; x != e; ++x) { const T* p = &*x; Harness u; if (b.size() == n) violate("wrong-size", "reverse iteration yields more than size() elements (op %d)", op_id()); b.push_back(val(*p)); }
            }
            }
            return b;
        }
        bool matches(Slot& s, const Bag& m) { return sizeOf(*s.o) == m.size() && eq(contents(*s.o), m); }

        void verify(Slot& s, const char* what)
        {
            if (!s.o) return;
            H& h = *s.o; size_t n = sizeOf(h), cap = capOf(h);
            bool e; { Sut u; e = static_cast<const H&>(h).empty(); }
            note(n, cap);
            if (n != s.m.size()) violate("wrong-size", "%s leaves %zu elements instead of %zu (op %d)", what, n, s.m.size(), op_id());
            if (e != (n == 0)) violate("wrong-size", "empty() yields %d with %zu elements (op %d)", e, n, op_id());
            if (cap < n) violate("wrong-capacity", "capacity %zu below size %zu (op %d)", cap, n, op_id());
            const T* d = dataOf(h);
            if (cap)
            {
                if (!live_range(d, cap * sizeof(T))) violate("memory-not-held", "%s leaves room for %zu elements where the memory for them is not allocated (op %d)", what, cap, op_id());
                if (reinterpret_cast<uintptr_t>(d) % alignof(T)) violate("misaligned", "elements at %p are not aligned (op %d)", static_cast<const void*>(d), op_id());
                if (Env::POOLED)
                {
                    int where = -1; size_t sz = 0;
                    for (int p = 0; p < 6; p++) { auto it = up.pool[p].live.find(reinterpret_cast<uintptr_t>(d)); if (it != up.pool[p].live.end()) { where = p; sz = it->second; } }
                    if (where < 0 || sz < cap * sizeof(T)) violate("memory-not-held", "%s leaves room for %zu elements in a block of %zu bytes (op %d)", what, cap, sz, op_id());
                    if (s.ai >= 0 && where != env.pool(s.ai)) violate("wrong-allocator", "%s takes memory from allocator %d instead of the one it was given, %d (op %d)", what, where, env.pool(s.ai), op_id());
                }
            }
            if (!eq(contents(h), s.m)) violate("wrong-elements", "%s leaves %zu elements which are not those that were inserted and not removed (op %d)", what, n, op_id());
            if (n)
            {
                T* top; { Sut u; top = &h.peek(); }
                first(s, val(*top), "peek", what);
            }
        }
        void first(Slot& s, KI v, const char* how, const char* what)
        {
            bool in = false;
            for (auto& x : s.m)
            {
                if (x == v) in = true;
                if (before(s.mode, x, v)) violate("wrong-order", "after %s, %s yields key %d although key %d comes first (op %d)", what, how, v.key, x.key, op_id());
            }
            if (!in) violate("wrong-elements", "after %s, %s yields an element that is not in the heap (op %d)", what, how, op_id());
        }

        void verifyOthers(const Slot* except, const char* what)
        {
            int c = client();
            for (auto& s : slot[c])
            {
                if (!s.o) continue;
                if (&s != except && !matches(s, s.m)) violate("other-changed", "%s changes a heap that takes no part in it (op %d)", what, op_id());
                const T* d = dataOf(*s.o); size_t cap = capOf(*s.o);
                for (auto& t : slot[c])
                {
                    if (&t <= &s || !t.o || !cap) continue;
                    const T* d2 = dataOf(*t.o); size_t cap2 = capOf(*t.o);
                    if (cap2 && d < d2 + cap2 && d2 < d + cap) violate("memory-shared", "after %s two heaps hold the same memory (op %d)", what, op_id());
                }
            }
            if (clients == 1)
            {
                size_t held = 0; for (auto& s : slot[c]) held += s.m.size();
                if (std::is_same_v<T, Tracked> && reg.live.size() != held) violate("element-lost", "after %s there are %zu live elements, but %zu in the heaps (op %d)", what, reg.live.size(), held, op_id());
                if (COUNTED)
                    for (int k = 3; k < 5; k++)
                    {
                        size_t in = 0;
                        for (auto& s : slot[c]) if (s.m.size()) { auto a = uintptr_t(dataOf(*s.o)); auto it = up.pool[k].live.upper_bound(a); if (it != up.pool[k].live.begin() && (--it, a < it->first + it->second)) in += s.m.size(); }
                        if (up.pool[k].constructs - up.pool[k].destroys != int64_t(in))
                            violate("wrong-account", "after %s allocator %d saw %lld constructions and %lld destructions, but there are %zu elements in its memory (op %d)", what, k - 3, (long long)up.pool[k].constructs, (long long)up.pool[k].destroys, in, op_id());
                    }
            }
        }

        bool refused()
        {
            int c = client();
            if (Env::TIGHT || env.broken || op_fault_fired() || heap_fail_count() != heapFails[c]) return true;
            for (auto& e : up.log[c & 7]) if (e.p == 0) return true;
            return false;
        }
        bool settle(Slot& s, const char* what, const Bag& want, std::initializer_list<const Bag*> ifRefused)
        {
            bool ok = matches(s, want), r = refused();
            if (ok) s.m = want;
            else
            {
                const Bag* alt = nullptr;
                if (r) for (const Bag* a : ifRefused) if (!alt && matches(s, *a)) alt = a;
                if (alt) { s.m = *alt; probe("refusals_survived"); nontrivial(); }
                else if (r && ifRefused.size()) violate("refusal-not-survived", "%s, whose memory was refused, leaves %zu elements: neither the old ones nor the new (op %d)", what, sizeOf(*s.o), op_id());
                else s.m = want;
            }
            verify(s, what);
            return ok;
        }

        static constexpr size_t NEVER = size_t(1) << 32; // more elements than any memory here could hold
        // element counts no memory exists for, also ones whose size in bytes wraps around to something small
        static size_t impossible(int64_t b) { return (b & 1) && sizeof(T) > 1 ? size_t(-1) / sizeof(T) + 1 + size_t(b >> 1) : size_t(-1) / size_t(1 + b); }

        void make(Slot& s, const Op& op)
        {
            int ai = int((op.c >> 4) % 3), mode = int((op.c >> 6) % 3); size_t n = size_t(op.b % 12);
            bool def = Env::DEF && (op.c & 256), comp = op.c & 512;
            s.ai = def ? -1 : ai; s.m.clear(); s.mode = CompOf<Comp, T>::mode(comp ? mode : 0);
            Comp cmp = CompOf<Comp, T>::mk(mode);
            Bag want; const Bag none;
            auto build = [&](auto&&... x)
            {
                if constexpr (Env::DEF)
                {
                    if (def) { if (comp) s.o.make(x..., cmp); else s.o.make(x...); if (op_fault_fired()) env.broken = true; return; }
                }
                if (comp) s.o.make(x..., alloc(ai), cmp); else s.o.make(x..., alloc(ai));
            };
            switch (op.c & 3)
            {
            case 0: build(); break;
            case 1:
                if (!Env::THROWS && n == 11 && (op.c & 16)) { build(impossible(op.b)); probe("impossible_sizes"); if (capOf(*s.o) > NEVER) violate("refusal-not-survived", "construction with room for %zu elements cannot have succeeded, but capacity() is %zu (op %d)", impossible(op.b), capOf(*s.o), op_id()); break; }
                build(n); if (capOf(*s.o) < n && !refused()) violate("wrong-capacity", "construction with room for %zu elements leaves a capacity of %zu (op %d)", n, capOf(*s.o), op_id()); break;
            default:
            {
                for (size_t i = 0; i < n % 5; i++) want.push_back(fresh((op.b * 5 + int64_t(i) * (op.c % 7)) % 11));
                auto v = [&](size_t i) { return L::mk(want[i]); };
                switch (n % 5)
                {
                case 0: build(std::initializer_list<T>{}); break;
                case 1: build(std::initializer_list<T>{ v(0) }); break;
                case 2: build(std::initializer_list<T>{ v(0), v(1) }); break;
                case 3: build(std::initializer_list<T>{ v(0), v(1), v(2) }); break;
                default: build(std::initializer_list<T>{ v(0), v(1), v(2), v(3) });
                }
            }
            }
            settle(s, "construction", want, { &none });
        }

        void destroy(Slot& s) { if (s.o) { s.o.destroy(); s.m.clear(); } }

        void exec(const Op& op) override
        {
            int c = client();
            up.log[c & 7].clear(); heapFails[c] = heap_fail_count();
            if (op.a < 0) return;
            Slot* sl = slot[c]; Slot& s = sl[op.a % SLOTS];
            const char* what = "?"; const Bag none;
            if (op.kind == HO_CONSTRUCT) { destroy(s); make(s, op); verifyOthers(&s, "construction"); return; }
            if (op.kind <= HO_SWAP)
            {
                Slot& t = sl[op.b % SLOTS];
                if (!t.o || &s == &t) return;
                const Bag was = s.m, his = t.m;
                switch (op.kind)
                {
                case HO_COPY: case HO_XCOPY:
                {
                    destroy(s); const H& src = *t.o; s.mode = t.mode;
                    if (op.kind == HO_COPY) { what = "copy construction"; s.ai = -2; s.o.make(src); }
                    else { what = "copy construction with an allocator"; s.ai = int(op.c % 3); s.o.make(src, alloc(s.ai)); }
                    settle(s, what, his, { &none });
                    if (!matches(t, his)) violate("source-changed", "%s changes the heap that is copied (op %d)", what, op_id());
                    break;
                }
                case HO_MOVE: case HO_XMOVE:
                {
                    destroy(s); s.mode = t.mode;
                    if (op.kind == HO_MOVE) { what = "move construction"; s.ai = t.ai; s.o.make(std::move(*t.o)); }
                    else { what = "move construction with an allocator"; s.ai = int(op.c % 3); s.o.make(std::move(*t.o), alloc(s.ai)); }
                    bool ok = settle(s, what, his, { &none });
                    t.m = ok || his.empty() ? none : his;
                    if (!matches(t, t.m)) violate("source-changed", "%s leaves the heap moved from with %zu elements instead of %zu (op %d)", what, sizeOf(*t.o), t.m.size(), op_id());
                    verify(t, what); probe("moved");
                    break;
                }
                case HO_ASSIGN:
                {
                    if (!s.o) return;
                    what = "copy assignment"; s.ai = -2; s.mode = t.mode;
                    { const H& src = *t.o; Sut u; *s.o = src; }
                    settle(s, what, his, { &none, &was });
                    if (!matches(t, his)) violate("source-changed", "%s changes the heap that is copied (op %d)", what, op_id());
                    break;
                }
                case HO_MASSIGN:
                {
                    if (!s.o) return;
                    what = "move assignment"; s.ai = -2; s.mode = t.mode;
                    { Sut u; *s.o = std::move(*t.o); }
                    bool ok = settle(s, what, his, { &none, &was });
                    t.m = ok || his.empty() ? none : his;
                    verify(t, what); probe("move_assigned");
                    break;
                }
                default:
                    if (!s.o) return;
                    what = "swap"; s.ai = t.ai = -2; std::swap(s.mode, t.mode);
                    { Sut u; std::swap(*s.o, *t.o); }
                    settle(s, what, his, {}); t.m = was; verify(t, what); probe("swapped");
                }
                verifyOthers(&s, what);
                return;
            }
            if (!s.o) return;
            H& h = *s.o; const Bag was = s.m; Bag want = was; size_t n = was.size(), cap0 = capOf(h); const T* d0 = dataOf(h);
            auto insert = [&](KI v, auto&& f)
            {
                want.push_back(v); T* it;
                { Sut u; it = f(); }
                bool ok = settle(s, what, want, { &was });
                const T* d = dataOf(h);
                if (ok && (it < d || it >= d + want.size() || !(val(*it) == v))) violate("wrong-iterator", "%s returns an iterator that does not lead to the new element (op %d)", what, op_id());
                if (!ok && it != d + n) violate("wrong-iterator", "%s, whose memory was refused, does not return end() (op %d)", what, op_id());
                if (!ok && (capOf(h) != cap0 || d != d0)) violate("refusal-not-survived", "%s, whose memory was refused, changes the capacity from %zu to %zu (op %d)", what, cap0, capOf(h), op_id());
                if (ok && n < cap0 && d != d0) violate("moved-without-need", "%s moves the elements although there was room for %zu (op %d)", what, cap0, op_id());
                if (ok && n >= cap0) probe("grown");
                return ok;
            };
            auto pop = [&]
            {
                KI v;
                {
                    Sut u; T x = h.pop();
                    { Harness g; v = val(x); }
                }
                first(s, v, "pop", what);
                for (size_t i = 0; i < s.m.size(); i++) if (s.m[i] == v) { s.m.erase(s.m.begin() + long(i)); break; }
                verify(s, "pop"); probe("popped");
            };
            switch (op.kind)
            {
            case HO_DESTROY: what = "destruction"; destroy(s); break;
            case HO_SELF:
                if (op.c & 1) { what = "assignment to itself"; { Sut u; H& r = h; h = static_cast<const H&>(r); } settle(s, what, was, {}); }
                else { what = "move assignment to itself"; { Sut u; H& r = h; h = std::move(r); } if (matches(s, none)) s.m = none; verify(s, what); }
                break;
            case HO_RESERVE:
            {
                size_t k = op.c == 9 ? impossible(op.b) : size_t(op.b); what = "reserve";
                if (Env::THROWS && k > NEVER) return;
                { Sut u; h.reserve(k); }
                size_t cap = capOf(h);
                settle(s, what, want, {});
                if (cap < k && k < NEVER && !refused()) violate("wrong-capacity", "reserve(%zu) leaves a capacity of %zu (op %d)", k, cap, op_id());
                if (cap > NEVER) violate("refusal-not-survived", "reserve(%zu) cannot have succeeded, but capacity() is %zu (op %d)", k, cap, op_id());
                if (cap < cap0) violate("wrong-capacity", "reserve(%zu) shrinks the capacity from %zu to %zu (op %d)", k, cap0, cap, op_id());
                if (cap < k && (cap != cap0 || dataOf(h) != d0)) violate("refusal-not-survived", "reserve, whose memory was refused, changes the capacity from %zu to %zu (op %d)", cap0, cap, op_id());
                break;
            }
            case HO_CHECK: what = "nothing"; verify(s, what); break;
            case HO_INSERT: { what = "insert"; KI v = fresh(op.c % 23); T e = L::mk(v); insert(v, [&] { return h.insert(static_cast<const T&>(e)); }); break; }
            case HO_INSERTM: { what = "insert(&&)"; KI v = fresh(op.c % 23); T e = L::mk(v); 
                bool ok = insert(v, [&] { return h.insert(std::move(e)); });
                if (!ok) { if (!(L::get(e) == v) || spent(e)) violate("element-lost", "insert(&&), whose memory was refused, has moved the value away nevertheless (op %d)", op_id()); probe("refused_argument_kept"); }
                break;
            }
            case HO_INSERTV: { what = "insert of a convertible value"; KI v = fresh(op.c % 23); insert(v, [&] { return h.insert(L::conv(v)); }); break; }
            case HO_INSERTSELF:
                if (!n) return;
                {
                    what = "inserting one of its own elements"; size_t i = size_t(op.b) % n; KI v = val(dataOf(h)[i]);
                    insert(v, [&] { return h.insert(static_cast<const T&>(*(h.begin() + i))); }); probe("own_element_added");
                }
                break;
            case HO_POP: what = "the run"; if (n) pop(); break;
            case HO_DRAIN: what = "the run"; for (int64_t k = 0; k <= op.b && !s.m.empty(); k++) pop(); what = "pop"; break;
            case HO_PEEK: what = "peek"; verify(s, what); break;
            case HO_FIND:
            {
                what = "find"; bool known = n && (op.c & 1);
                KI v = known ? was[size_t(op.b) % n] : KI{ int(op.b % 30), L::ID ? -1 : 0 };
                T e = L::mk(v); const T* it; const T* d = dataOf(h);
                { Sut u; it = static_cast<const H&>(h).find(e); }
                bool in = false; for (auto& x : was) if (x == v) in = true;
                if (in && (it < d || it >= d + n || !(val(*it) == v))) violate("wrong-find", "find does not find an element of the heap (op %d)", op_id());
                if (!in && it != d + n) violate("wrong-find", "find of something that is not in the heap does not return end() (op %d)", op_id());
                break;
            }
            case HO_MASS:
            {
                // many more elements than the other operations ever get to
                size_t k = size_t(op.b); probe(k > 65535 ? "beyond_65535_elements" : "hundreds_of_elements");
                if (op.c & 4) { what = "reserve of many elements"; { Sut u; h.reserve(n + k); } progressed(); settle(s, what, was, {}); if (capOf(h) < n + k && !refused()) violate("wrong-capacity", "reserve(%zu) leaves a capacity of %zu (op %d)", n + k, capOf(h), op_id()); }
                what = "insert of many elements";
                for (size_t i = 0; i < k; i++)
                {
                    KI v = fresh(int64_t((i * 2654435761u >> 7) % 1000) - ((op.c & 8) ? int64_t(i % 5) : 0)); T e = L::mk(v);
                    { Sut u; if (op.c & 1) h.insert(static_cast<const T&>(e)); else h.insert(std::move(e)); }
                    progressed(); want.push_back(v);
                    if (sizeOf(h) != want.size() && refused()) { want.pop_back(); break; }
                }
                settle(s, what, want, {});
                break;
            }
            case HO_CLEAR: what = "clear"; { Sut u; h.clear(); } settle(s, what, none, {}); break;
            default:
                what = "insert within the capacity";
                for (size_t k = std::min<size_t>(cap0 - n, 5); k--; )
                {
                    KI v = fresh((op.c + int64_t(k) * 7) % 19); T e = L::mk(v); want.push_back(v);
                    { Sut u; h.insert(static_cast<const T&>(e)); }
                    settle(s, what, want, {});
                    if (dataOf(h) != d0) violate("moved-without-need", "%s moves the elements (op %d)", what, op_id());
                }
            }
            verifyOthers(s.o ? &s : nullptr, what);
        }

        void quiesce() override
        {
            disarm();
            up.log[0].clear(); heapFails[0] = heap_fail_count();
            for (int c = 1; c <= clients; c++) for (auto& s : slot[c])
            {
                if (!s.o) continue;
                verify(s, "the run");
                const Bag was = s.m; Bag want = was; KI v = fresh(3); want.push_back(v);
                { T e = L::mk(v); Sut u; s.o->insert(std::move(e)); }
                settle(s, "inserting an element once memory is available", want, { &was });
                // popping everything yields the elements in order
                for (int left = s.m.size() > 4000 ? 40 : 1 << 20; !s.m.empty() && left--; )
                {
                    KI x; { Sut u; T e = s.o->pop(); Harness g; x = val(e); }
                    first(s, x, "pop", "the run");
                    for (size_t i = 0; i < s.m.size(); i++) if (s.m[i] == x) { s.m.erase(s.m.begin() + long(i)); break; }
                }
                verify(s, "popping everything");
                if ((plan.seed & 1) && s.m.empty()) { T e = L::mk(v); { Sut u; s.o->insert(std::move(e)); } want.clear(); if (sizeOf(*s.o)) want.push_back(v); s.m = want; verify(s, "insertion"); }
            }
        }

        void teardown() override
        {
            for (int c = 1; c <= clients; c++) for (auto& s : slot[c]) if (s.o) { verify(s, "the run"); destroy(s); }
            if (!reg.live.empty()) violate("element-lost", "%zu elements are never destroyed", reg.live.size());
            if (COUNTED) accountsBalance(up);
            env.teardown();
            for (int k = 0; k < 6; k++) if (!up.pool[k].live.empty()) violate("leak", "%zu blocks were never returned to upstream %d", up.pool[k].live.size(), k);
            ups() = nullptr; tracks() = nullptr;
        }
    };

    enum
    {
        HK_INT_LESS_INST = 0, HK_INT_GREATER_MALLOC, HK_KI_DIR_INST, HK_KI_LESS_LINEAR, HK_KI_GREATER_REF, HK_TR_LESS_INST, HK_TR_GREATER_CONSTRUCT, HK_TR_DIR_SHARED,
        HK_TR_LESS_OVERFLOW, HK_TR_DIR_SEG, HK_TR_GREATER_FALLBACK, HK_TR_LESS_STACK, HK_TR_DIR_STD, HK_TR_DIR_INST, HK_TR_DIR_CONSTRUCT,
        HK_INT_DIR_CONSTRUCT, HK_KI_GREATER_OVERFLOW, HK_TR_LESS_SPLIT, HK_TR_GREATER_SPARE,
        HK_PIN_DIR_INST, HK_PIN_LESS_CONSTRUCT, HK_WIDE_GREATER_SHARED, HK_WIDE_DIR_SPLIT, HK_U8_GREATER_INST,
        HK_TR_DIR_MT, HK_HEAP_MT = HK_TR_DIR_MT, HK_TR_LESS_MTOVERFLOW, HK_KI_DIR_MTCASC, HK_HEAP_NUM
    };
    Scenario* make_heap_kit(int kit, const Plan& p);
    Scenario* make_heap_kit2(int kit, const Plan& p);
}
