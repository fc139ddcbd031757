// C11: handles compare equal exactly when they share the same allocator.
#include "stubs.h"

using namespace rt;
using namespace ktl;

namespace sim
{
    enum Exactness { EX_EXACT, EX_STATE }; // EX_STATE: different state must compare unequal; the same state says nothing about contents

    struct HAny
    {
        std::vector<int> truth;  // identities of the state behind the handle
        bool valid = true;
        virtual ~HAny() {}
        virtual int group() const = 0;                 // handles of the same group can be compared
        virtual bool eq(HAny&) = 0;
        virtual bool ne(HAny&) = 0;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual HAny* copy() = 0;                      // may be null
        virtual HAny* moved() { return nullptr; }      // move constructed, where that has to leave the source equal
        virtual HAny* rebind(bool) { return nullptr; }    // true: from an rvalue
        virtual HAny* unwrap() { return nullptr; }
        virtual void assign(HAny&) {}
        virtual bool assignable(HAny&) { return false; }
        virtual bool swappable(HAny&) { return false; }
        virtual void swap(HAny&) {}
        virtual void destroy() = 0;
    };

    template<typename A> struct HBase : HAny { virtual A& raw() = 0; };

    template<typename A, int G> struct HT : HBase<A>
    {
        Obj<A> o;
        A& raw() override { return *o; }
        int group() const override { return G; }
        bool eq(HAny& h) override;
        bool ne(HAny& h) override;
        void* allocate(size_t n) override { return o->allocate(n); }
        void deallocate(void* p, size_t n) override { o->deallocate(p, n); }
        HAny* copy() override
        {
            if constexpr (std::is_copy_constructible_v<A>) { auto* n = new HT(); const A& c = *o; n->o.make(c); n->truth = this->truth; return n; }
            else return nullptr;
        }
        HAny* rebind(bool) override;
        bool assignable(HAny& h) override { return std::is_copy_assignable_v<A> && dynamic_cast<HT*>(&h); }
        void assign(HAny& h) override { if constexpr (std::is_copy_assignable_v<A>) { const A& c = *static_cast<HT&>(h).o; Sut s; *o = c; } this->truth = h.truth; }
        bool swappable(HAny& h) override { return std::is_copy_assignable_v<A> && dynamic_cast<HT*>(&h) && &h != this; }
        void swap(HAny& h) override { if constexpr (std::is_copy_assignable_v<A>) { A& c = *static_cast<HT&>(h).o; Sut s; std::swap(*o, c); } std::swap(this->truth, h.truth); }
        void destroy() override { o.destroy(); }
    };

    // a typed view; all views of one raw type form a group with each other
    template<typename A, int G, typename U> struct TT : HAny
    {
        using T = type_allocator<U, A>;
        Obj<T> o;
        static constexpr size_t count(size_t n) { return (n + sizeof(U) - 1) / sizeof(U); }
        int group() const override { return G + 100; }
        bool cmp(HAny& h, bool want);
        bool eq(HAny& h) override { return cmp(h, true); }
        bool ne(HAny& h) override { return cmp(h, false); }
        void* allocate(size_t n) override { return o->allocate(count(n)); }
        void deallocate(void* p, size_t n) override { o->deallocate(static_cast<U*>(p), count(n)); }
        HAny* copy() override
        {
            auto* n = new TT(); const T& c = *o; n->o.make(c); n->truth = this->truth; return n;
        }
        HAny* moved() override
        {
            auto* n = new TT(); n->o.make(std::move(*o)); n->truth = this->truth; return n;
        }
        HAny* rebind(bool rv) override
        {
            using V = std::conditional_t<std::is_same_v<U, int>, double, std::conditional_t<std::is_same_v<U, double>, char, int>>;
            auto* n = new TT<A, G, V>(); T& c = *o;
            if (rv) n->o.make(std::move(c)); else n->o.make(static_cast<const T&>(c));
            n->truth = truth; return n;
        }
        bool assignable(HAny& h) override { return dynamic_cast<TT*>(&h); }
        void assign(HAny& h) override { const T& c = *static_cast<TT&>(h).o; { Sut s; *o = c; } truth = h.truth; }
        bool swappable(HAny& h) override { return dynamic_cast<TT*>(&h) && &h != this; }
        void swap(HAny& h) override { T& c = *static_cast<TT&>(h).o; { Sut s; std::swap(*o, c); } std::swap(truth, h.truth); }
        void destroy() override { o.destroy(); }
    };
    template<typename A, int G, typename U> bool TT<A, G, U>::cmp(HAny& h, bool want)
    {
        Sut s; const T& a = *o;
        if (auto* x = dynamic_cast<TT<A, G, int>*>(&h)) { const auto& b = *x->o; return want ? a == b : a != b; }
        if (auto* x = dynamic_cast<TT<A, G, double>*>(&h)) { const auto& b = *x->o; return want ? a == b : a != b; }
        auto* x = static_cast<TT<A, G, char>*>(&h); const auto& b = *x->o; return want ? a == b : a != b;
    }
    template<typename A, int G> bool HT<A, G>::eq(HAny& h) { const A& b = static_cast<HBase<A>&>(h).raw(); Sut s; const A& a = *o; return a == b; }
    template<typename A, int G> bool HT<A, G>::ne(HAny& h) { const A& b = static_cast<HBase<A>&>(h).raw(); Sut s; const A& a = *o; return a != b; }
    template<typename A, int G> HAny* HT<A, G>::rebind(bool)
    {
        if constexpr (std::is_copy_constructible_v<A> && std::is_nothrow_copy_constructible_v<A> && std::is_copy_assignable_v<A>)
        { auto* n = new TT<A, G, int>(); const A& c = *o; n->o.make(c); n->truth = this->truth; return n; }
        else return nullptr;
    }

    enum
    {
        HK_SHARED = 0, HK_SHARED_LINEAR, HK_SHARED_CASC, HK_REFERENCE, HK_REFERENCE_LINEAR, HK_MALLOC, HK_STACK, HK_LINEAR, HK_SEG, HK_FALLBACK, HK_OVERFLOW, HK_THREADED, HK_FREELIST,
        HK_CASCADING, HK_SEG_STACK, HK_NESTED_SHARED, HK_GLOBAL, HK_FALLBACK_LINEAR, HK_NULLA,
        HK_MT, HK_MT_SHARED = HK_MT, HK_MT_GLOBAL, HK_MT_REFERENCE, HK_MT_STACK, HK_NUM
    };
    using I = Inst<>;
    using FL = freelist<0, 64, Up<5, U_OWNS>>;
    using TFL = threaded<freelist<0, 64, Up<5, U_OWNS>>>;
    using L256 = linear_allocator<256>;

    struct Handles : Scenario
    {
        const Plan& plan; UpState up; int kind, clients; Exactness exact = EX_EXACT;
        struct Grant { void* p; size_t n; std::vector<int> truth; int group; uint64_t tag; };
        std::vector<HAny*> hs[8]; std::vector<Grant> gs[8], mail[2];
        std::vector<HAny*> roots;
        Obj<FL> fl[3]; Obj<L256> lin[3]; Obj<stack<256>> st[3]; Obj<TFL> tfl[3];
        int nextState = 100; uint64_t nextTag = 1;

        explicit Handles(const Plan& p) : plan(p), kind(int(p.knob(K_USER) % HK_NUM)), clients(int(p.knob(K_CLIENTS)))
        {
            if (clients < 1) clients = 1;
            if (clients > 4) clients = 4;
            if (kind < HK_MT) clients = 1;
            if (kind == HK_LINEAR || kind == HK_FREELIST || kind == HK_CASCADING || kind == HK_THREADED || kind == HK_FALLBACK_LINEAR || kind == HK_OVERFLOW) exact = EX_STATE;
        }
        using G2 = global<freelist<0, 64, mallocator>>;
        using GT = global<threaded<freelist<0, 64, mallocator>>>;

        template<typename A, typename... X> HAny* mk(std::vector<int> truth, X&&... x) { auto* h = new HT<A, 1>(); h->truth = truth; h->o.make(std::forward<X>(x)...); return h; }

        HAny* make(int64_t a, int64_t b)
        {
            int i = int(a % 3), j = int(b % 3), id = ++nextState;
            switch (kind)
            {
            case HK_SHARED: return mk<shared<FL>>({ id });
            case HK_SHARED_LINEAR: return mk<shared<L256>>({ id });
            case HK_SHARED_CASC: return mk<atomic_shared<cascading<linear_allocator<64>>>>({ id });
            case HK_REFERENCE: return mk<reference<FL>>({ i }, *fl[i]);
            case HK_REFERENCE_LINEAR: return mk<reference<L256>>({ i }, *lin[i]);
            case HK_MALLOC: return mk<mallocator>({ 0 });
            case HK_STACK: return mk<stack_allocator<256>>({ i }, *st[i]);
            case HK_LINEAR: return mk<L256>({ id });
            case HK_SEG: return mk<segragator<32, I, I>>({ i, j }, i, j);
            case HK_FALLBACK: return mk<fallback<I, I>>({ i, 3 }, i, 3);   // two primaries on one fallback differ as well
            case HK_OVERFLOW: return mk<overflow<I, SimStream>>({ i }, stream_(), i);
            case HK_THREADED: return mk<threaded<I>>({ i }, i);
            case HK_FREELIST: return mk<freelist<0, 64, I>>({ i }, i);
            case HK_CASCADING: return mk<cascading<linear_allocator<64>>>({ id });
            case HK_SEG_STACK: return mk<segragator<32, stack_allocator<256>, stack_allocator<256>>>({ i, i == j ? (j + 1) % 3 : j }, *st[i], *st[i == j ? (j + 1) % 3 : j]);
            case HK_NESTED_SHARED: return mk<shared<shared<FL>>>({ id });
            case HK_GLOBAL: return mk<G2>({ 0 });
            case HK_FALLBACK_LINEAR: return mk<fallback<L256, I>>({ id, 3 }, std::tuple<>(), std::tuple<int>(3));
            case HK_NULLA: return mk<fallback<null_allocator, I>>({ i }, null_allocator(), i);
            case HK_MT_SHARED: return mk<atomic_shared<TFL>>({ id });
            case HK_MT_GLOBAL: return mk<GT>({ 0 });
            case HK_MT_REFERENCE: return mk<reference<TFL>>({ i }, *tfl[i]);
            case HK_MT_STACK: return mk<atomic_shared<threaded<stack_allocator<256>>>>({ id }, *st[0]);
            default: return nullptr;
            }
        }
        SimStream str; SimStream& stream_() { return str; }

        void setup() override
        {
            ups() = &up;
            up.exclusive = false;
            for (int i = 0; i < 3; i++) { fl[i].make(); lin[i].make(); st[i].make(); tfl[i].make(); }
            int n = kind == HK_MT_STACK ? 1 : 3;
            for (int i = 0; i < n; i++) { HAny* h = make(i, 2 * i + 1); if (op_fault_fired()) h->valid = false; roots.push_back(h); }
            if (clients == 1) { for (HAny* h : roots) hs[1].push_back(h); roots.clear(); }
            else for (int c = 1; c <= clients; c++) for (HAny* h : roots) { HAny* n = h->copy(); if (n) { n->valid = h->valid; hs[c].push_back(n); } }
        }

        void compare(HAny* a, HAny* b)
        {
            if (a->group() != b->group() || !a->valid || !b->valid) return;
            bool e = a->eq(*b), n = a->ne(*b);
            note(1, e, n);
            if (e == n) violate("not-complementary", "== yields %d and != yields %d (op %d)", e, n, op_id());
            if (clients == 1)
            {
                bool r = b->eq(*a), rn = b->ne(*a);
                if (r != e || rn != n) violate("not-symmetric", "a == b yields %d but b == a yields %d (op %d)", e, r, op_id());
            }
            bool same = a->truth == b->truth;
            if (a == b && !e) violate("not-reflexive", "a handle does not compare equal to itself (op %d)", op_id());
            // two cascades that never allocated have nothing that could tell them apart, and nothing to release
            if (!same && e && kind == HK_CASCADING && !outstanding(a) && !outstanding(b)) return;
            if (!same && e) violate("falsely-equal", "handles on different allocators compare equal (op %d)", op_id());
            if (same && !e && exact == EX_EXACT) violate("falsely-unequal", "handles on the same allocator compare unequal (op %d)", op_id());
            probe(e ? "compared_equal" : "compared_unequal");
        }

        bool outstanding(HAny* h) { for (auto& v : gs) for (auto& g : v) if (g.truth == h->truth) return true; for (auto& v : mail) for (auto& g : v) if (g.truth == h->truth) return true; return false; }

        void exec(const Op& op) override
        {
            auto& v = hs[client()]; auto& g = gs[client()];
            auto at = [&](int64_t x) { return v[size_t(x) % v.size()]; };
            auto push = [&](HAny* h, bool valid) { if (!h) return; h->valid = valid; v.push_back(h); };
            switch (op.kind)
            {
            case 0: if (v.size() < 7 && kind != HK_MT_STACK) { HAny* h = make(op.a, op.b); push(h, h && !op_fault_fired()); } break;
            case 1: if (!v.empty() && v.size() < 8) { HAny* s = at(op.a); HAny* n = op.b % 3 == 0 ? s->moved() : nullptr; push(n ? n : s->copy(), s->valid); probe("copied"); } break;
            case 2: if (!v.empty() && v.size() < 8) { HAny* s = at(op.a); HAny* n = s->rebind(op.b & 1); if (n) { push(n, s->valid); probe("rebound"); } } break;
            case 3: if (!v.empty()) { HAny* d = at(op.a); HAny* s = at(op.b); if (d->assignable(*s) && releasable(d)) { d->assign(*s); d->valid = s->valid; probe("assigned"); } } break;
            case 4: if (v.size() > 1) { HAny* d = at(op.a); HAny* s = at(op.b); if (d->swappable(*s)) { d->swap(*s); std::swap(d->valid, s->valid); probe("swapped"); } } break;
            case 5: if (v.size() > 1) { size_t i = size_t(op.a) % v.size(); if (releasable(v[i])) { HAny* h = v[i]; v.erase(v.begin() + long(i)); h->destroy(); delete h; } } break;
            case 6:
                if (!v.empty() && g.size() < 6)
                {
                    HAny* h = at(op.a); if (!h->valid) break;
                    size_t n = 8 * (1 + size_t(op.b) % 8); void* p = nullptr;
                    call([&] { p = h->allocate(n); });
                    if (p) { uint64_t t = nextTag++; payload_fill(p, n, t); g.push_back({ p, n, h->truth, h->group() % 100, t }); }
                }
                break;
            case 7: if (!g.empty()) release(size_t(op.a) % g.size(), op.b); break;
            case 8: // hands a block to whichever client looks into the box next
                if (clients > 1 && !g.empty()) { size_t i = size_t(op.a) % g.size(); int b = int(op.b & 1); bool known = false; for (HAny* x : roots) known |= x->truth == g[i].truth; if (!known) break; mail[b].push_back(g[i]); g.erase(g.begin() + long(i)); hb_release(b); probe("handed_over"); }
                break;
            case 9:
                if (clients > 1 && !mail[op.b & 1].empty())
                {
                    int b = int(op.b & 1); hb_acquire(b);
                    g.push_back(mail[b].back()); mail[b].pop_back();
                    size_t n = g.size(); release(n - 1, op.a);
                    if (g.size() < n) probe("released_by_another_client");
                }
                break;
            default:
                if (!v.empty()) { compare(at(op.a), at(op.b)); }
            }
        }

        // would outstanding memory lose its last handle?
        bool releasable(HAny* h)
        {
            bool others = false;
            for (HAny* x : roots) if (x->truth == h->truth) others = true;
            for (HAny* x : hs[client()]) if (x != h && x->truth == h->truth && x->group() % 100 == h->group() % 100) others = true;
            if (exact == EX_STATE) others = false; // the blocks may need this very object
            if (others) return true;
            for (auto& g : gs[client()]) if (g.truth == h->truth) return false;
            return true;
        }

        void release(size_t gi, int64_t pick)
        {
            int c = client();
            Grant g = gs[c][gi];
            std::vector<HAny*> cand;
            // through any handle that compares equal to one the memory was allocated through
            HAny* origin = nullptr;
            for (HAny* h : hs[c]) if (h->truth == g.truth) { origin = h; break; }
            if (!origin) for (HAny* h : roots) if (h->truth == g.truth) origin = h;
            if (!origin) return;
            cand.push_back(origin);
            for (HAny* h : hs[c]) if (h != origin && h->valid && h->group() == origin->group() && origin->valid) { bool e = origin->eq(*h); if (e && (exact == EX_EXACT)) cand.push_back(h); }
            for (HAny* h : hs[c]) if (h != origin && h->valid && h->group() != origin->group() && h->truth == origin->truth) cand.push_back(h);
            HAny* h = cand[size_t(pick) % cand.size()];
            gs[c].erase(gs[c].begin() + long(gi));
            size_t bad; if (!payload_ok(g.p, g.n, g.tag, &bad)) violate("payload-changed", "byte %zu of an outstanding block changed (op %d)", bad, op_id());
            for (;;) { Outcome r = call([&] { h->deallocate(g.p, g.n); }); if (r == Outcome::ok) break; if (!op_fault_fired()) violate("exception", "deallocate() throws (op %d)", op_id()); }
            if (h != origin) probe("released_through_another_equal_handle");
        }

        void quiesce() override { disarm(); }

        void teardown() override
        {
            std::vector<HAny*> all;
            for (int c = 0; c < 8; c++) { for (auto* h : hs[c]) hs[0].push_back(h); if (c) hs[c].clear(); for (auto& g : gs[c]) if (c) gs[0].push_back(g); if (c) gs[c].clear(); }
            for (auto& b : mail) { for (auto& g : b) gs[0].push_back(g); b.clear(); }
            if (clients == 1) for (auto* a : hs[0]) for (auto* b : hs[0]) compare(a, b);
            if (exact == EX_EXACT) while (!gs[0].empty()) { size_t before = gs[0].size(); release(0, int64_t(before)); if (gs[0].size() == before) violate("no-handle", "no handle is left for outstanding memory"); }
            else while (!gs[0].empty()) { Grant g = gs[0].back(); HAny* o = nullptr; for (auto* h : hs[0]) if (h->truth == g.truth) { o = h; break; } gs[0].pop_back(); if (o) call([&] { o->deallocate(g.p, g.n); }); }
            for (auto* h : hs[0]) { h->destroy(); delete h; }
            for (auto* h : roots) { h->destroy(); delete h; }
            for (int i = 0; i < 3; i++) { fl[i].destroy(); lin[i].destroy(); st[i].destroy(); tfl[i].destroy(); }
            for (int k = 0; k < 6; k++) if (!up.pool[k].live.empty()) violate("leak", "%zu blocks were never returned to upstream %d", up.pool[k].live.size(), k);
            ups() = nullptr;
        }
    };

    static void gen_handles(Rng& r, Plan& p)
    {
        p.knobs.resize(K_USER + 1, 0);
        bool mt = r.chance(40);
        int kind = mt ? int(r.range(HK_MT, HK_NUM - 1)) : int(r.range(0, HK_MT - 1));
        int clients = mt ? int(r.range(2, 3)) : 1;
        p.knobs[K_USER] = kind; p.knobs[K_CLIENTS] = clients;
        int w[11] = { 5, 10, 8, 7, 4, 6, 18, 12, mt ? 7 : 0, mt ? 7 : 0, 30 }; int total = 0;
        for (int i = 0; i < 11; i++) { if (i != 10 && r.chance(20)) w[i] = 0; total += w[i]; }
        int n = mt ? int(r.range(3, 10)) * clients : int(r.range(4, 40));
        for (int i = 0; i < n; i++)
        {
            Op o; o.id = i; o.client = mt ? int(r.range(1, clients)) : 1;
            int x = int(r.below(uint64_t(total))), k = 0; while (x >= w[k]) x -= w[k++];
            o.kind = k; o.a = int64_t(r.below(64)); o.b = int64_t(r.below(64));
            p.ops.push_back(o);
        }
        if (mt) gen_schedule(r, p, clients, 30);
        gen_faults(r, p, { F_HEAP, F_STUB }, 20, 2, 2);
    }
    static Register regHandles({ "handles", "C11", 1, gen_handles, [](const Plan& p) -> Scenario* { return new Handles(p); } });
}
