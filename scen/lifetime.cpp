// C02: a shared allocator lives exactly as long as its handles.
#include "stubs.h"

using namespace rt;
using namespace ktl;

namespace sim
{
    // ------------------------------------------------------------ wrapped allocator with a tracked life
    struct LifeReg
    {
        std::map<const void*, int> alive;     // instance -> id
        std::vector<int> handles;             // by id: live handles known to the clients
        std::vector<int> state;               // 0: created, 1: destroyed
        int used = 0;
    };
    static LifeReg* g_life;

    class Life
    {
    public:
        Life() : Life(0u) {}
        explicit Life(unsigned) : m_Sum(0) // may throw (injected)
        {
            for (auto& u : m_Use) u = 0;
            Harness h;
            if (!g_life) return;
            if (fault(F_THROW)) { trace("an allocator's constructor throws (injected)"); probe("constructor_threw"); throw std::bad_alloc(); }
            m_Id = int(g_life->handles.size());
            if (g_life->alive.count(this)) violate("created-twice", "an allocator is created on top of a live one (op %d)", op_id());
            g_life->alive[this] = m_Id; g_life->handles.push_back(0); g_life->state.push_back(0);
            trace("allocator %d created", m_Id);
        }
        Life(const Life&) = delete;
        Life& operator=(const Life&) = delete;
        ~Life()
        {
            // everything any client ever did through a handle must have happened before
            for (auto& u : m_Use) m_Sum += u;
            Harness h;
            if (!g_life) return;
            auto it = g_life->alive.find(this);
            if (it == g_life->alive.end()) violate("destroyed-twice", "a shared allocator that does not exist (any more) is destroyed (op %d)", op_id());
            trace("allocator %d destroyed, %d handles", it->second, g_life->handles[size_t(it->second)]);
            if (g_life->handles[size_t(it->second)] > 0)
                violate("destroyed-too-early", "the shared allocator is destroyed while %d of its handles are live (op %d)", g_life->handles[size_t(it->second)], op_id());
            g_life->state[size_t(it->second)] = 1;
            g_life->alive.erase(it);
            rt::yield();
        }
        bool operator==(const Life& r) const noexcept { return this == &r; }
        bool operator!=(const Life& r) const noexcept { return this != &r; }
        void* allocate(size_t n) noexcept { use("allocate"); m_Use[client() & 7]++; if (n > 512) return nullptr; return std::malloc(n ? n : 1); }
        void deallocate(void* p, size_t) noexcept { use("deallocate"); m_Use[client() & 7]++; std::free(p); }
        bool owns(void*) const noexcept { use("owns"); return true; }
        size_t max_size() const noexcept { use("max_size"); return 512; }
        int id() const { return m_Id; }
    private:
        void use(const char* what) const
        {
            Harness h;
            if (g_life && !g_life->alive.count(this)) violate("use-after-destruction", "%s reaches a shared allocator that has been destroyed (op %d)", what, op_id());
            if (g_life) g_life->used++;
        }
        uint64_t m_Use[8]; uint64_t m_Sum; int m_Id = -1;
    };

    // ------------------------------------------------------------ handles
    struct Handle
    {
        int id = -1;   // which allocator it refers to (-1: none, moved from or never created)
        virtual ~Handle() {}
        virtual Handle* copy() = 0;
        virtual Handle* move() = 0;
        virtual bool sameKind(const Handle&) const = 0;
        virtual void assign(Handle&) = 0;
        virtual void moveAssign(Handle&) = 0;
        virtual void swap(Handle&) = 0;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual bool owns(void* p) = 0;
        virtual size_t max() = 0;
        virtual bool eq(Handle&) = 0;
        virtual bool ne(Handle&) = 0;
        virtual Handle* rebind() = 0; // a handle of another kind on the same allocator
        virtual bool moves() const = 0; // does moving leave the source empty?
        virtual void destroy() = 0;
    };

    template<typename S, typename U> struct TypedH;

    template<typename S> struct RawH : Handle
    {
        Obj<S> o;
        Handle* copy() override { auto* n = new RawH(); const S& c = *o; n->o.make(c); return n; }
        Handle* move() override { auto* n = new RawH(); n->o.make(std::move(*o)); return n; }
        bool sameKind(const Handle& h) const override { return dynamic_cast<const RawH*>(&h) != nullptr; }
        void assign(Handle& h) override { const S& c = *static_cast<RawH&>(h).o; Sut s; *o = c; }
        void moveAssign(Handle& h) override { S& c = *static_cast<RawH&>(h).o; Sut s; *o = std::move(c); }
        void swap(Handle& h) override { S& c = *static_cast<RawH&>(h).o; Sut s; std::swap(*o, c); }
        void* allocate(size_t n) override { Sut s; return o->allocate(n); }
        void deallocate(void* p, size_t n) override { Sut s; o->deallocate(p, n); }
        bool owns(void* p) override { Sut s; const S& c = *o; return c.owns(p); }
        size_t max() override { Sut s; const S& c = *o; return size_t(c.max_size()); }
        bool eq(Handle& h) override { Sut s; const S& a = *o; const S& b = *static_cast<RawH&>(h).o; return a == b; }
        bool ne(Handle& h) override { Sut s; const S& a = *o; const S& b = *static_cast<RawH&>(h).o; return a != b; }
        Handle* rebind() override;
        bool moves() const override { return true; }
        void destroy() override { o.destroy(); }
    };

    template<typename S, typename U> struct TypedH : Handle
    {
        using T = type_allocator<U, S>;
        Obj<T> o;
        Handle* copy() override { auto* n = new TypedH(); const T& c = *o; n->o.make(c); return n; }
        Handle* move() override { auto* n = new TypedH(); n->o.make(std::move(*o)); return n; } // copies, by the allocator requirements
        bool sameKind(const Handle& h) const override { return dynamic_cast<const TypedH*>(&h) != nullptr; }
        void assign(Handle& h) override { const T& c = *static_cast<TypedH&>(h).o; Sut s; *o = c; }
        void moveAssign(Handle& h) override { T& c = *static_cast<TypedH&>(h).o; Sut s; *o = std::move(c); }
        void swap(Handle& h) override { T& c = *static_cast<TypedH&>(h).o; Sut s; std::swap(*o, c); }
        void* allocate(size_t n) override { Sut s; return o->allocate(n / sizeof(U) + 1); }
        void deallocate(void* p, size_t n) override { Sut s; o->deallocate(static_cast<U*>(p), n / sizeof(U) + 1); }
        bool owns(void* p) override { Sut s; const T& c = *o; return c.owns(static_cast<U*>(p)); }
        size_t max() override { Sut s; const T& c = *o; return size_t(c.max_size()); }
        bool eq(Handle& h) override { Sut s; const T& a = *o; const T& b = *static_cast<TypedH&>(h).o; return a == b; }
        bool ne(Handle& h) override { Sut s; const T& a = *o; const T& b = *static_cast<TypedH&>(h).o; return a != b; }
        Handle* rebind() override
        {
            using V = std::conditional_t<std::is_same_v<U, int>, double, int>;
            auto* n = new TypedH<S, V>(); const T& c = *o; n->o.make(c); return n;
        }
        bool moves() const override { return false; }
        void destroy() override { o.destroy(); }
    };
    template<typename S> Handle* RawH<S>::rebind() { auto* n = new TypedH<S, int>(); const S& c = *o; n->o.make(c); return n; }

    // how: in place or from an argument, untyped or typed
    template<typename S> Handle* fresh_handle(int how)
    {
        if (how & 2)
        {
            auto n = std::make_unique<TypedH<S, unsigned>>();
            if (how & 1) n->o.make(5u); else n->o.make();
            return n.release();
        }
        auto n = std::make_unique<RawH<S>>();
        if (how & 1) n->o.make(5u); else n->o.make();
        return n.release();
    }

    enum { KD_ATOMIC = 0, KD_NOTOMIC, KD_ATOMIC_THREADED, KD_NESTED, KD_NUM };
    static Handle* make_kind_of(int k, int how)
    {
        switch (k)
        {
        case KD_NOTOMIC: return fresh_handle<shared<Life>>(how);
        case KD_ATOMIC_THREADED: return fresh_handle<atomic_shared<threaded<Life>>>(how);
        case KD_NESTED: return fresh_handle<atomic_shared<threaded<freelist<0, 64, Life>>>>(how);
        default: return fresh_handle<atomic_shared<Life>>(how);
        }
    }

    // null if the allocator's constructor threw
    static Handle* make_kind(int k, int how)
    {
        try { return make_kind_of(k, how); }
        catch (const std::bad_alloc&) { if (!op_fault_fired()) violate("unexpected-exception", "creating a shared allocator throws although nothing failed (op %d)", op_id()); return nullptr; }
    }

    enum Ops { L_NEW = 0, L_COPY, L_MOVE, L_ASSIGN, L_MOVEASSIGN, L_SELF, L_SELFMOVE, L_SWAP, L_DROP, L_USE, L_SEND, L_RECV, L_REBIND, L_ROOTCOPY, L_EQ, L_BURST, L_CROWD, L_THIN, L_NUM };
    enum { K_KIND = K_USER, K_ROOTDROP };

    struct Lifetime : Scenario
    {
        const Plan& plan; LifeReg reg; int kind, clients;
        std::vector<Handle*> slots[8]; std::vector<Handle*> crowd[8]; std::vector<Handle*> box[4];
        Handle* root = nullptr;
        bool threadsafe;

        explicit Lifetime(const Plan& p) : plan(p), kind(int(p.knob(K_KIND) % KD_NUM)), clients(int(p.knob(K_CLIENTS)))
        { if (clients < 1) clients = 1; if (clients > 6) clients = 6; threadsafe = kind != KD_NOTOMIC; if (!threadsafe) clients = 1; }

        void grab(Handle* h, int id) { h->id = id; if (id >= 0) reg.handles[size_t(id)]++; }
        int release(Handle* h) { int i = h->id; if (i >= 0) reg.handles[size_t(i)]--; h->id = -1; return i; }

        Handle* fresh(int how)
        {
            size_t before = reg.handles.size();
            Handle* h = make_kind(kind, how);
            if (!h) return h;
            bool failed = op_fault_fired();
            // with several clients creating at the same time the new allocator is the one made by this client: find it by use
            int id = -1;
            if (!failed)
            {
                if (clients == 1) { if (reg.handles.size() == before + 1) id = int(before); }
                else id = lastCreated[client()];
                if (id < 0) violate("not-created", "a new shared handle has no allocator although nothing failed (op %d)", op_id());
            }
            grab(h, id);
            return h;
        }
        int lastCreated[8];

        void setup() override
        {
            g_life = &reg;
            for (auto& l : lastCreated) l = -1;
            lastCreated[0] = -1;
            size_t before = reg.handles.size();
            root = make_kind(kind, 0);
            if (!root) root = make_kind(kind, 0); // its constructor threw
            grab(root, reg.handles.size() > before ? int(before) : -1);
            for (int c = 1; c <= clients; c++) slots[c].push_back(copyOf(root));
        }

        Handle* copyOf(Handle* h)
        {
            int id = h->id;
            if (id >= 0) reg.handles[size_t(id)]++; // the source keeps it alive while the copy is made
            Handle* n = h->copy();
            n->id = id;
            return n;
        }

        void check(int id, const char* what)
        {
            if (clients == 1 && id >= 0)
            {
                bool alive = reg.state[size_t(id)] == 0;
                if (alive && reg.handles[size_t(id)] == 0) violate("not-destroyed", "after %s the last handle is gone but the shared allocator still exists (op %d)", what, op_id());
                if (!alive && reg.handles[size_t(id)] > 0) violate("destroyed-too-early", "after %s the shared allocator is gone although it has handles (op %d)", what, op_id());
            }
        }

        void useHandle(Handle* h, int64_t sel)
        {
            if (h->id < 0) return;
            size_t n = 1 + size_t(sel) % 40;
            void* p = nullptr;
            switch (sel % 5)
            {
            case 4: { size_t m = h->max(); if (!m) violate("handle-lost", "max_size() through a live handle yields 0 (op %d)", op_id()); break; }
            default:
                p = h->allocate(n);
                if (!p) { if (!op_fault_fired()) violate("handle-lost", "allocate() through a live handle fails although nothing else failed (op %d)", op_id()); return; }
                client_write(p, n);
                h->deallocate(p, n);
            }
            probe("handle_used");
        }

        void exec(const Op& op) override
        {
            auto& v = slots[client()];
            auto at = [&](int64_t x) { return size_t(x) % v.size(); };
            switch (op.kind)
            {
            case L_NEW:
                if (v.size() < 6 && clients == 1) { if (Handle* h = fresh(int(op.b & 3))) v.push_back(h); probe("fresh_allocators"); }
                else if (v.size() < 6)
                {
                    // several clients: the registry index is only known to this client if nobody interferes, so create under a marker
                    size_t before = reg.handles.size();
                    Handle* h = make_kind(kind, int(op.b & 1));
                    if (!h) break;
                    int id = -1;
                    if (!op_fault_fired()) for (size_t i = before; i < reg.handles.size(); i++) if (reg.state[i] == 0 && !claimed.count(int(i)) && identify(h, int(i))) { id = int(i); break; }
                    if (id >= 0) claimed.insert(id);
                    grab(h, id);
                    if (id < 0 && !op_fault_fired()) violate("not-created", "a new shared handle has no allocator although nothing failed (op %d)", op_id());
                    v.push_back(h); probe("fresh_allocators");
                }
                break;
            case L_COPY: if (!v.empty() && v.size() < 6) v.push_back(copyOf(v[at(op.a)])); break;
            case L_ROOTCOPY: if (v.size() < 6) v.push_back(copyOf(root)); probe("copied_concurrently"); break;
            case L_MOVE:
                if (!v.empty() && v.size() < 6)
                {
                    Handle* h = v[at(op.a)];
                    int id = h->id;
                    if (!h->moves() && id >= 0) reg.handles[size_t(id)]++;
                    Handle* n = h->move();
                    n->id = id;
                    if (h->moves()) h->id = -1;
                    v.push_back(n);
                    probe("moved");
                }
                break;
            case L_ASSIGN: case L_MOVEASSIGN: case L_SELF: case L_SELFMOVE:
            {
                if (v.empty()) break;
                Handle* d = v[at(op.a)];
                Handle* s = op.kind == L_SELF || op.kind == L_SELFMOVE ? d : v[at(op.b)];
                if (!d->sameKind(*s)) break;
                bool moving = op.kind == L_MOVEASSIGN || op.kind == L_SELFMOVE;
                if (d == s && d->id >= 0 && moving && d->moves())
                {
                    // moving a handle onto itself: it may keep its allocator or drop it, both consistently
                    int id = release(d);
                    d->moveAssign(*s);
                    if (reg.state[size_t(id)] == 0)
                    {
                        // still alive: does this handle refer to it?
                        bool still = true;
                        if (reg.handles[size_t(id)] > 0) still = identify(d, id);
                        if (still) grab(d, id);
                    }
                    probe("self_moved");
                    break;
                }
                int nid = s->id, oid = -1;
                if (d != s)
                {
                    bool empties = moving && s->moves();
                    if (nid >= 0) reg.handles[size_t(nid)]++;   // the target counts before the source stops counting
                    if (empties) release(s);
                    // what the target held until now loses it at some point during the assignment
                    oid = release(d);
                    d->id = nid;
                    if (empties && nid >= 0 && nid == oid && moving) {}
                }
                else probe("self_assigned");
                if (moving) d->moveAssign(*s); else d->assign(*s);
                check(oid, "an assignment"); check(nid, "an assignment");
                probe("assigned");
                break;
            }
            case L_SWAP:
            {
                if (v.size() < 2) break;
                Handle* a = v[at(op.a)]; Handle* b = v[at(op.b)];
                if (a == b || !a->sameKind(*b)) break;
                a->swap(*b); std::swap(a->id, b->id);
                check(a->id, "a swap"); check(b->id, "a swap");
                break;
            }
            case L_DROP:
                if (!v.empty())
                {
                    size_t i = at(op.a); Handle* h = v[i]; v.erase(v.begin() + long(i));
                    int id = release(h);
                    h->destroy(); delete h;
                    check(id, "a handle's destruction");
                    probe("dropped");
                }
                break;
            case L_BURST: // drop everything this client has
                while (!v.empty()) { Handle* h = v.back(); v.pop_back(); int id = release(h); h->destroy(); delete h; check(id, "a handle's destruction"); }
                break;
            case L_CROWD: // far more handles than otherwise
                if (v.empty()) break;
                for (int64_t i = 0; i < op.b; i++) { crowd[client()].push_back(copyOf(i % 7 || crowd[client()].empty() ? v[at(op.a)] : crowd[client()].back())); progressed(); }
                probe(op.b > 65535 ? "beyond_65535_handles" : "hundreds_of_handles");
                break;
            case L_THIN: // let some of them go
                for (int64_t i = 0; i < op.b && !crowd[client()].empty(); i++)
                {
                    auto& w = crowd[client()]; size_t k = (op.a & 3) == 0 ? w.size() - 1 : (op.a & 3) == 1 ? 0 : size_t(i * 7919) % w.size();
                    Handle* h = w[k]; w[k] = w.back(); w.pop_back();
                    int id = release(h); h->destroy(); delete h; check(id, "a handle's destruction"); progressed();
                }
                if (!crowd[client()].empty()) useHandle(crowd[client()].front(), op.a);
                break;
            case L_USE: if (!v.empty()) useHandle(v[at(op.a)], op.b); break;
            case L_SEND: if (!v.empty()) { size_t i = at(op.a); box[op.b & 3].push_back(v[i]); v.erase(v.begin() + long(i)); hb_release(int(op.b & 3)); probe("handed_over"); } break;
            case L_RECV: { auto& b = box[op.b & 3]; if (!b.empty() && v.size() < 6) { hb_acquire(int(op.b & 3)); v.push_back(b.back()); b.pop_back(); } break; }
            case L_REBIND: if (!v.empty() && v.size() < 6) { Handle* h = v[at(op.a)]; int id = h->id; if (id >= 0) reg.handles[size_t(id)]++; Handle* n = h->rebind(); n->id = id; v.push_back(n); probe("rebound"); } break;
            case L_EQ:
            {
                if (v.empty()) break;
                Handle* a = v[at(op.a)]; Handle* b = v[at(op.b)];
                if (!a->sameKind(*b)) break;
                bool e = a->eq(*b), n = a->ne(*b);
                if (e == n) violate("equality", "== and != agree (op %d)", op_id());
                if (a->id >= 0 && b->id >= 0 && e != (a->id == b->id)) violate("equality", "handles on %s shared allocator compare %s (op %d)", a->id == b->id ? "the same" : "a different", e ? "equal" : "unequal", op_id());
                break;
            }
            default: break;
            }
            for (auto* h : v) note(uint64_t(h->id));
        }

        std::set<int> claimed;
        // is h's allocator instance `id`? decided by which instance a use through h reaches
        bool identify(Handle* h, int id)
        {
            const void* inst = nullptr;
            for (auto& kv : reg.alive) if (kv.second == id) inst = kv.first;
            if (!inst) return false;
            const void* base = block_base(inst);
            probeTarget = nullptr;
            // the handle's representation refers to the block that contains the instance
            return refers(h, base);
        }
        const void* probeTarget = nullptr;
        static bool refers(Handle* h, const void* base);

        void quiesce() override
        {
            disarm();
            for (auto& v : slots) for (auto* h : v) useHandle(h, 7);
            for (auto& b : box) for (auto* h : b) useHandle(h, 7);
            for (auto& w : crowd) if (!w.empty()) { useHandle(w.front(), 7); useHandle(w.back(), 7); }
        }

        void teardown() override
        {
            std::vector<Handle*> all;
            for (auto& v : slots) for (auto* h : v) all.push_back(h);
            for (auto& v : crowd) for (auto* h : v) all.push_back(h);
            for (auto& b : box) for (auto* h : b) all.push_back(h);
            all.insert(plan.knob(K_ROOTDROP) & 1 ? all.begin() : all.end(), root);
            for (auto* h : all) { int id = release(h); h->destroy(); delete h; progressed(); if (id >= 0 && reg.handles[size_t(id)] > 0 && reg.state[size_t(id)]) violate("destroyed-too-early", "the shared allocator is gone although it has handles"); }
            for (size_t i = 0; i < reg.state.size(); i++)
                if (reg.state[i] == 0) violate("not-destroyed", "all handles are gone but shared allocator %zu of %zu was never destroyed", i, reg.state.size());
            if (live_blocks()) violate("leak", "all handles are gone but %zu heap blocks remain: %s", live_blocks(), describe_leaks().c_str());
            g_life = nullptr;
        }
    };

    template<typename S> static bool refers_t(Handle* h, const void* base, bool& known)
    {
        auto* r = dynamic_cast<RawH<S>*>(h);
        if (!r) return false;
        known = true;
        // through the public interface: the wrapped allocator reachable from the handle
        const void* p = &r->o->get_allocator();
        return block_base(p) == base && base != nullptr;
    }
    bool Lifetime::refers(Handle* h, const void* base)
    {
        bool known = false;
        bool r = refers_t<shared<Life>>(h, base, known) || refers_t<atomic_shared<Life>>(h, base, known)
            || refers_t<atomic_shared<threaded<Life>>>(h, base, known) || refers_t<atomic_shared<threaded<freelist<0, 64, Life>>>>(h, base, known);
        return r;
    }

    static void gen_life(Rng& r, Plan& p)
    {
        p.knobs.resize(K_USER + 2, 0);
        int kind = int(r.below(10)); kind = kind < 5 ? KD_ATOMIC : kind < 7 ? KD_ATOMIC_THREADED : kind < 8 ? KD_NESTED : KD_NOTOMIC;
        p.knobs[K_KIND] = kind; p.knobs[K_ROOTDROP] = r.range(0, 1);
        int clients = kind == KD_NOTOMIC || r.chance(20) ? 1 : int(r.range(2, r.chance(30) ? 4 : 3));
        p.knobs[K_CLIENTS] = clients;
        //               new copy move asg masg self smv swap drop use send recv reb root eq burst crowd thin
        int w[L_NUM] = { 6,  10,  6,  10,  8,   3,   2,  3,   16,  10, 7,   7,   3,  6,   4, 3,    0,    0 };
        if (r.chance(50)) for (int& x : w) if (r.chance(30)) x = 0;
        int total = 0; for (int x : w) total += x; if (!total) { w[L_DROP] = w[L_COPY] = 5; total = 10; }
        int n = clients > 1 ? int(r.range(3, 9)) * clients : int(r.range(5, 40));
        for (int i = 0; i < n; i++)
        {
            Op o; o.id = i; o.client = clients > 1 ? int(r.range(1, clients)) : 1;
            int x = int(r.below(uint64_t(total))), k = 0; while (x >= w[k]) x -= w[k++];
            o.kind = k; o.a = int64_t(r.below(64)); o.b = int64_t(r.below(256));
            p.ops.push_back(o);
        }
        if (r.below(250) == 0)
        {
            bool huge = r.below(30) == 0; int64_t many = huge ? r.range(65500, 66000) : r.range(200, 700); int c = clients > 1 ? int(r.range(1, clients)) : 1;
            if (huge) { clients = 1; c = 1; p.knobs[K_CLIENTS] = 1; p.ops.resize(std::min<size_t>(p.ops.size(), 6)); for (auto& o : p.ops) o.client = 1; p.knobs[K_RED] = 0; }
            auto put = [&](int kind, int64_t b) { Op o; o.client = c; o.kind = kind; o.a = int64_t(r.below(64)); o.b = b; p.ops.insert(p.ops.begin() + long(r.below(p.ops.size() + 1)), o); };
            put(L_CROWD, many); put(L_THIN, r.range(1, many)); if (r.chance(50)) put(L_THIN, many);
            n = int(p.ops.size()); for (int i = 0; i < n; i++) p.ops[size_t(i)].id = i;
        }
        // the interesting moment: several clients let go of the last handles at the same time
        if (clients > 1 && r.chance(50)) for (int c = 1; c <= clients; c++) { Op o; o.id = n++; o.client = c; o.kind = L_BURST; p.ops.push_back(o); }
        if (clients > 1) gen_schedule(r, p, clients, 30);
        gen_faults(r, p, { F_HEAP }, 15, 2, 1);
        for (auto& o : p.ops) if (o.kind == L_NEW && r.chance(15)) p.faults.push_back(Fault{ F_THROW, o.id, 0, 1 });
        if (r.chance(2)) p.faults.push_back(Fault{ F_HEAP, OP_SETUP, 0, 1 });
        if (clients > 1) gen_faults(r, p, { F_CAS }, 20, 2, 2);
    }

    static Register regLife({ "lifetime", "C02", 1, gen_life, [](const Plan& p) -> Scenario* { return new Lifetime(p); } });
}
