// The untyped-allocator world: clients allocate, use and return memory through handles on one real KTL
// composition, while a reference model of what the composition is documented to do follows the history.
#include "world.h"

#include <algorithm>
#include <climits>

using namespace rt;

namespace sim
{
    std::vector<Comp>& comps() { static std::vector<Comp> c; return c; }

    // Compositions with a recorded defect (known-findings.txt): generators never choose them, only replays name them.
    enum { KNOWN_COMP = 100000 };
    static std::vector<Comp>& known_comps()
    {
        using KP = ktl::cascading<ktl::linear_allocator<32>>; using KF = Up<1, U_OWNS | U_CONSTRUCT>;
        static std::vector<Comp> c{
            { "known_threaded_construct", true, fb(casc(lin(32)), up(1)), [] { return make_plain<ktl::atomic_shared<ktl::threaded<ktl::fallback<KP, KF>>>, true>(); }, { 16, 32, 40 }, CF_STUBS | CF_COUNTS1 },
        };
        return c;
    }
    static SimStream* g_stream;
    SimStream*& stream() { return g_stream; }

    static const Comp& comp_by_index(int64_t i) { if (i >= KNOWN_COMP) return known_comps()[size_t(i - KNOWN_COMP) % known_comps().size()]; return comps()[size_t(i) % comps().size()]; }

    enum Kinds { W_ALLOC = 0, W_FREE, W_CHECK, W_GIVE, W_TAKE, W_OWNS, W_COPY, W_DROP, W_ASSIGN, W_MOVE, W_EQ, W_MAX, W_CONSTRUCT, W_DESTROY,
        W_ABANDON, W_FREEALL, W_REALLOC, W_FAILREP, W_CYCLE, W_RELOC, W_MASS, W_NUM };

    enum { K_COMP = K_USER, K_CAP, K_ORDER };

    // ---------------------------------------------------------------- recorded history and reference model
    struct HEv
    {
        int client = 0, op = 0; bool alloc = true; size_t n = 0; uintptr_t p = 0;
        uint64_t inv = 0, ret = 0; bool fault = false, threw = false, infra = false;
        uintptr_t base = 0; bool staticMem = false;
        bool newArenas = false, newLists = false; // not a call: the allocator was moved or assigned
        std::vector<UpState::Ev> ups;
    };

    struct Model
    {
        struct Lin { bool known = false, precise = true; uintptr_t base = 0; size_t used = 0, count = 0, live = 0; };
        struct Live { int8_t leafKind; int8_t leaf; int8_t fl; size_t bytes; size_t pad; };
        std::vector<Lin> lin;                       // by leaf id
        std::vector<std::set<uintptr_t>> held;      // by freelist id: client-visible addresses kept for reuse
        std::map<uintptr_t, Live> where;            // by address: outstanding and held grants
        std::set<uintptr_t> out;                    // outstanding (allocated, not returned)

        uint64_t hash() const
        {
            uint64_t h = 1469598103934665603ull;
            auto m = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 31; };
            for (auto& l : lin) { m(l.base); m(l.used); m(l.count); m(l.live); m(l.precise); }
            for (auto& s : held) { m(77); for (auto a : s) m(a); }
            m(78); for (auto a : out) m(a);
            return h;
        }
    };

    static size_t r16(size_t n) { return (n + 15) & ~size_t(15); }

    struct Judge
    {
        const Spec& spec;
        std::string why;
        explicit Judge(const Spec& s) : spec(s) {}

        void init(Model& m) const { m.lin.resize(size_t(spec.leaves)); m.held.resize(size_t(spec.fls)); }

        // must this hop have served the request in this state?
        bool must(const Model& m, const Hop& h, const HEv& e) const
        {
            if (h.fl >= 0 && !m.held[size_t(h.fl)].empty()) return true;
            if (e.n == 0) return false;
            switch (h.leaf)
            {
            case N::Lin:
            {
                const Model::Lin& l = m.lin[size_t(h.id)];
                size_t t = r16(h.bytes);
                if (t < h.bytes || t > h.cap) return false;
                if (l.live == 0) return true;
                return l.precise && l.used + t <= h.cap;
            }
            case N::Mal: case N::Casc: return !e.fault && h.bytes <= (100u << 10);
            case N::UpL:
                for (auto& u : e.ups) if (u.k == int(h.cap) && u.n == h.bytes && u.p == 0) return false;
                return true;
            default: return false;
            }
        }

        bool serve(Model& m, const Hop& h, const HEv& e) const // did this hop serve it? if so, apply
        {
            uintptr_t a = e.p - h.pad;
            if (m.out.count(e.p)) return false; // still outstanding
            if (h.fl >= 0 && !m.held[size_t(h.fl)].empty())
            {
                if (!m.held[size_t(h.fl)].erase(e.p)) return false;
                m.out.insert(e.p);
                return true;
            }
            switch (h.leaf)
            {
            case N::Lin:
            {
                if (!e.infra && !e.staticMem) return false;
                Model::Lin& l = m.lin[size_t(h.id)];
                uintptr_t base = l.known ? l.base : a;
                if (a < base || a >= base + h.cap) return false;
                if (h.bytes > h.cap || a + h.bytes > base + h.cap) return false;
                if (!l.known) { l.known = true; l.base = a; l.used = 0; }
                for (auto o : m.out) { auto& w = m.where.at(o); if (w.leafKind == N::Lin && w.leaf == h.id && w.bytes && h.bytes && a < o - w.pad + w.bytes && o - w.pad < a + h.bytes) return false; }
                size_t t = r16(h.bytes);
                if (a == l.base + l.used) l.used += t; else if (h.bytes) l.precise = false;
                l.count += t; if (h.bytes) l.live++;
                break;
            }
            case N::Mal: if (e.infra || e.staticMem || !e.base || (a != e.base && !h.cap)) return false; break;
            case N::Casc: if (e.infra || e.staticMem || !e.base) return false; break;
            case N::UpL:
            {
                bool ok = false;
                for (auto& u : e.ups) if (u.k == int(h.cap) && u.n == h.bytes && u.p == a) ok = true;
                if (!ok) return false;
                break;
            }
            default: return false;
            }
            m.out.insert(e.p);
            m.where[e.p] = Model::Live{ int8_t(h.leaf), int8_t(h.id), int8_t(h.fl), h.bytes, h.pad };
            return true;
        }

        bool apply(Model& m, const HEv& e)
        {
            if (e.newArenas) for (auto& l : m.lin) l = Model::Lin();
            if (e.newLists) for (auto& l : m.held) { for (auto a : l) m.where.erase(a); l.clear(); }
            if (e.newArenas || e.newLists) return true;
            if (e.threw) return true; // failed by an injected fault: no effect
            if (e.n == 0 && !spec.padded) return true; // nothing was asked for: any address will do
            if (e.alloc)
            {
                std::vector<Hop> ch = spec.chain(e.n);
                int k = 0;
                for (const Hop& h : ch)
                {
                    k++;
                    if (e.p && serve(m, h, e)) return true;
                    if (must(m, h, e))
                    {
                        char b[200];
                        snprintf(b, sizeof b, e.p ? "allocate(%zu) in op %d bypasses choice %d of %zu, which had to serve it (%s)" : "allocate(%zu) in op %d fails although choice %d of %zu had to serve it (%s)", e.n, e.op, k, ch.size(),
                            h.fl >= 0 && !m.held[size_t(h.fl)].empty() ? "freelist holds blocks" : h.leaf == N::Lin ? "arena has room" : h.leaf == N::Casc ? "a fresh sub-allocator has room" : h.leaf == N::UpL ? "upstream was not refusing" : "heap was not refusing");
                        why = b;
                        return false;
                    }
                }
                if (!e.p || e.n == 0) return true;
                char b[160]; snprintf(b, sizeof b, "allocate(%zu) in op %d is served from a place that is not responsible for this size", e.n, e.op); why = b;
                return false;
            }
            auto it = m.where.find(e.p);
            if (it == m.where.end() || !m.out.count(e.p)) { if (e.n == 0) return true; why = "free before its allocation"; return false; }
            m.out.erase(e.p);
            Model::Live w = it->second;
            if (w.fl >= 0) { m.held[size_t(w.fl)].insert(e.p); return true; }
            m.where.erase(it);
            if (w.leafKind == N::Lin)
            {
                Model::Lin& l = m.lin[size_t(w.leaf)];
                size_t t = r16(w.bytes); uintptr_t a = e.p - w.pad;
                if (l.base + l.used - t == a) l.used -= t;
                l.count -= t; if (w.bytes) l.live--;
                if (l.count == 0) { l.used = 0; l.precise = true; }
            }
            return true;
        }

        // ------------------------------------------------ search for a linearisation
        const std::vector<std::vector<HEv>>* H = nullptr;
        std::set<std::pair<uint64_t, uint64_t>> bad;
        uint64_t nodes = 0;
        bool over = false;

        bool dfs(std::vector<size_t>& pos, Model& m)
        {
            for (;;)
            {
                uint64_t minRet = UINT64_MAX; bool any = false;
                for (size_t c = 0; c < H->size(); c++) if (pos[c] < (*H)[c].size()) { any = true; minRet = std::min(minRet, (*H)[c][pos[c]].ret); }
                if (!any) return true;
                size_t cand[8]; size_t n = 0;
                for (size_t c = 0; c < H->size() && n < 8; c++) if (pos[c] < (*H)[c].size() && (*H)[c][pos[c]].inv <= minRet) cand[n++] = c;
                if (n == 1) { if (!apply(m, (*H)[cand[0]][pos[cand[0]]])) { trace("reject single c%zu pos %zu: %s", cand[0], pos[cand[0]], why.c_str()); return false; } pos[cand[0]]++; continue; }
                if (++nodes > 30000) { over = true; return true; }
                uint64_t pk = 0; for (size_t c = 0; c < H->size(); c++) pk = pk * 131 + pos[c];
                std::pair<uint64_t, uint64_t> key(pk, m.hash());
                if (bad.count(key)) return false;
                for (size_t i = 0; i < n; i++)
                {
                    Model copy = m;
                    std::vector<size_t> q = pos;
                    if (!apply(copy, (*H)[cand[i]][q[cand[i]]])) { trace("reject c%zu: %s", cand[i], why.c_str()); continue; }
                    q[cand[i]]++;
                    if (dfs(q, copy)) return true;
                }
                bad.insert(key);
                return false;
            }
        }
    };

    // ---------------------------------------------------------------- the world
    struct Grant { uintptr_t p; size_t n; uint64_t tag; bool elem; uint64_t ev; };

    struct World : Scenario
    {
        const Comp& comp; Spec spec; const Plan& plan;
        UpState up; NodeReg nreg; SimStream strm;
        struct Cl { std::vector<AnyAlloc*> hs; std::vector<Grant> held; };
        Cl cl[8];
        int clients = 1;
        std::vector<std::vector<HEv>> hist;
        std::map<uintptr_t, size_t> live;
        std::vector<Grant> box[4];
        uint64_t tagSeq = 1, setupSeq = 0;
        bool crippled = false, hadThrow = false;
        size_t baseBytes = 0, nodeBytes = 0;
        void* foreign = nullptr;
        bool cascOnly = false, rawLin = false, flOverLin = false;

        void findLin(const N& n, bool inFl)
        {
            if (n.k == N::Casc) return;
            if (n.k == N::Lin) { rawLin = true; if (inFl) flOverLin = true; }
            for (const N& c : n.ch) findLin(c, inFl || n.k == N::Fl);
        }

        explicit World(const Plan& p) : comp(comp_by_index(p.knob(K_COMP))), spec(comp.spec), plan(p)
        {
            clients = int(p.knob(K_CLIENTS)); if (clients < 1) clients = 1; if (clients > 6) clients = 6;
            hist.resize(8);
            int64_t cap = p.knob(K_CAP);
            if (cap > 0) for (int i = 0; i < 6; i++) up.capacity[i] = size_t(cap);
            up.exclusive = comp.mt;
            const N* r = &spec.root;
            findLin(*r, false);
            cascOnly = r->k == N::Casc || (r->k == N::Fl && r->ch[0].k == N::Casc) || (r->k == N::Fb && r->ch[0].k == N::Casc && r->ch[1].k == N::UpL);
        }

        Cl& me() { return cl[client()]; }
        AnyAlloc* handle(int64_t sel) { auto& h = me().hs; return h[size_t(sel) % h.size()]; }

        void setup() override
        {
            ups() = &up; nodes() = &nreg; stream() = &strm;
            foreign = obj_alloc(256);
            malloc_align8(comp.flags & CF_MALLOC8);
            AnyAlloc* h = comp.make();
            crippled = op_fault_fired();
            if (crippled) probe("handle_created_without_memory");
            cl[0].hs.push_back(h);
            if ((comp.flags >> 8) && !h->hasConstruct()) violate("misrouted-element", "a composite over an allocator that counts constructions offers no construct()");
            for (int c = 1; c <= clients; c++)
                if (h->copyable()) { AnyAlloc* n = h->copy(); cl[c].hs.push_back(n); }
                else cl[c].hs.push_back(h);
            setupSeq = now();
            baseBytes = live_bytes();
            note(uint64_t(plan.knob(K_COMP)), uint64_t(clients));
        }

        // ------------------------------------------------------------ allocation
        uintptr_t doAlloc(AnyAlloc* h, size_t n, bool keep, Grant* out = nullptr)
        {
            int c = client();
            HEv e; e.client = c; e.op = op_id(); e.alloc = true; e.n = n;
            size_t atMost = SIZE_MAX;
            if (h->hasMax() && (plan.seed & 2) && !crippled)
            {
                size_t v = 0;
                Outcome mo = call([&] { v = h->maxSize(); });
                if (mo == Outcome::ok) atMost = v;
                else if (!op_fault_fired()) violate("unexpected-exception", "max_size() throws (op %d)", e.op);
            }
            up.log[c].clear();
            void* p = nullptr;
            uint64_t bytesBefore = live_bytes();
            e.inv = now();
            Outcome o = call([&] { p = h->allocate(n); });
            e.ret = now(); progressed();
            e.ups = up.log[c];
            e.fault = op_fault_fired();
            if (held_locks()) violate("lock-leak", "allocate(%zu) in op %d returns while still holding a lock", n, e.op);
            if (o != Outcome::ok)
            {
                if (!e.fault) violate("unexpected-exception", "allocate(%zu) throws although nothing failed (op %d)", n, e.op);
                probe("alloc_threw"); hadThrow = true;
                e.threw = true; hist[size_t(c)].push_back(e);
                return 0;
            }
            trace("allocate(%zu) = %p", n, p);
            note(0xA, n, reinterpret_cast<uintptr_t>(p));
            e.p = reinterpret_cast<uintptr_t>(p);
            if (crippled) { if (p) violate("bogus-grant", "an allocator that could not be created hands out memory (op %d)", e.op); return 0; }
            if (!p)
            {
                probe(e.fault ? "alloc_null_faulted" : "alloc_null");
                hist[size_t(c)].push_back(e);
                return 0;
            }
            if (n > atMost) violate("max-size-wrong", "max_size() is %zu, but the next allocate(%zu) is granted (op %d)", atMost, n, e.op);
            e.staticMem = !in_arena(p);
            if (e.staticMem && !(comp.flags & CF_GLOBAL)) violate("bad-grant", "allocate(%zu) returns %p, which is not memory the allocator could have (op %d)", n, p, e.op);
            if (e.staticMem && n > (64u << 10)) violate("bogus-grant", "allocate(%zu) returns %p although no memory of that size exists (op %d)", n, p, e.op);
            if (!e.staticMem)
            {
                e.base = reinterpret_cast<uintptr_t>(block_base(p));
                uintptr_t ho = reinterpret_cast<uintptr_t>(h->object());
                e.infra = block_seq(p) < setupSeq || (e.p >= ho && e.p < ho + h->objectSize());
                if (n && !live_range(p, n)) violate("grant-not-live", "allocate(%zu) returns a range of which not every byte is live memory (op %d)", n, e.op);
            }
            if (n && (e.p & 15)) violate("misaligned", "allocate(%zu) returns %p, which is not aligned to std::max_align_t (op %d)", n, p, e.op);
            if (n)
            {
                auto it = live.lower_bound(e.p + n);
                if (it != live.begin()) { --it; if (it->first + it->second > e.p) violate("overlap", "allocate(%zu) in op %d returns a range that overlaps a grant of %zu bytes still in use", n, e.op, it->second); }
                live[e.p] = n;
            }
            outCount++;
            Grant g{ e.p, n, tagSeq++, false, 0 };
            hist[size_t(c)].push_back(e);
            if (n) payload_fill(p, n, g.tag);
            probe("grants");
            if (keep) me().held.push_back(g);
            if (out) *out = g;
            (void)bytesBefore;
            if (h->hasOwns() && (plan.seed & 1)) checkOwned(h, g);
            return e.p;
        }

        void checkOwned(AnyAlloc* h, const Grant& g)
        {
            bool v = false;
            Outcome o = call([&] { v = h->owns(reinterpret_cast<void*>(g.p)); });
            if (o != Outcome::ok) { if (!op_fault_fired()) violate("unexpected-exception", "owns() throws (op %d)", op_id()); return; }
            if (held_locks()) violate("lock-leak", "owns() in op %d returns while still holding a lock", op_id());
            if (!v) violate("grant-not-owned", "owns() denies memory of %zu bytes this allocator granted and has not got back (op %d)", g.n, op_id());
        }

        void verify(const Grant& g, const char* when)
        {
            if (!g.n) return;
            size_t at = 0;
            if (g.elem)
            {
                client_read(reinterpret_cast<void*>(g.p), 16);
                const Elem* e = reinterpret_cast<const Elem*>(g.p);
                if (e->a != g.tag || e->b != ~g.tag) violate("contents-lost", "an element living in a grant of %zu bytes changed (%s, op %d)", g.n, when, op_id());
            }
            else if (!payload_ok(reinterpret_cast<void*>(g.p), g.n, g.tag, &at))
                violate("contents-lost", "byte %zu of a grant of %zu bytes changed while the client held it (%s, op %d)", at, g.n, when, op_id());
        }

        // the strict upstream allocator that handed out this memory and counts constructions, if it is one
        int64_t expC[6] = { 0 }, expD[6] = { 0 };
        int counting(uintptr_t p)
        {
            for (int k = 0; k < 6; k++)
            {
                auto& l = up.pool[k].live; auto it = l.upper_bound(p);
                if (it != l.begin() && (--it, p < it->first + it->second)) return (comp.flags >> 8) & (1 << k) ? k : -1;
            }
            return -1;
        }
        void accounts(const char* what)
        {
            for (int k = 0; k < 6; k++)
            {
                auto& p = up.pool[k];
                if (p.constructs != expC[k] || p.destroys != expD[k])
                    violate("misrouted-element", "after %s, upstream %d has seen %lld constructions and %lld destructions of elements, but %lld and %lld were in its memory (op %d)", what, k, (long long)p.constructs, (long long)p.destroys, (long long)expC[k], (long long)expD[k], op_id());
            }
        }

        void endElem(AnyAlloc* h, Grant& g)
        {
            if (!g.elem) return;
            Elem* e = reinterpret_cast<Elem*>(g.p);
            int k = counting(g.p); if (k >= 0) expD[k]++;
            for (int tries = 0;; tries++)
            {
                up.relaxed[client()] = true;
                Outcome o = call([&] { h->destroyElem(e); });
                up.relaxed[client()] = false;
                if (held_locks()) violate("lock-leak", "destroy() in op %d returns while still holding a lock", op_id());
                if (o == Outcome::ok) break;
                if (!op_fault_fired()) violate("unexpected-exception", "destroy() throws although nothing failed (op %d)", op_id());
                if (tries > 64) violate("no-progress", "destroy() keeps failing (op %d)", op_id());
                probe("destroy_retried");
            }
            if (e->a != 0xDEADDEADDEADDEADull) violate("element-not-destroyed", "destroy() did not run the element's destructor (op %d)", op_id());
            if (clients == 1) accounts("destroy()");
            g.elem = false;
            payload_fill(reinterpret_cast<void*>(g.p), g.n, g.tag);
        }

        void doFree(AnyAlloc* h, Grant g)
        {
            verify(g, "at release");
            endElem(h, g);
            int c = client();
            if (g.n) live.erase(g.p);
            HEv e; e.client = c; e.op = op_id(); e.alloc = false; e.n = g.n; e.p = g.p;
            e.inv = now();
            for (int tries = 0;; tries++)
            {
                Outcome o = call([&] { h->deallocate(reinterpret_cast<void*>(g.p), g.n); });
                if (held_locks()) violate("lock-leak", "deallocate() in op %d returns while still holding a lock", e.op);
                if (o == Outcome::ok) break;
                if (!op_fault_fired()) violate("unexpected-exception", "deallocate() throws although nothing failed (op %d)", e.op);
                probe("free_retried");
                if (tries > 64) violate("no-progress", "deallocate() keeps failing (op %d)", e.op);
            }
            e.ret = now(); progressed();
            outCount--;
            e.fault = op_fault_fired();
            trace("deallocate(%p, %zu)", reinterpret_cast<void*>(g.p), g.n);
            hist[size_t(c)].push_back(e);
            probe("frees");
            footprint();
        }

        size_t outCount = 0;
        size_t outstanding() { return outCount; }

        void footprint()
        {
            if (comp.mt && clients > 1) return;
            if (faults_fired() || hadThrow) return;
            if (comp.flags & CF_NODES)
            {
                size_t n = nreg.live.size(), o = outstanding();
                if (n > o + 1) violate("footprint", "%zu sub-allocators exist for %zu outstanding grants (op %d)", n, o, op_id());
            }
            else if (cascOnly && spec.root.k == N::Casc)
            {
                size_t n = live_bytes() - std::min(live_bytes(), baseBytes);
                if (!nodeBytes) nodeBytes = n;
                else if (n > nodeBytes * (outstanding() + 1)) violate("footprint", "%zu bytes are kept for %zu outstanding grants of a cascading allocator whose sub-allocators take %zu bytes (op %d)", n, outstanding(), nodeBytes, op_id());
            }
        }

        Grant takeHeld(size_t i) { auto& v = me().held; Grant g = v[i]; v.erase(v.begin() + long(i)); return g; }

        struct Re { World* w; AnyAlloc* h; size_t n; int mode; };
        static void reenter(void* a)
        {
            Harness hs;
            Re* r = static_cast<Re*>(a);
            World* w = r->w;
            bool rx = w->up.relaxed[client()];
            w->up.relaxed[client()] = false;
            Grant g;
            if (w->doAlloc(r->h, r->n, false, &g))
            {
                if (r->mode & 1) w->doFree(r->h, g); else w->me().held.push_back(g);
            }
            w->up.relaxed[client()] = rx;
            probe("reentrant_construct");
        }

        void exec(const Op& op) override
        {
            Cl& m = me();
            AnyAlloc* h = handle(op.c);
            auto pickHeld = [&](int64_t a) -> size_t {
                size_t n = m.held.size();
                switch (a & 3) { case 0: return n - 1; case 1: return 0; default: return size_t(a >> 2) % n; }
            };
            switch (op.kind)
            {
            case W_ALLOC: if (m.held.size() < 40) doAlloc(h, size_t(op.b), true); break;
            case W_FREE: if (!m.held.empty()) { Grant g = takeHeld(pickHeld(op.a)); doFree(h, g); } break;
            case W_CHECK: for (auto& g : m.held) verify(g, "check"); probe("content_checks", m.held.size()); break;
            case W_GIVE:
                if (!m.held.empty()) { Grant g = takeHeld(pickHeld(op.a)); box[op.b & 3].push_back(g); hb_release(int(op.b & 3)); probe("handed_over"); }
                break;
            case W_TAKE:
                if (!box[op.b & 3].empty()) { hb_acquire(int(op.b & 3)); m.held.push_back(box[op.b & 3].back()); box[op.b & 3].pop_back(); verify(m.held.back(), "after handover"); }
                break;
            case W_OWNS: owns(h, op); break;
            case W_COPY: if (h->copyable() && m.hs.size() < 3) { Outcome o = Outcome::ok; AnyAlloc* n = h->copy(); m.hs.push_back(n); (void)o; probe("handle_copied"); } break;
            case W_DROP: if (m.hs.size() > 1) { size_t i = size_t(op.a) % m.hs.size(); m.hs[i]->destroyHandle(); delete m.hs[i]; m.hs.erase(m.hs.begin() + long(i)); probe("handle_dropped"); } break;
            case W_ASSIGN: if (h->assignable()) { h->assignFrom(*handle(op.a)); probe("handle_assigned"); } break;
            case W_MOVE:
                if (h->copyable())
                {
                    AnyAlloc* n = h->moveOut();
                    for (auto& x : m.hs) if (x == h) { x->destroyHandle(); delete x; x = n; break; }
                    probe("handle_moved");
                }
                break;
            case W_EQ:
                if (!comp.mt || h->copyable())
                {
                    AnyAlloc* g = handle(op.a);
                    bool eq = false, ne = false;
                    { Sut s; eq = h->eq(*g); ne = h->ne(*g); }
                    if (!crippled || true)
                    {
                        if (!eq) violate("equality", "two handles on the same allocator compare unequal (op %d)", op.id);
                        if (ne) violate("equality", "== and != agree for two handles on the same allocator (op %d)", op.id);
                    }
                    probe("equality_checked");
                }
                break;
            case W_MAX:
                if (h->hasMax() && !crippled)
                {
                    size_t v = 0;
                    Outcome o = call([&] { v = h->maxSize(); });
                    if (o != Outcome::ok) { if (!op_fault_fired()) violate("unexpected-exception", "max_size() throws (op %d)", op.id); break; }
                    for (auto& g : m.held) if (g.n > v) violate("max-size-wrong", "max_size() is %zu, but a grant of %zu bytes is outstanding (op %d)", v, g.n, op.id);
                    probe("max_size_checked");
                }
                break;
            case W_CONSTRUCT:
                if (h->hasConstruct() && !m.held.empty())
                {
                    size_t i = pickHeld(op.a);
                    if (m.held[i].n < sizeof(Elem) || m.held[i].elem) break;
                    Grant g = takeHeld(i); // the callback may change the held list
                    Re r{ this, h, size_t(op.b), int(op.c >> 8) };
                    Elem* e = reinterpret_cast<Elem*>(g.p);
                    client_write(e, sizeof(Elem));
                    int k = counting(g.p); if (k >= 0) expC[k]++;
                    up.relaxed[client()] = true;
                    Outcome o = call([&] { h->construct(e, g.tag, (op.c & 0x80) ? &World::reenter : nullptr, &r); });
                    up.relaxed[client()] = false;
                    bool threw = o != Outcome::ok && op_fault_fired(); // the element's constructor or a lock did
                    if ((o == Outcome::system_error || o == Outcome::bad_alloc) && k >= 0) expC[k]--; // the lock did, before the element was reached
                    if (o != Outcome::ok && !threw) violate("unexpected-exception", "construct() throws (op %d)", op.id);
                    if (held_locks()) violate("lock-leak", "construct() in op %d returns while still holding a lock", op.id);
                    if (threw) { payload_fill(reinterpret_cast<void*>(g.p), g.n, g.tag); probe("element_constructor_throws"); }
                    g.elem = !threw; m.held.push_back(g);
                    verify(g, "after construct");
                    if (clients == 1) accounts("construct()");
                    probe("constructed");
                }
                break;
            case W_DESTROY:
                for (auto& g : m.held) if (g.elem) { endElem(h, g); break; }
                break;
            case W_ABANDON: abandon(); break;
            case W_FREEALL: freeAll(h, int(op.a), size_t(op.b)); break;
            case W_REALLOC:
                if (!m.held.empty())
                {
                    Grant n;
                    size_t i = pickHeld(op.a);
                    if (doAlloc(h, size_t(op.b), false, &n)) { Grant g = takeHeld(i); m.held.push_back(n); doFree(h, g); }
                }
                break;
            case W_FAILREP:
            {
                // a request is repeated while it keeps failing: nothing may accumulate
                size_t blocks = 0, bytes = 0; int failed = 0, clean = 0;
                for (int i = 0; i < 7; i++)
                {
                    Grant g;
                    uint64_t faultsBefore = fired(F_HEAP) + fired(F_STUB) + fired(F_THROW) + heap_fail_count();
                    if (doAlloc(h, size_t(op.b), false, &g)) { m.held.push_back(g); break; }
                    failed++;
                    bool undisturbed = faultsBefore == fired(F_HEAP) + fired(F_STUB) + fired(F_THROW) + heap_fail_count();
                    if (undisturbed) clean++;
                    // the first two undisturbed failures may still set something up that is kept
                    if (clean <= 2) { blocks = live_blocks(); bytes = live_bytes(); }
                    else if ((!comp.mt || clients == 1) && (live_blocks() > blocks || live_bytes() > bytes))
                        violate("grows-on-failure", "each failing allocate(%zu) makes the allocator keep more memory: %zu blocks, then %zu (op %d)", size_t(op.b), blocks, live_blocks(), op.id);
                }
                if (failed >= 2) probe("repeated_failure");
                break;
            }
            case W_CYCLE:
            {
                size_t k = 2 + size_t(op.a) % 4;
                std::vector<Grant> gs;
                for (size_t i = 0; i < k; i++) { Grant g; if (doAlloc(h, size_t(op.b), false, &g)) gs.push_back(g); }
                bool lifo = op.a & 64;
                while (!gs.empty()) { Grant g = lifo ? gs.back() : gs.front(); if (lifo) gs.pop_back(); else gs.erase(gs.begin()); doFree(h, g); }
                break;
            }
            case W_RELOC: relocate(h, op); break;
            case W_MASS:
            {
                // many small grants at once, returned in one of several orders with some taken again in between
                size_t k = 200 + size_t(op.a) % 600, n = size_t(op.b) % 48 + 1;
                for (size_t s : comp.sizes) if (size_t(op.b) % 3 && s <= 64) { n = s; if (op.b & 4) break; }
                if (clients > 1 || (spec.padded && k > 300)) break;
                std::vector<Grant> gs;
                auto grow = [&](size_t m) { while (gs.size() < m) { Grant g; if (!doAlloc(h, n, false, &g)) break; gs.push_back(g); } };
                auto shrink = [&](size_t m, int how)
                {
                    while (gs.size() > m)
                    {
                        size_t i = how == 0 ? gs.size() - 1 : how == 1 ? 0 : (size_t(op.a) * 7 + gs.size()) % gs.size();
                        Grant g = gs[i]; gs.erase(gs.begin() + long(i)); doFree(h, g);
                    }
                };
                grow(k);
                if (gs.size() > 256) probe("hundreds_outstanding");
                shrink(gs.size() / 2, int(op.a % 3)); grow(k * 3 / 4); shrink(op.a & 8 ? 1 : 0, int((op.a >> 2) % 3)); grow(2);
                for (auto& g : gs) { if (m.held.size() < 40) m.held.push_back(g); else doFree(h, g); }
                break;
            }
            default: break;
            }
        }

        // Moves the allocator object itself. Arenas may only be moved while nothing is allocated from them.
        void relocate(AnyAlloc* h, const Op& op)
        {
            if (clients > 1 || crippled || !h->movable()) return;
            if (rawLin && (flOverLin || outCount)) return;
            HEv e; e.client = client(); e.op = op.id; e.inv = now();
            e.newArenas = rawLin;
            int mode = int(op.a % 3);
            if (mode && !h->moveAssignable()) mode = 0;
            if (mode == 2 && outCount) mode = 1;
            if (mode == 0) { h->relocate(); probe("allocator_moved"); }
            else
            {
                // another allocator of the same type, which has been used and may retain something
                AnyAlloc* s = comp.make();
                std::vector<HEv> used; // what the other one did: after mode 2 its freelists are this one's
                int c = client();
                for (int64_t i = op.b % 4; i > 0; i--)
                {
                    HEv a; a.client = c; a.op = op.id; a.n = comp.sizes[size_t(op.b + i) % comp.sizes.size()];
                    up.log[c].clear();
                    void* p = nullptr;
                    a.inv = now();
                    Outcome o = call([&] { p = s->allocate(a.n); });
                    a.ret = now(); a.ups = up.log[c]; a.fault = op_fault_fired(); a.threw = o != Outcome::ok;
                    a.p = reinterpret_cast<uintptr_t>(p);
                    if (p)
                    {
                        if (!in_arena(p)) violate("bad-grant", "allocate(%zu) returns %p, which is not memory the allocator could have (op %d)", a.n, p, op.id);
                        uintptr_t so = reinterpret_cast<uintptr_t>(s->object());
                        a.base = reinterpret_cast<uintptr_t>(block_base(p)); a.infra = a.p >= so && a.p < so + s->objectSize();
                    }
                    used.push_back(a);
                }
                for (size_t i = 0, n = used.size(); i < n; i++)
                {
                    if (used[i].threw || !used[i].p) continue;
                    HEv f = used[i]; f.alloc = false; f.ups.clear(); f.inv = now();
                    for (int tries = 0; call([&] { s->deallocate(reinterpret_cast<void*>(f.p), f.n); }) != Outcome::ok; tries++)
                        if (!op_fault_fired() || tries > 64) violate("unexpected-exception", "deallocate() throws (op %d)", op.id);
                    f.ret = now(); used.push_back(f);
                }
                if (mode == 2)
                {
                    HEv r = e; r.newArenas = r.newLists = true; r.ret = now();
                    hist[size_t(c)].push_back(r);
                    for (auto& u : used) { u.ret = r.ret; hist[size_t(c)].push_back(u); }
                }
                if (mode == 1) { s->moveAssignFrom(*h); h->takeObject(*s); }
                else h->moveAssignFrom(*s);
                s->destroyHandle(); delete s;
                probe("allocator_move_assigned");
            }
            for (auto& c : cl) for (auto& x : c.held) verify(x, "after the allocator was moved");
            e.ret = now();
            if (e.newArenas || e.newLists) hist[size_t(client())].push_back(e);
        }

        void owns(AnyAlloc* h, const Op& op)
        {
            if (!h->hasOwns()) return;
            Cl& m = me();
            void* q = nullptr; int expect = -1; size_t gn = 0;
            switch (crippled ? 3 : op.a % 6)
            {
            case 0: case 1: if (m.held.empty()) return; { auto& g = m.held[size_t(op.b) % m.held.size()]; q = reinterpret_cast<void*>(g.p); gn = g.n; expect = 1; } break;
            case 2: if (m.held.empty()) return; { auto& g = m.held[size_t(op.b) % m.held.size()]; if (!g.n) return; q = reinterpret_cast<void*>(g.p + size_t(op.b >> 8) % g.n); gn = g.n; expect = 1; } break;
            case 3: q = static_cast<char*>(foreign) + op.b % 256; expect = 0; break;
            case 4:
            {
                // the byte right behind / right before the handle object
                if (comp.flags & (CF_GLOBAL)) return;
                uintptr_t o = reinterpret_cast<uintptr_t>(h->object());
                q = reinterpret_cast<void*>((op.b & 1) ? o + h->objectSize() : o - 1); expect = 0; break;
            }
            case 5:
            {
                // the first byte behind a linear arena
                if (spec.root.k != N::Lin || clients > 1) return;
                uintptr_t lo = UINTPTR_MAX;
                for (auto& v : hist) { for (auto& e : v) { if (e.newArenas || e.newLists) lo = UINTPTR_MAX; else if (e.alloc && e.p && e.p < lo) lo = e.p; } }
                if (lo == UINTPTR_MAX) return;
                bool before = op.b & 1;
                q = reinterpret_cast<void*>(before ? lo - 1 : lo + spec.root.a); expect = 0;
                break;
            }
            }
            bool v = false;
            Outcome o = call([&] { v = h->owns(q); });
            if (o != Outcome::ok) { if (!op_fault_fired()) violate("unexpected-exception", "owns() throws (op %d)", op.id); return; }
            if (held_locks()) violate("lock-leak", "owns() in op %d returns while still holding a lock", op.id);
            probe(expect ? "owns_true_checked" : "owns_false_checked");
            if (expect == 1 && !v) violate("grant-not-owned", "owns() denies memory inside an outstanding grant of %zu bytes (op %d)", gn, op.id);
            if (expect == 0 && v) violate("owns-foreign", "owns() claims memory that this allocator never had (op %d, variant %d)", op.id, int(op.a % 6));
        }

        void freeAll(AnyAlloc* h, int order, size_t seed)
        {
            auto& v = me().held;
            Rng r(seed + 5);
            while (!v.empty())
            {
                size_t i = order % 3 == 0 ? v.size() - 1 : order % 3 == 1 ? 0 : size_t(r.below(v.size()));
                Grant g = takeHeld(i);
                doFree(h, g);
            }
        }

        void judge()
        {
            if (crippled) return;
            Judge j(spec);
            Model m; j.init(m);
            if (clients == 1 || !comp.mt)
            {
                std::vector<const HEv*> all;
                for (auto& v : hist) for (auto& e : v) all.push_back(&e);
                std::stable_sort(all.begin(), all.end(), [](const HEv* a, const HEv* b) { return a->ret < b->ret; });
                for (auto* e : all)
                    if (!j.apply(m, *e)) violate(!e->p ? "premature-null" : "misrouted-grant", "%s", j.why.c_str());
                return;
            }
            j.H = &hist;
            std::vector<size_t> pos(hist.size(), 0);
            bool ok = j.dfs(pos, m);
            if (j.over) { probe("linearise_budget"); return; }
            probe("linearised");
            if (!ok && tracing()) for (auto& v : hist) for (auto& e : v) trace("H c%d op%d %s n=%zu p=%lx inv=%lu ret=%lu f=%d threw=%d infra=%d base=%lx", e.client, e.op, e.alloc ? "alloc" : "free", e.n, (unsigned long)e.p, (unsigned long)e.inv, (unsigned long)e.ret, e.fault, e.threw, e.infra, (unsigned long)e.base);
            if (!ok) violate("not-linearizable", "no order of the overlapping calls explains their results; last conflict: %s", j.why.c_str());
        }

        void quiesce() override
        {
            disarm();
            for (auto& c : cl) for (auto& g : c.held) verify(g, "at the end");
            for (auto& b : box) for (auto& g : b) verify(g, "at the end");
            // the main client takes everything over and returns it
            Cl& m = cl[0];
            for (int c = 1; c < 8; c++) { for (auto& g : cl[c].held) m.held.push_back(g); cl[c].held.clear(); }
            for (auto& b : box) { for (auto& g : b) m.held.push_back(g); b.clear(); }
            AnyAlloc* h = m.hs[0];
            freeAll(h, int(plan.knob(K_ORDER)), plan.seed);
            if (!crippled)
            {
                // recovery: everything is back, so whatever fits a fresh allocator must be served again
                for (size_t n : comp.sizes) doAlloc(h, n, true);
                if (comp.spec.k == N::Lin && h->hasMax())
                {
                    freeAll(h, int(plan.knob(K_ORDER)) + 1, plan.seed);
                    size_t v = 0; { Sut s; v = h->maxSize(); }
                    if (v >= 16 && v <= 4096 && !doAlloc(h, v & ~size_t(15), true)) violate("max-size-wrong", "max_size() is %zu but an empty allocator cannot serve that much", v);
                }
                else if (h->hasMax()) { Sut s; (void)h->maxSize(); }
                for (auto& g : m.held) verify(g, "after recovery");
                freeAll(h, int(plan.knob(K_ORDER)) + 2, plan.seed);
            }
            judge();
        }

        void teardown() override
        {
            for (int c = 1; c < 8; c++) for (auto* h : cl[c].hs) if (h != cl[0].hs[0]) { h->destroyHandle(); delete h; }
            AnyAlloc* h = cl[0].hs[0];
            h->destroyHandle(); delete h;
            for (int k = 0; k < 6; k++)
            {
                auto& p = up.pool[k];
                if (!p.live.empty()) violate("upstream-not-returned", "after everything was returned and the allocator destroyed, upstream %d still misses %zu of %llu blocks (first: %zu bytes)", k, p.live.size(), (unsigned long long)p.allocs, p.live.begin()->second);
                if (p.allocs != p.frees) violate("upstream-imbalance", "upstream %d handed out %llu blocks and got %llu back", k, (unsigned long long)p.allocs, (unsigned long long)p.frees);
                probe("upstream_blocks", p.allocs);
                probe("upstream_refusals", p.refused);
            }
            if (!nreg.live.empty()) violate("leak", "%zu sub-allocators are never destroyed", nreg.live.size());
            accounts("everything");
            if (live_blocks()) violate("leak", "after everything was returned and the allocator destroyed, %zu heap blocks remain: %s", live_blocks(), describe_leaks().c_str());
            if ((comp.flags & CF_OVERFLOW) && !strm.text.empty()) violate("false-report", "the overflow allocator reports something although nobody did anything wrong: %.200s", strm.text.c_str());
            obj_free(foreign);
        }
    };

    // ---------------------------------------------------------------- generators
    struct Mix { const char* prop; int w[W_NUM]; };
    //                         alloc free chk give take owns copy drop asg move eq  max con des abn fall real frep cyc rel
    static const Mix kMix[] = {
        { "C01",              { 34,  24,  4,  6,   6,   5,   3,   2,   2,  1,   3,  2,  3,  1,  1,  2,   3,   0,   3,  0,  0 } },
        { "C03",              { 34,  24,  2,  5,   5,   4,   3,   2,   2,  2,   2,  2,  9,  2,  3,  2,   3,   3,   2,  0,  0 } },
        { "C04",              { 40,  22,  9,  3,   3,   0,   1,   1,   1,  1,   0,  0,  3,  1,  1,  3,   6,   0,   4,  3,  0 } },
        { "C05",              { 40,  28,  2,  3,   3,   0,   1,   1,   1,  0,   0,  0,  5,  2,  1,  3,   5,   2,   3,  5,  0 } },
        { "C06",              { 44,  20,  3,  1,   1,   2,   2,   2,   1,  1,   1,  1,  2,  1,  1,  2,   3,  10,   2,  2,  0 } },
        { "C07",              { 34,  20,  2,  2,   2,  28,   2,   1,   1,  1,   0,  2,  2,  1,  1,  2,   3,   0,   1,  3,  0 } },
        { "C08",              { 30,  26,  1,  1,   1,   0,   1,   1,   1,  0,   0,  0,  0,  0,  1,  6,   6,   3,  16,  3,  0 } },
    };

    static size_t pick_size(Rng& r, const Comp& c, bool wild, bool huge)
    {
        if (huge)
        {
            static const size_t h[] = { SIZE_MAX, SIZE_MAX - 7, SIZE_MAX - 15, SIZE_MAX - 16, SIZE_MAX - 63, SIZE_MAX - 127, SIZE_MAX - 128, SIZE_MAX - 255, SIZE_MAX / 2, SIZE_MAX / 2 + 1,
                size_t(1) << 63, size_t(1) << 32, (size_t(1) << 32) + 16, size_t(1) << 40, SIZE_MAX - 4096, 300000, 1000000 };
            return h[r.below(sizeof h / sizeof *h)];
        }
        if (wild) return size_t(r.range(1, 1 + int64_t(c.sizes.back()) * 5 / 4));
        return c.sizes[r.below(c.sizes.size())];
    }

    static void gen_world(const Mix& mix, Rng& r, Plan& p, bool mtOnly, bool wantOwns, bool stOnly)
    {
        (void)wantOwns;
        std::string prop = mix.prop;
        p.knobs.resize(K_USER + 4, 0);
        for (;;)
        {
            p.knobs[K_COMP] = int64_t(r.below(comps().size()));
            const Comp& c = comp_by_index(p.knobs[K_COMP]);
            if (mtOnly && !c.mt) continue;
            if (stOnly && c.mt && !r.chance(15)) continue;
            if (prop == "C05" && !(c.flags & CF_STUBS) && !r.chance(25)) continue;
            break;
        }
        const Comp& c = comp_by_index(p.knobs[K_COMP]);
        int clients = c.mt ? (r.chance(12) && !mtOnly ? 1 : int(r.range(2, r.chance(25) ? 4 : 3))) : 1;
        p.knobs[K_PLACE] = r.range(0, 2); p.knobs[K_FILL] = r.range(0, 3); p.knobs[K_RED] = r.range(0, 2); p.knobs[K_SKEW] = r.range(0, 3);
        p.knobs[K_CLIENTS] = clients; p.knobs[K_START] = r.range(0, 3); p.knobs[K_ORDER] = r.range(0, 5);
        if (prop == "C06" && r.chance(25)) p.knobs[K_QUOTA] = r.range(100, 2000);
        if ((prop == "C06" || prop == "C05") && r.chance(30)) p.knobs[K_CAP] = r.range(64, 700);

        int w[W_NUM]; memcpy(w, mix.w, sizeof w);
        // swarm: some runs leave some kinds of operations out
        if (r.chance(50)) for (int i = W_CHECK; i < W_NUM; i++) if (r.chance(35)) w[i] = 0;
        int style = int(r.below(4)); // 0: balanced, 1: fill up first, 2: ping-pong, 3: single size
        int total = 0; for (int x : w) total += x;
        int nops = clients > 1 ? int(r.range(3, 9)) * clients : int(r.range(6, 45));
        size_t one = pick_size(r, c, false, false);
        // a bias towards few sizes makes reuse happen
        std::vector<size_t> pool; for (int i = int(r.range(1, 3)); i > 0; i--) pool.push_back(pick_size(r, c, r.chance(20), false));
        int order = int(r.below(4));
        for (int i = 0; i < nops; i++)
        {
            Op o; o.id = i; o.client = clients > 1 ? int(r.range(1, clients)) : 1;
            int x = int(r.below(uint64_t(total))), k = 0;
            while (x >= w[k]) x -= w[k++];
            if (style == 1) { if (i < nops / 2 && k == W_FREE) k = W_ALLOC; else if (i > nops * 2 / 3 && k == W_ALLOC) k = W_FREE; }
            if (style == 2 && (k == W_ALLOC || k == W_FREE)) k = (i & 1) ? W_FREE : W_ALLOC;
            o.kind = k;
            o.a = order == 3 ? int64_t(r.below(1 << 16)) : (int64_t(r.below(1 << 14)) << 2 | order);
            if (order < 2 && r.chance(20)) o.a = int64_t(r.below(1 << 16));
            bool huge = (prop == "C06" && r.chance(k == W_FAILREP ? 25 : 9)) || (prop == "C04" && r.chance(2)) || r.chance(1);
            bool zero = (prop == "C06" || prop == "C04" || prop == "C07" || prop == "C05" || prop == "C01" || prop == "C03") && r.chance(2);
            switch (k)
            {
            case W_ALLOC: case W_REALLOC: case W_CYCLE: case W_FAILREP:
                o.b = int64_t(zero ? 0 : huge ? pick_size(r, c, false, true) : style == 3 ? one : r.chance(55) ? pool[r.below(pool.size())] : pick_size(r, c, r.chance(25), false)); break;
            case W_CONSTRUCT: o.b = int64_t(pick_size(r, c, false, false)); o.c = (r.chance(60) ? 0x80 : 0) | int64_t(r.below(2)) << 8; break;
            default: o.b = int64_t(r.below(1 << 16)); break;
            }
            o.c |= int64_t(r.below(64));
            p.ops.push_back(o);
        }
        if (clients == 1 && (prop == "C04" || prop == "C05" || prop == "C08") && r.chance(1) && r.chance(40))
        {
            Op o; o.id = nops; o.client = 1; o.kind = W_MASS; o.a = int64_t(r.below(1 << 16)); o.b = int64_t(r.below(1 << 16)); o.c = int64_t(r.below(64));
            p.ops.push_back(o);
        }
        if (clients > 1) gen_schedule(r, p, clients, 40);
        std::vector<int> kinds;
        if (prop == "C03") { kinds = { F_STUB, F_THROW, F_LOCKERR, F_HEAP, F_LOCKERR, F_THROW, F_ELEM }; gen_faults(r, p, kinds, 80, 5, 3); }
        else if (prop == "C06") { kinds = { F_HEAP, F_HEAP, F_STUB, F_STUB, F_THROW }; gen_faults(r, p, kinds, 80, 6, 2); if (r.chance(6)) p.faults.push_back(Fault{ F_HEAP, OP_SETUP, int(r.below(2)), int(r.range(1, 3)) }); }
        else if (prop == "C05") { kinds = { F_STUB, F_STUB, F_HEAP, F_THROW, F_ELEM, F_LOCKERR }; gen_faults(r, p, kinds, 70, 8, 2); }
        else if (prop == "C01") { kinds = { F_HEAP, F_STUB, F_CAS }; gen_faults(r, p, kinds, 30, 3, 2); }
        else if (prop == "C04") { kinds = { F_HEAP, F_STUB }; gen_faults(r, p, kinds, 30, 3, 2); }
        else if (prop == "C07" || prop == "C08") { kinds = { F_HEAP, F_STUB }; gen_faults(r, p, kinds, 15, 2, 2); if (prop == "C07" && r.chance(2)) p.faults.push_back(Fault{ F_HEAP, OP_SETUP, 0, 1 }); }
        if (prop == "C03" || prop == "C05" || prop == "C04") for (auto& o : p.ops) if (o.kind == W_CONSTRUCT && r.chance(12)) p.faults.push_back(Fault{ F_ELEM, o.id, 0, 1 });
        if (clients > 1 && prop != "C01" && r.chance(40)) p.faults.push_back(Fault{ F_STALL, p.ops[r.below(p.ops.size())].id, int(r.range(1, 30)), int(r.range(50, 800)) });
    }

    static void add(const char* name, const char* prop, int weight, bool mtOnly, bool stOnly)
    {
        const Mix* m = nullptr; for (auto& x : kMix) if (!strcmp(x.prop, prop)) m = &x;
        registry().push_back(ScenarioDef{ name, prop, weight,
            [m, mtOnly, stOnly](Rng& r, Plan& p) { gen_world(*m, r, p, mtOnly, false, stOnly); },
            [](const Plan& p) -> Scenario* { return new World(p); } });
    }
    static bool init = (add("world_threads", "C01", 1, true, false),
        add("world_progress", "C03", 1, true, false),
        add("world_grants", "C04", 30000, false, false),
        add("world_routing", "C05", 30000, false, true),
        add("world_exhaustion", "C06", 1, false, true),
        add("world_owns", "C07", 1, false, true),
        add("world_reuse", "C08", 30000, false, true), true);
}
