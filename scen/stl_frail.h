// C17, C14, C10: standard containers on typed KTL allocators whose elements throw while they are constructed,
// copied, moved or assigned. The same operation is made on a twin on std::allocator whose element throws at the
// same point; afterwards both hold the same, every element and every block is accounted for.
#pragma once
#include "stl.h"

namespace sim
{
    struct FrailThrow {};
    struct FrailState
    {
        int count[2][8] = {}, threwAt[8] = {};
        std::map<uintptr_t, int> live;
    };
    FrailState*& frails();

    template<int Side, bool NM> class Frail // Side 0: on the KTL allocator, 1: on std::allocator. NM: moves never throw
    {
    public:
        Frail(int v) : m_V(v) { strain(); born(); }
        Frail(const Frail& o) : m_V(o.m_V) { o.alive("copied"); strain(); born(); }
        Frail(Frail&& o) noexcept(NM) : m_V(o.m_V) { o.alive("moved"); if (!NM) strain(); born(); o.m_V = -1; }
        Frail& operator=(const Frail& o) { o.alive("copied"); alive("assigned to"); strain(); m_V = o.m_V; return *this; }
        Frail& operator=(Frail&& o) noexcept(NM) { o.alive("moved"); alive("assigned to"); if (!NM) strain(); int v = o.m_V; o.m_V = -1; m_V = v; return *this; }
        ~Frail()
        {
            if (Side == 1) return;
            Harness h;
            if (!frails()) return;
            if (!frails()->live.erase(uintptr_t(this))) violate("destroyed-twice", "an element that was never constructed here, or was destroyed already, is destroyed (op %d)", op_id());
            if (m_Self != this) violate("element-overwritten", "an element was overwritten in place before its destruction (op %d)", op_id());
            m_Self = nullptr;
        }
        int get() const { return m_V; }
        friend bool operator<(const Frail& a, const Frail& b) { a.alive("compared"); b.alive("compared"); return a.m_V < b.m_V; }
        friend bool operator==(const Frail& a, const Frail& b) { a.alive("compared"); b.alive("compared"); return a.m_V == b.m_V; }

    private:
        static void strain()
        {
            Harness h;
            FrailState* s = frails(); if (!s) return;
            int c = client() & 7, n = ++s->count[Side][c];
            if (Side == 0) { if (fault(F_ELEM)) { s->threwAt[c] = n; throw FrailThrow(); } }
            else if (n == s->threwAt[c]) throw FrailThrow();
        }
        void born()
        {
            m_Self = this;
            if (Side == 1) return;
            Harness h;
            if (!frails()) return;
            if (frails()->live.count(uintptr_t(this))) violate("constructed-twice", "an element is constructed on top of one that has not been destroyed (op %d)", op_id());
            frails()->live[uintptr_t(this)] = 1;
        }
        void alive(const char* what) const
        {
            if (Side == 1) return;
            Harness h;
            if (!frails()) return;
            if (!frails()->live.count(uintptr_t(this))) violate("dead-element-used", "memory that holds no element is %s as one (op %d)", what, op_id());
            if (m_Self != this) violate("element-overwritten", "an element that is %s was overwritten in place (op %d)", what, op_id());
        }
        int m_V; const Frail* m_Self;
    };
    // the twins' allocator: like std::allocator, but with an identity, and without the short cuts that the library keeps for its own
    template<typename T> struct TwinAlloc
    {
        typedef T value_type;
        int id = 0; // equal to those that are equal on the other side
        TwinAlloc() = default;
        explicit TwinAlloc(int id) : id(id) {}
        template<typename U> TwinAlloc(const TwinAlloc<U>& o) noexcept : id(o.id) {}
        T* allocate(size_t n) { return std::allocator<T>().allocate(n); }
        void deallocate(T* p, size_t n) { std::allocator<T>().deallocate(p, n); }
        template<typename U> bool operator==(const TwinAlloc<U>& o) const { return id == o.id; }
        template<typename U> bool operator!=(const TwinAlloc<U>& o) const { return id != o.id; }
    };
    struct FrailHash { template<typename F> size_t operator()(const F& f) const { return size_t(f.get()) % 5; } };

    enum FrailOp { FO_CONSTRUCT = 0, FO_COPY, FO_XCOPY, FO_MOVE, FO_XMOVE, FO_ASSIGN, FO_MASSIGN, FO_FILL, FO_DESTROY, FO_ADD, FO_ADD2, FO_ADDMID, FO_ADDN, FO_RESIZE, FO_ERASE, FO_ERASEN, FO_CLEAR, FO_ASSIGNN, FO_SPECIAL, FO_NUM };
    enum FrailKind { FK_VEC = 0, FK_VEC_TM, FK_DEQUE, FK_DEQUE_TM, FK_LIST, FK_FORWARD, FK_MAP, FK_SET, FK_UMAP, FK_USET, FK_NUM };

    struct FC
    {
        virtual ~FC() {}
        virtual bool alive() const = 0;
        virtual void exec(const Op& op, FC& other) = 0;
        virtual void destroy() = 0;
    };

    template<template<int> class C, typename Env> struct FBox : FC
    {
        using K = typename C<0>::template On<typename Env::Raw>; using W = typename C<1>::Std; using A = typename K::allocator_type;
        Env& env; const char* name; Obj<K> o; std::unique_ptr<W> w; int* next;
        FBox(Env& e, const char* n, int* nx) : env(e), name(n), next(nx) {}
        bool alive() const override { return bool(o); }
        void destroy() override { o.destroy(); w.reset(); }

        template<typename FS, typename FT> bool both(const char* what, FS&& fs, FT&& ft)
        {
            FrailState& s = *frails(); int c = client() & 7;
            s.count[0][c] = s.count[1][c] = s.threwAt[c] = 0;
            int threw = 0, twin = 0;
            try { fs(); } catch (const FrailThrow&) { threw = 1; } catch (...) { threw = 2; }
            if (threw == 2) violate("exception", "std::%s: %s ends with an exception that is not its element's (op %d)", name, what, op_id());
            if (threw && !s.threwAt[c]) violate("exception", "std::%s: %s throws although nothing did (op %d)", name, what, op_id());
            try { ft(); } catch (const FrailThrow&) { twin = 1; }
            if (threw != twin) violate("exception-lost", "std::%s: %s %s with the exception of an element, but its twin %s (op %d)", name, what, threw ? "ends" : "does not end", twin ? "does" : "does not", op_id());
            if (threw) { probe("element_exceptions"); nontrivial(); }
            s.threwAt[c] = 0;
            return !threw;
        }
        template<typename F> bool same(const char* what, F&& f) { return both(what, [&] { Sut u; f(*o); }, [&] { f(*w); }); }

        void exec(const Op& op, FC& other) override
        {
            FBox& t = static_cast<FBox&>(other);
            auto mk = [&](int i) { Harness h; return A(env.mk(i % 3)); };
            auto twin = [&](int i) { int k = 0; Sut u; auto a = env.mk(i % 3); while (k < i % 3 && !(env.mk(k) == a)) k++; return typename W::allocator_type(k); };
            int id = ++*next; const char* what = "?";
            switch (op.kind)
            {
            case FO_CONSTRUCT: what = "construction"; destroy(); both(what, [&] { o.make(mk(int(op.b))); }, [&] { w.reset(new W(twin(int(op.b)))); }); break;
            case FO_COPY: what = "copy construction"; if (!t.o) return; destroy(); both(what, [&] { o.make(static_cast<const K&>(*t.o)); }, [&] { w.reset(new W(*t.w)); }); break;
            case FO_XCOPY: what = "copy construction with an allocator"; if (!t.o) return; destroy(); both(what, [&] { o.make(static_cast<const K&>(*t.o), mk(int(op.b))); }, [&] { w.reset(new W(*t.w, twin(int(op.b)))); }); break;
            case FO_MOVE: what = "move construction"; if (!t.o) return; destroy(); both(what, [&] { o.make(std::move(*t.o)); }, [&] { w.reset(new W(std::move(*t.w))); }); break;
            case FO_XMOVE: what = "move construction with an allocator"; if (!t.o) return; destroy(); both(what, [&] { o.make(std::move(*t.o), mk(int(op.b))); }, [&] { w.reset(new W(std::move(*t.w), twin(int(op.b)))); }); break;
            case FO_MASSIGN: what = "move assignment"; if (!o || !t.o || &t == this) return; both(what, [&] { Sut u; *o = std::move(*t.o); }, [&] { *w = std::move(*t.w); }); break;
            case FO_ASSIGN: what = "copy assignment"; if (!o || !t.o) return; both(what, [&] { Sut u; *o = static_cast<const K&>(*t.o); }, [&] { *w = *t.w; }); break;
            case FO_FILL: what = "construction of several"; destroy();
                both(what, [&] { C<0>::fill(o, size_t(op.c % 9), id, mk(int(op.b))); }, [&] { C<1>::fillStd(w, size_t(op.c % 9), id, twin(int(op.b))); }); break;
            case FO_DESTROY: destroy(); return;
            default: what = "modification"; if (!o || (w && count(*w) > 40)) return; same(what, [&](auto& c) { C<std::is_same_v<std::decay_t<decltype(c)>, K> ? 0 : 1>::mutate(c, op, id); }); break;
            }
            compare(what); t.compare(what);
        }
        template<typename X> static size_t count(const X& x) { return size_t(std::distance(x.begin(), x.end())); }
        template<typename X> static std::vector<std::pair<int, int>> values(const X& x) { std::vector<std::pair<int, int>> v; for (const auto& e : x) { Harness h; v.push_back(C<0>::value(e)); } if (C<0>::UNORDERED) { Harness h; std::sort(v.begin(), v.end()); } return v; }
        std::vector<std::pair<int, int>> valuesSut() { const K& k = *o; Sut u; return values(k); }
        void compare(const char* what)
        {
            if (bool(o) != bool(w)) violate("harness", "std::%s and its twin do not exist alike after %s (op %d)", name, what, op_id());
            if (!o) return;
            auto a = valuesSut(), b = values(*w);
            note(a.size());
            if (a != b) violate("wrong-element", "std::%s holds %zu elements and its twin %zu after %s, or other ones (op %d)", name, a.size(), b.size(), what, op_id());
        }
    };

    // the kinds of container; mutate() is the same code for both sides
    template<bool NM> struct FrailVec
    {
        template<int S> struct Kit
        {
            using F = Frail<S, NM>; using Std = std::vector<F, TwinAlloc<F>>; template<typename R> using On = std::vector<F, type_allocator<F, R>>;
            static constexpr bool UNORDERED = false;
            template<typename E> static std::pair<int, int> value(const E& e) { return { e.get(), 0 }; }
            template<typename O, typename A> static void fill(O& o, size_t n, int id, A a) { o.make(n, F(id), a); }
            template<typename A> static void fillStd(std::unique_ptr<Std>& w, size_t n, int id, A a) { w.reset(new Std(n, F(id), a)); }
            template<typename X> static void mutate(X& c, const Op& op, int id)
            {
                size_t n = c.size(), p = n ? size_t(op.b) % n : 0, m = size_t(op.c) % 7; auto it = c.begin() + long(p);
                switch (op.kind)
                {
                case FO_ADD: c.push_back(F(id)); break;
                case FO_ADD2: c.emplace_back(id); break;
                case FO_ADDMID: if (op.c & 1) c.insert(it, F(id)); else { F f(id); c.insert(it, f); } break;
                case FO_ADDN: c.insert(it, m, F(id)); break;
                case FO_RESIZE: c.resize(size_t(op.c) % 20, F(id)); break;
                case FO_ERASE: if (n) c.erase(it); break;
                case FO_ERASEN: if (n) c.erase(it, it + long(size_t(op.c) % (n - p + 1))); break;
                case FO_CLEAR: c.clear(); break;
                case FO_ASSIGNN: c.assign(m, F(id)); break;
                default: if constexpr (std::is_same_v<X, std::deque<F, typename X::allocator_type>>) { c.emplace_front(id); if (op.c & 1) c.shrink_to_fit(); } else if (op.c & 1) c.reserve(size_t(op.b) % 50); else c.shrink_to_fit(); break;
                }
            }
        };
    };
    template<bool NM> struct FrailDeque
    {
        template<int S> struct Kit : FrailVec<NM>::template Kit<S>
        {
            using F = Frail<S, NM>; using Std = std::deque<F, TwinAlloc<F>>; template<typename R> using On = std::deque<F, type_allocator<F, R>>;
            template<typename A> static void fillStd(std::unique_ptr<Std>& w, size_t n, int id, A a) { w.reset(new Std(n, F(id), a)); }
        };
    };
    template<int S> struct FrailList
    {
        using F = Frail<S, false>; using Std = std::list<F, TwinAlloc<F>>; template<typename R> using On = std::list<F, type_allocator<F, R>>;
        static constexpr bool UNORDERED = false;
        template<typename E> static std::pair<int, int> value(const E& e) { return { e.get(), 0 }; }
        template<typename O, typename A> static void fill(O& o, size_t n, int id, A a) { o.make(n, F(id), a); }
        template<typename A> static void fillStd(std::unique_ptr<Std>& w, size_t n, int id, A a) { w.reset(new Std(n, F(id), a)); }
        template<typename X> static void mutate(X& c, const Op& op, int id)
        {
            size_t n = c.size(), p = n ? size_t(op.b) % n : 0, m = size_t(op.c) % 7; auto it = std::next(c.begin(), long(p));
            switch (op.kind)
            {
            case FO_ADD: c.push_back(F(id)); break;
            case FO_ADD2: c.emplace_front(id); break;
            case FO_ADDMID: c.insert(it, F(id)); break;
            case FO_ADDN: c.insert(it, m, F(id)); break;
            case FO_RESIZE: c.resize(size_t(op.c) % 20, F(id)); break;
            case FO_ERASE: if (n) c.erase(it); break;
            case FO_ERASEN: c.erase(it, c.end()); break;
            case FO_CLEAR: c.clear(); break;
            case FO_ASSIGNN: c.assign(m, F(id)); break;
            default: if (op.c & 1) c.sort(); else c.unique(); break;
            }
        }
    };
    template<int S> struct FrailForward
    {
        using F = Frail<S, false>; using Std = std::forward_list<F, TwinAlloc<F>>; template<typename R> using On = std::forward_list<F, type_allocator<F, R>>;
        static constexpr bool UNORDERED = false;
        template<typename E> static std::pair<int, int> value(const E& e) { return { e.get(), 0 }; }
        template<typename O, typename A> static void fill(O& o, size_t n, int id, A a) { o.make(n, F(id), a); }
        template<typename A> static void fillStd(std::unique_ptr<Std>& w, size_t n, int id, A a) { w.reset(new Std(n, F(id), a)); }
        template<typename X> static void mutate(X& c, const Op& op, int id)
        {
            size_t n = size_t(std::distance(c.begin(), c.end())), p = n ? size_t(op.b) % n : 0, m = size_t(op.c) % 7;
            auto it = n ? std::next(c.begin(), long(p)) : c.before_begin();
            switch (op.kind)
            {
            case FO_ADD: c.push_front(F(id)); break;
            case FO_ADD2: c.emplace_front(id); break;
            case FO_ADDMID: c.insert_after(it, F(id)); break;
            case FO_ADDN: c.insert_after(it, m, F(id)); break;
            case FO_RESIZE: c.resize(size_t(op.c) % 20, F(id)); break;
            case FO_ERASE: if (n) c.pop_front(); break;
            case FO_ERASEN: if (n) c.erase_after(it, c.end()); break;
            case FO_CLEAR: c.clear(); break;
            case FO_ASSIGNN: c.assign(m, F(id)); break;
            default: if (op.c & 1) c.sort(); else c.unique(); break;
            }
        }
    };
    template<bool HASHED> struct FrailMap
    {
        template<int S> struct Kit
        {
            using F = Frail<S, false>; using P = std::pair<const int, F>;
            using Std = std::conditional_t<HASHED, std::unordered_map<int, F, std::hash<int>, std::equal_to<int>, TwinAlloc<P>>, std::map<int, F, std::less<int>, TwinAlloc<P>>>;
            template<typename R> using On = std::conditional_t<HASHED, std::unordered_map<int, F, std::hash<int>, std::equal_to<int>, type_allocator<P, R>>, std::map<int, F, std::less<int>, type_allocator<P, R>>>;
            static constexpr bool UNORDERED = HASHED;
            template<typename E> static std::pair<int, int> value(const E& e) { return { e.first, e.second.get() }; }
            template<typename O, typename A> static void fill(O& o, size_t n, int id, A a) { o.make(a); Sut u; some(*o, n, id); }
            template<typename A> static void fillStd(std::unique_ptr<Std>& w, size_t n, int id, A a) { w.reset(new Std(a)); some(*w, n, id); }
            template<typename X> static void some(X& c, size_t n, int id) { for (size_t i = 0; i < n; i++) c.emplace(int(i) * 3 % 17, id); }
            template<typename X> static void mutate(X& c, const Op& op, int id)
            {
                int k = int(op.b % 17);
                switch (op.kind)
                {
                case FO_ADD: c.emplace(k, id); break;
                case FO_ADD2: c.insert(std::make_pair(k, F(id))); break;
                case FO_ADDMID: c.insert_or_assign(k, F(id)); break;
                case FO_ADDN: case FO_ASSIGNN: case FO_RESIZE: some(c, size_t(op.c) % 9, id); break;
                case FO_ERASE: case FO_ERASEN: c.erase(k); break;
                case FO_CLEAR: c.clear(); break;
                default: if constexpr (HASHED) c.rehash(size_t(op.c)); else c.try_emplace(k, id); break;
                }
            }
        };
    };
    template<bool HASHED> struct FrailSet
    {
        template<int S> struct Kit
        {
            using F = Frail<S, false>;
            using Std = std::conditional_t<HASHED, std::unordered_set<F, FrailHash, std::equal_to<F>, TwinAlloc<F>>, std::multiset<F, std::less<F>, TwinAlloc<F>>>;
            template<typename R> using On = std::conditional_t<HASHED, std::unordered_set<F, FrailHash, std::equal_to<F>, type_allocator<F, R>>, std::multiset<F, std::less<F>, type_allocator<F, R>>>;
            static constexpr bool UNORDERED = HASHED;
            template<typename E> static std::pair<int, int> value(const E& e) { return { e.get(), 0 }; }
            template<typename O, typename A> static void fill(O& o, size_t n, int id, A a) { o.make(a); Sut u; some(*o, n, id); }
            template<typename A> static void fillStd(std::unique_ptr<Std>& w, size_t n, int id, A a) { w.reset(new Std(a)); some(*w, n, id); }
            template<typename X> static void some(X& c, size_t n, int id) { for (size_t i = 0; i < n; i++) c.emplace(int(i) * id % 23); }
            template<typename X> static void mutate(X& c, const Op& op, int id)
            {
                switch (op.kind)
                {
                case FO_ADD: c.emplace(id % 23); break;
                case FO_ADD2: case FO_ADDMID: c.insert(F(int(op.b % 23))); break;
                case FO_ADDN: case FO_ASSIGNN: case FO_RESIZE: some(c, size_t(op.c) % 9, id); break;
                case FO_ERASE: case FO_ERASEN: c.erase(F(int(op.b % 23))); break;
                case FO_CLEAR: c.clear(); break;
                default: if constexpr (HASHED) c.rehash(size_t(op.c)); else if (!c.empty()) c.erase(c.begin()); break;
                }
            }
        };
    };

    template<typename Env> struct FrailWorld : Scenario
    {
        const Plan& plan; UpState up; FrailState st; Env env; FC* slot[5][4]; int clients, nextId = 0;
        static constexpr bool COUNTED = countsElements<Env>;
        explicit FrailWorld(const Plan& p) : plan(p), clients(int(p.knob(K_CLIENTS))) { if (clients < 1 || !Env::MT) clients = 1; if (clients > 4) clients = 4; }
        template<template<int> class C> FC* box(const char* n) { return new FBox<C, Env>(env, n, &nextId); }
        FC* shell(int k)
        {
            switch (k)
            {
            case FK_VEC: return box<FrailVec<true>::template Kit>("vector<throwing element>");
            case FK_VEC_TM: return box<FrailVec<false>::template Kit>("vector<throwing element>");
            case FK_DEQUE: return box<FrailDeque<true>::template Kit>("deque<throwing element>");
            case FK_DEQUE_TM: return box<FrailDeque<false>::template Kit>("deque<throwing element>");
            case FK_LIST: return box<FrailList>("list<throwing element>");
            case FK_FORWARD: return box<FrailForward>("forward_list<throwing element>");
            case FK_MAP: return box<FrailMap<false>::template Kit>("map<int, throwing element>");
            case FK_SET: return box<FrailSet<false>::template Kit>("multiset<throwing element>");
            case FK_UMAP: return box<FrailMap<true>::template Kit>("unordered_map<int, throwing element>");
            default: return box<FrailSet<true>::template Kit>("unordered_set<throwing element>");
            }
        }
        void setup() override
        {
            ups() = &up; frails() = &st; up.exclusive = Env::MT;
            up.released = [this](const void* p, size_t n)
            {
                auto it = st.live.lower_bound(uintptr_t(p));
                if (it != st.live.end() && it->first < uintptr_t(p) + n) violate("element-lost", "memory is released with a live element in it (op %d)", op_id());
            };
            env.setup();
            for (int c = 1; c <= clients; c++) for (int s = 0; s < 4; s++) slot[c][s] = shell(int(plan.knob(size_t(K_USER + 1 + (s / 2) + 2 * (c - 1))) % FK_NUM));
        }
        void exec(const Op& op) override
        {
            size_t i = size_t(op.a) & 3; FC** s = slot[client()];
            s[i]->exec(op, *s[i ^ 1]);
        }
        void quiesce() override { disarm(); }
        void teardown() override
        {
            for (int c = 1; c <= clients; c++) for (auto* s : slot[c]) { s->destroy(); delete s; }
            if (!st.live.empty()) violate("element-lost", "%zu elements are never destroyed", st.live.size());
            if (COUNTED) accountsBalance(up);
            env.teardown();
            for (int k = 0; k < 6; k++) if (!up.pool[k].live.empty()) violate("leak", "%zu blocks were never returned to upstream %d", up.pool[k].live.size(), k);
            if (live_blocks()) violate("leak", "%zu heap blocks remain: %s", live_blocks(), describe_leaks().c_str());
            ups() = nullptr; frails() = nullptr;
        }
    };

    enum { FE_OVERFLOW = 0, FE_CONSTRUCT, FE_SPLIT, FE_MALLOC, FE_CASCADE, FE_SEG, FE_MT_FIRST, FE_MTOVERFLOW = FE_MT_FIRST, FE_MTCASCADE, FE_NUM };
    Scenario* make_frail2(int e, const Plan& p);
}
