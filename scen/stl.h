// C17 (and C14): standard containers on typed KTL allocators, next to twins on std::allocator.
#pragma once
#include "heap.h"

#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace sim
{
    // ------------------------------------------------------------ more allocators
    struct EnvSegRef : EnvBase
    {
        using Seg = segragator<64, freelist<0, 64, Up<5, U_OWNS | U_MAX>>, Up<4, U_OWNS | U_MAX>>;
        using Raw = reference<Seg>;
        Obj<Seg> r[3];
        void setup() { for (auto& o : r) o.make(); }
        Raw mk(int i) { return Raw(*r[i]); }
        void teardown() { for (auto& o : r) o.destroy(); }
    };
    struct EnvGlobal : EnvBase
    {
        static constexpr bool DEF = true;
        using Raw = global<segragator<64, freelist<0, 64, mallocator>, mallocator>>;
        Raw mk(int) { return Raw(); }
    };
    struct EnvMTGlobal : EnvBase
    {
        static constexpr bool DEF = true, MT = true;
        using Raw = global<threaded<segragator<96, freelist<0, 96, mallocator>, mallocator>>>;
        Raw mk(int) { return Raw(); }
    };
    struct EnvBigCascade : EnvBase
    {
        using Raw = shared<cascading<linear_allocator<16384>>>;
        Obj<Raw> r[3];
        void setup() { for (auto& o : r) o.make(); }
        Raw mk(int i) { return *r[i]; }
        void teardown() { for (auto& o : r) o.destroy(); }
    };
    struct EnvMTBigCascade : EnvBase
    {
        static constexpr bool MT = true;
        using Raw = atomic_shared<threaded<fallback<linear_allocator<512>, cascading<linear_allocator<16384>>>>>;
        Obj<Raw> r[1];
        void setup() { r[0].make(); }
        Raw mk(int) { return *r[0]; }
        void teardown() { r[0].destroy(); }
    };

    // ------------------------------------------------------------ elements and their twins
    template<typename T> struct Tw;
    template<> struct Tw<int> { using U = int; static int t(int i) { return i; } static int u(int i) { return i; } static bool eq(int a, int b) { return a == b; } };
    template<> struct Tw<char> { using U = char; static char t(int i) { return char('a' + i % 26); } static char u(int i) { return t(i); } static bool eq(char a, char b) { return a == b; } };
    template<> struct Tw<bool> { using U = bool; static bool t(int i) { return (i * 7) & 2; } static bool u(int i) { return t(i); } static bool eq(bool a, bool b) { return a == b; } };
    template<> struct Tw<P32> { using U = P32; static P32 t(int i) { return Elem<P32>::mk(i); } static P32 u(int i) { return t(i); } static bool eq(const P32& a, const P32& b) { return same(a, b); } };
    template<> struct Tw<P12> { using U = P12; static P12 t(int i) { return Elem<P12>::mk(i); } static P12 u(int i) { return t(i); } static bool eq(const P12& a, const P12& b) { return same(a, b); } };
    template<> struct Tw<Tracked> { using U = KI; static Tracked t(int i) { return Tracked(KV{ i % 13, i }); } static KI u(int i) { return { i % 13, i }; } static bool eq(const Tracked& a, const KI& b) { a.read("read"); return a.get() == b; } };
    template<typename A, typename B> struct Tw<std::pair<A, B>>
    {
        using U = std::pair<A, typename Tw<B>::U>;
        static bool eq(const std::pair<A, B>& a, const U& b) { return a.first == b.first && Tw<B>::eq(a.second, b.second); }
    };

    enum StlOp
    {
        SO_CONSTRUCT = 0, SO_COPY, SO_MOVE, SO_XCOPY, SO_XMOVE, SO_ASSIGN, SO_MASSIGN, SO_SWAP, SO_TRANSFER, SO_DESTROY, SO_SELF, SO_CHECK,
        SO_ADD, SO_ADD2, SO_ADDMID, SO_ADDRANGE, SO_REMOVE, SO_REMOVERANGE, SO_RESIZE, SO_CLEAR, SO_SPECIAL, SO_FIND, SO_NUM
    };

    [[noreturn]] inline void stl_bad(const char* cls, const char* kind, const char* what, size_t a, size_t b) { violate(cls, "std::%s after %s: %zu, twin %zu (op %d)", kind, what, a, b, op_id()); }

    struct IC
    {
        virtual ~IC() {}
        virtual const char* kind() const = 0;
        virtual IC* fresh() = 0;                       // an empty shell of the same kind
        virtual bool alive() const = 0;
        virtual void construct(int ai, int64_t n) = 0;
        virtual void copy(IC& o) = 0;
        virtual void xcopy(IC& o, int ai) = 0;
        virtual void move(IC& o) = 0;
        virtual void xmove(IC& o, int ai) = 0;
        virtual void assign(IC& o) = 0;
        virtual void massign(IC& o) = 0;
        virtual bool swap(IC& o) = 0;
        virtual bool transfer(IC& o, int64_t a, int64_t b) = 0;
        virtual void mutate(const Op& op) = 0;
        virtual size_t compare(const char* what) = 0;   // returns the number of elements
        virtual void destroy() = 0;
    };

    // Env-independent helper: run SUT code, exceptions are violations
    template<typename F> void sut(const char* kind, const char* what, F&& f)
    {
        Outcome r = call(f);
        if (r != Outcome::ok) violate("exception", "std::%s: %s throws although no allocation was refused (op %d)", kind, what, op_id());
    }

    enum Cat { SEQ_VECTOR, SEQ_BITS, SEQ_DEQUE, SEQ_STRING, SEQ_LIST, SEQ_FORWARD, AS_MAP, AS_MULTI, AS_SET, UN_MAP, UN_SET };

    template<Cat CAT, typename K, typename W, typename T, typename Env>
    struct Box : IC
    {
        using A = typename K::allocator_type;
        using TW = Tw<T>;
        static constexpr bool ASSOC = CAT >= AS_MAP, UNORD = CAT >= UN_MAP, MAPLIKE = CAT == AS_MAP || CAT == AS_MULTI || CAT == UN_MAP;
        Env& env; const char* name; Obj<K> o; W w; int* next;

        Box(Env& e, const char* n, int* nx) : env(e), name(n), next(nx) {}
        static Box& of(IC& i) { return static_cast<Box&>(i); }
        const char* kind() const override { return name; }
        IC* fresh() override { return new Box(env, name, next); }
        bool alive() const override { return bool(o); }
        A alloc(int i) { Harness h; return A(env.mk(i % 3)); }
        int id() { return ++*next; }
        void destroy() override { o.destroy(); w = W(); }

        template<typename F> void guard(const char* what, F&& f)
        {
            bool ok = true;
            try { f(); } catch (...) { ok = false; }
            if (!ok) violate("exception", "std::%s: %s throws although no allocation was refused (op %d)", name, what, op_id());
        }
        void construct(int ai, int64_t n) override
        {
            w = W();
            guard("construction", [&] { o.make(alloc(ai)); });
            for (int64_t i = 0; i < n; i++) add(id());
        }
        void copy(IC& s) override { guard("copy construction", [&] { o.make(static_cast<const K&>(*of(s).o)); }); w = of(s).w; }
        void xcopy(IC& s, int ai) override { guard("copy construction", [&] { o.make(static_cast<const K&>(*of(s).o), alloc(ai)); }); w = of(s).w; }
        void move(IC& s) override { guard("move construction", [&] { o.make(std::move(*of(s).o)); }); w = std::move(of(s).w); reset(s); }
        void xmove(IC& s, int ai) override { guard("move construction", [&] { o.make(std::move(*of(s).o), alloc(ai)); }); w = std::move(of(s).w); reset(s); }
        void reset(IC& s) { sut(name, "clear", [&] { of(s).o->clear(); }); of(s).w.clear(); } // moved from: any valid state
        void assign(IC& s) override { sut(name, "copy assignment", [&] { *o = static_cast<const K&>(*of(s).o); }); { W c(of(s).w); w = c; } }
        void massign(IC& s) override { sut(name, "move assignment", [&] { *o = std::move(*of(s).o); }); w = std::move(of(s).w); if (&s != this) reset(s); else { sut(name, "clear", [&] { o->clear(); }); w.clear(); } }
        bool equalAlloc(IC& s) { bool e; { Sut u; e = o->get_allocator() == of(s).o->get_allocator(); } return e; }
        bool swap(IC& s) override
        {
            if (!equalAlloc(s)) return false; // undefined by the standard
            sut(name, "swap", [&] { o->swap(*of(s).o); }); w.swap(of(s).w); return true;
        }
        bool transfer(IC& s, int64_t a, int64_t b) override
        {
            Box& t = of(s); (void)a; (void)b; (void)t;
            if constexpr (CAT == SEQ_LIST)
            {
                if (&t == this || !equalAlloc(s)) return false;
                size_t n = t.w.size(), m = w.size(); if (!n) return false;
                size_t p = size_t(b) % (m + 1), f = size_t(a) % n, l = f + 1 + size_t(b) % (n - f);
                sut(name, "splice", [&] {
                    auto pos = std::next(o->begin(), long(p));
                    if (a % 3 == 0) o->splice(pos, *t.o);
                    else if (a % 3 == 1) o->splice(pos, *t.o, std::next(t.o->begin(), long(f)));
                    else o->splice(pos, *t.o, std::next(t.o->begin(), long(f)), std::next(t.o->begin(), long(l)));
                });
                auto pos = std::next(w.begin(), long(p));
                if (a % 3 == 0) w.splice(pos, t.w);
                else if (a % 3 == 1) w.splice(pos, t.w, std::next(t.w.begin(), long(f)));
                else w.splice(pos, t.w, std::next(t.w.begin(), long(f)), std::next(t.w.begin(), long(l)));
                return true;
            }
            else if constexpr (CAT == SEQ_FORWARD)
            {
                if (&t == this || !equalAlloc(s)) return false;
                sut(name, "splice_after", [&] { o->splice_after(o->before_begin(), *t.o); }); w.splice_after(w.before_begin(), t.w); return true;
            }
            else if constexpr (ASSOC)
            {
                if (&t == this || !equalAlloc(s) || t.w.empty()) return false;
                if (a % 2 == 0) { sut(name, "merge", [&] { o->merge(*t.o); }); w.merge(t.w); }
                else
                {
                    auto key = keyOf(*std::next(t.w.begin(), long(size_t(b) % t.w.size())));
                    if (CAT == AS_MULTI) return false; // which of several equal elements leaves is not specified for the twin
                    sut(name, "node transfer", [&] { o->insert(t.o->extract(key)); });
                    w.insert(t.w.extract(key));
                }
                return true;
            }
            else // range insertion from the other
            {
                if (&t == this) return false;
                size_t p = size_t(b) % (w.size() + 1);
                if (w.size() + t.w.size() > 60) return false;
                sut(name, "insertion of a range", [&] { o->insert(o->begin() + long(p), t.o->begin(), t.o->end()); });
                w.insert(w.begin() + long(p), t.w.begin(), t.w.end());
                return true;
            }
        }
        template<typename X> static auto keyOf(const X& x) { if constexpr (MAPLIKE) return x.first; else return x; }

        int key(int i) { return (i * 7) % 17; }
        void add(int i)
        {
            if constexpr (CAT == SEQ_FORWARD) { { sut(name, "push_front", [&] { o->push_front(TW::t(i)); }); } w.push_front(TW::u(i)); }
            else if constexpr (CAT == AS_MAP || CAT == AS_MULTI || CAT == UN_MAP)
            {
                using V = typename K::mapped_type; int k = key(i);
                sut(name, "emplace", [&] { o->emplace(k, Tw<V>::t(i)); }); w.emplace(k, Tw<V>::u(i));
            }
            else if constexpr (CAT == AS_SET || CAT == UN_SET) { int k = key(i); sut(name, "insert", [&] { o->insert(k); }); w.insert(k); }
            else { sut(name, "push_back", [&] { o->push_back(TW::t(i)); }); w.push_back(TW::u(i)); }
        }
        size_t count() const { if constexpr (CAT == SEQ_FORWARD) return size_t(std::distance(w.begin(), w.end())); else return w.size(); }

        void mutate(const Op& op) override
        {
            size_t n = count(); size_t p = n ? size_t(op.b) % n : 0; size_t m = size_t(op.c) % 9;
            if (n > 60 && op.kind >= SO_ADD && op.kind <= SO_ADDRANGE) return;
            switch (op.kind)
            {
            case SO_ADD: add(id()); return;
            case SO_CLEAR: sut(name, "clear", [&] { o->clear(); }); w.clear(); return;
            default: break;
            }
            if constexpr (ASSOC)
            {
                switch (op.kind)
                {
                case SO_ADD2: case SO_ADDMID:
                {
                    int i = id(), k = key(int(op.c));
                    if constexpr (CAT == AS_MAP || CAT == UN_MAP) { using V = typename K::mapped_type; sut(name, "insert_or_assign", [&] { o->insert_or_assign(k, Tw<V>::t(i)); }); w.insert_or_assign(k, Tw<V>::u(i)); }
                    else if constexpr (CAT == AS_MULTI) { using V = typename K::mapped_type; sut(name, "emplace", [&] { o->emplace(k, Tw<V>::t(i)); }); w.emplace(k, Tw<V>::u(i)); }
                    else { sut(name, "emplace", [&] { o->emplace(k); }); w.emplace(k); }
                    return;
                }
                case SO_ADDRANGE: for (size_t i = 0; i < m; i++) add(id()); return;
                case SO_REMOVE: case SO_FIND:
                {
                    int k = key(int(op.b)); size_t a = 0, b;
                    if (op.kind == SO_REMOVE) { sut(name, "erase", [&] { a = o->erase(k); }); b = w.erase(k); }
                    else { sut(name, "count", [&] { a = static_cast<const K&>(*o).count(k); }); b = w.count(k); }
                    if (a != b) stl_bad("wrong-result", name, "erase/count of a key", a, b);
                    return;
                }
                case SO_REMOVERANGE:
                    if constexpr (!UNORD)
                    {
                        if (!n) return;
                        size_t l = p + size_t(op.c) % (n - p + 1);
                        sut(name, "erase of a range", [&] { o->erase(std::next(o->begin(), long(p)), std::next(o->begin(), long(l))); });
                        w.erase(std::next(w.begin(), long(p)), std::next(w.begin(), long(l)));
                    }
                    return;
                case SO_RESIZE: case SO_SPECIAL:
                    if constexpr (UNORD) { size_t b = size_t(op.b) * 5; sut(name, "rehash", [&] { if (op.c & 1) o->rehash(b); else o->reserve(b); }); w.rehash(b); }
                    return;
                default: return;
                }
            }
            else if constexpr (CAT == SEQ_FORWARD)
            {
                switch (op.kind)
                {
                case SO_ADD2: case SO_ADDMID: { if (!n) return; int i = id(); sut(name, "insert_after", [&] { o->insert_after(std::next(o->begin(), long(p)), TW::t(i)); }); w.insert_after(std::next(w.begin(), long(p)), TW::u(i)); return; }
                case SO_REMOVE: if (!n) return; sut(name, "pop_front", [&] { o->pop_front(); }); w.pop_front(); return;
                case SO_SPECIAL: sut(name, "reverse", [&] { o->reverse(); }); w.reverse(); return;
                case SO_RESIZE: { if (m >= n) return; auto k = m; sut(name, "erase_after", [&] { o->erase_after(std::next(o->before_begin(), long(k)), o->end()); }); w.erase_after(std::next(w.before_begin(), long(k)), w.end()); return; }
                default: return;
                }
            }
            else
            {
                auto at = [&](auto& c, size_t i) { return std::next(c.begin(), long(i)); };
                switch (op.kind)
                {
                case SO_ADD2: { int i = id(); if constexpr (CAT == SEQ_DEQUE || CAT == SEQ_LIST) { sut(name, "push_front", [&] { o->push_front(TW::t(i)); }); w.push_front(TW::u(i)); } else { sut(name, "push_back", [&] { o->push_back(TW::t(i)); }); w.push_back(TW::u(i)); } return; }
                case SO_ADDMID: { int i = id(); sut(name, "insert", [&] { T v = TW::t(i); o->insert(at(*o, p), v); }); typename TW::U v = TW::u(i); w.insert(at(w, p), v); return; }
                case SO_ADDRANGE: { int i = id(); sut(name, "insert of several", [&] { T v = TW::t(i); o->insert(at(*o, p), m, v); }); typename TW::U v = TW::u(i); w.insert(at(w, p), m, v); return; }
                case SO_REMOVE: if (!n) return; if (op.c & 1) { sut(name, "pop_back", [&] { o->pop_back(); }); w.pop_back(); } else { sut(name, "erase", [&] { o->erase(at(*o, p)); }); w.erase(at(w, p)); } return;
                case SO_REMOVERANGE: { if (!n) return; size_t l = p + size_t(op.c) % (n - p + 1); sut(name, "erase of a range", [&] { o->erase(at(*o, p), at(*o, l)); }); w.erase(at(w, p), at(w, l)); return; }
                case SO_RESIZE: { size_t k = size_t(op.c % 40); int i = id(); sut(name, "resize", [&] { T v = TW::t(i); o->resize(k, v); }); typename TW::U v = TW::u(i); w.resize(k, v); return; }
                case SO_SPECIAL:
                    if constexpr (CAT == SEQ_LIST)
                    {
                        auto less = [](const auto& a, const auto& b) { return a < b; };
                        if (op.c & 1) { sut(name, "sort", [&] { o->sort(less); }); w.sort(less); } else { sut(name, "reverse", [&] { o->reverse(); }); w.reverse(); }
                    }
                    else if constexpr (CAT == SEQ_DEQUE) { sut(name, "shrink_to_fit", [&] { o->shrink_to_fit(); }); }
                    else if (op.c & 1) sut(name, "reserve", [&] { o->reserve(size_t(op.b) * 3); });
                    else sut(name, "shrink_to_fit", [&] { o->shrink_to_fit(); });
                    return;
                case SO_FIND: { int i = id(); sut(name, "assign", [&] { T v = TW::t(i); o->assign(m, v); }); typename TW::U v = TW::u(i); w.assign(m, v); return; }
                default: return;
                }
            }
        }

        size_t compare(const char* what) override
        {
            if (!o) return 0;
            const K& k = *o; size_t n = count(), got = 0;
            if constexpr (CAT != SEQ_FORWARD) { { Sut u; got = k.size(); } if (got != n) stl_bad("wrong-size", name, what, got, n); }
            note(n, got);
            if constexpr (UNORD)
            {
                size_t seen = 0;
                Sut u;
                for (auto it = k.begin(); it != k.end(); ++it)
                {
                    const auto* e = &*it; Harness h;
                    if (++seen > n) stl_bad("wrong-size", name, what, seen, n);
                    if (reinterpret_cast<uintptr_t>(e) % alignof(decltype(*e))) violate("misaligned", "an element of std::%s is at %p (op %d)", name, static_cast<const void*>(e), op_id());
                    auto f = w.find(keyOf(*e));
                    if (f == w.end()) violate("wrong-element", "std::%s holds a key after %s that its twin does not have (op %d)", name, what, op_id());
                    if constexpr (MAPLIKE) { using V = typename K::mapped_type; if (!Tw<V>::eq(e->second, f->second)) violate("wrong-element", "std::%s holds another value than its twin after %s (op %d)", name, what, op_id()); }
                }
                Harness h; if (seen != n) stl_bad("wrong-size", name, what, seen, n);
            }
            else
            {
                auto tw = w.begin(); size_t i = 0;
                Sut u;
                for (auto it = k.begin(); it != k.end(); ++it, ++i)
                {
                    if constexpr (CAT == SEQ_BITS) { bool v = *it; Harness h; if (tw == w.end() || v != *tw) violate("wrong-element", "bit %zu of std::%s after %s (op %d)", i, name, what, op_id()); ++tw; }
                    else
                    {
                        const auto* e = &*it; Harness h;
                        if (tw == w.end()) stl_bad("wrong-size", name, what, i + 1, n);
                        if (reinterpret_cast<uintptr_t>(e) % alignof(decltype(*e))) violate("misaligned", "element %zu of std::%s is at %p (op %d)", i, name, static_cast<const void*>(e), op_id());
                        bool ok;
                        if constexpr (MAPLIKE) { using V = typename K::mapped_type; ok = e->first == tw->first && Tw<V>::eq(e->second, tw->second); }
                        else if constexpr (CAT == AS_SET) ok = *e == *tw;
                        else ok = TW::eq(*e, *tw);
                        if (!ok) violate("wrong-element", "element %zu of std::%s is not that of its twin after %s (op %d)", i, name, what, op_id());
                        ++tw;
                    }
                }
                Harness h; if (tw != w.end()) stl_bad("wrong-size", name, what, i, n);
            }
            return n;
        }
    };

    enum StlKind { SK_VEC_INT = 0, SK_VEC_TR, SK_VEC_P32, SK_BITS, SK_DEQUE_P12, SK_DEQUE_TR, SK_STRING, SK_LIST_INT, SK_LIST_TR, SK_FORWARD, SK_MAP_TR, SK_MULTIMAP, SK_SET, SK_UMAP_TR, SK_USET, SK_NUM };

    template<typename Env> struct Stl : Scenario
    {
        template<typename X> using Al = type_allocator<X, typename Env::Raw>;
        static constexpr int SLOTS = 4;
        const Plan& plan; UpState up; TrackReg reg; Env env; IC* slot[5][SLOTS]; int clients; int nextId = 0;
        static constexpr bool COUNTED = countsElements<Env>;

        explicit Stl(const Plan& p) : plan(p), clients(int(p.knob(K_CLIENTS)))
        {
            if (clients < 1 || !Env::MT) clients = 1;
            if (clients > 4) clients = 4;
        }
        template<Cat C, typename T, template<typename...> class X> IC* seq(const char* n) { return new Box<C, X<T, Al<T>>, X<typename Tw<T>::U>, T, Env>(env, n, &nextId); }
        IC* shell(int k)
        {
            using PT = std::pair<const int, Tracked>; using PI = std::pair<const int, int>;
            using S = std::basic_string<char, std::char_traits<char>, Al<char>>;
            switch (k)
            {
            case SK_VEC_INT: return seq<SEQ_VECTOR, int, std::vector>("vector<int>");
            case SK_VEC_TR: return seq<SEQ_VECTOR, Tracked, std::vector>("vector<element>");
            case SK_VEC_P32: return seq<SEQ_VECTOR, P32, std::vector>("vector<alignas(16)>");
            case SK_BITS: return seq<SEQ_BITS, bool, std::vector>("vector<bool>");
            case SK_DEQUE_P12: return seq<SEQ_DEQUE, P12, std::deque>("deque<P12>");
            case SK_DEQUE_TR: return seq<SEQ_DEQUE, Tracked, std::deque>("deque<element>");
            case SK_STRING: return new Box<SEQ_STRING, S, std::string, char, Env>(env, "basic_string", &nextId);
            case SK_LIST_INT: return seq<SEQ_LIST, int, std::list>("list<int>");
            case SK_LIST_TR: return seq<SEQ_LIST, Tracked, std::list>("list<element>");
            case SK_FORWARD: return seq<SEQ_FORWARD, P12, std::forward_list>("forward_list<P12>");
            case SK_MAP_TR: return new Box<AS_MAP, std::map<int, Tracked, std::less<int>, Al<PT>>, std::map<int, KI>, PT, Env>(env, "map<int, element>", &nextId);
            case SK_MULTIMAP: return new Box<AS_MULTI, std::multimap<int, int, std::less<int>, Al<PI>>, std::multimap<int, int>, PI, Env>(env, "multimap<int, int>", &nextId);
            case SK_SET: return new Box<AS_SET, std::set<int, std::less<int>, Al<int>>, std::set<int>, int, Env>(env, "set<int>", &nextId);
            case SK_UMAP_TR: return new Box<UN_MAP, std::unordered_map<int, Tracked, std::hash<int>, std::equal_to<int>, Al<PT>>, std::unordered_map<int, KI>, PT, Env>(env, "unordered_map<int, element>", &nextId);
            default: return new Box<UN_SET, std::unordered_set<int, std::hash<int>, std::equal_to<int>, Al<int>>, std::unordered_set<int>, int, Env>(env, "unordered_set<int>", &nextId);
            }
        }

        void setup() override
        {
            ups() = &up; tracks() = &reg; up.exclusive = Env::MT;
            up.released = [this](const void* p, size_t n)
            {
                auto it = reg.live.lower_bound(uintptr_t(p));
                if (it != reg.live.end() && it->first < uintptr_t(p) + n) violate("element-lost", "memory is released with a live element in it (op %d)", op_id());
            };
            env.setup();
            // slots 0 and 1, and slots 2 and 3, hold containers of the same type
            for (int c = 1; c <= clients; c++) for (int s = 0; s < SLOTS; s++) slot[c][s] = shell(int(plan.knob(size_t(K_USER + 1 + (s / 2) + 2 * (c - 1))) % SK_NUM));
        }

        void exec(const Op& op) override
        {
            if (op.a < 0) return;
            IC** sl = slot[client()]; size_t i = size_t(op.a) % SLOTS; IC& s = *sl[i]; IC& t = *sl[i ^ 1];
            const char* what = "?";
            switch (op.kind)
            {
            case SO_CONSTRUCT: if (s.alive()) s.destroy(); s.construct(int(op.b % 3), op.c % 7); what = "construction"; break;
            case SO_COPY: if (!t.alive()) return; if (s.alive()) s.destroy(); s.copy(t); what = "copy construction"; break;
            case SO_MOVE: if (!t.alive()) return; if (s.alive()) s.destroy(); s.move(t); what = "move construction"; probe("moved"); break;
            case SO_XCOPY: if (!t.alive()) return; if (s.alive()) s.destroy(); s.xcopy(t, int(op.b % 3)); what = "copy construction with an allocator"; break;
            case SO_XMOVE: if (!t.alive()) return; if (s.alive()) s.destroy(); s.xmove(t, int(op.b % 3)); what = "move construction with an allocator"; probe("moved"); break;
            case SO_ASSIGN: if (!t.alive() || !s.alive()) return; s.assign(t); what = "copy assignment"; break;
            case SO_MASSIGN: if (!t.alive() || !s.alive()) return; s.massign(t); what = "move assignment"; probe("move_assigned"); break;
            case SO_SWAP: if (!t.alive() || !s.alive()) return; if (s.swap(t)) probe("swapped"); what = "swap"; break;
            case SO_TRANSFER: if (!t.alive() || !s.alive()) return; if (s.transfer(t, op.b, op.c)) probe("transferred"); what = "transfer of elements"; break;
            case SO_DESTROY: if (!s.alive()) return; s.destroy(); what = "destruction"; break;
            case SO_SELF: if (!s.alive()) return; s.assign(s); what = "assignment to itself"; break;
            case SO_CHECK: what = "nothing"; break;
            default: if (!s.alive()) return; s.mutate(op); what = "modification"; probe("modified");
            }
            s.compare(what); t.compare(what);
        }

        void teardown() override
        {
            for (int c = 1; c <= clients; c++) for (auto* s : slot[c]) if (s) { s->compare("the run"); if (s->alive()) s->destroy(); delete s; }
            if (!reg.live.empty()) violate("element-lost", "%zu elements are never destroyed", reg.live.size());
            if (COUNTED) accountsBalance(up);
            env.teardown();
            for (int k = 0; k < 6; k++) if (!up.pool[k].live.empty()) violate("leak", "%zu blocks were never returned to upstream %d", up.pool[k].live.size(), k);
            ups() = nullptr; tracks() = nullptr;
        }
    };

    enum { SE_SHARED = 0, SE_MALLOC, SE_SEG, SE_OVERFLOW, SE_CONSTRUCT, SE_FALLBACK, SE_SEGREF, SE_GLOBAL, SE_INST, SE_CASCADE, SE_SPLIT, SE_SPARE, SE_MT, SE_MT_FIRST = SE_MT, SE_MTOVERFLOW, SE_MTGLOBAL, SE_MTCASCADE, SE_NUM };
    Scenario* make_stl1(int e, const Plan& p);
    Scenario* make_stl2(int e, const Plan& p);
    Scenario* make_stl3(int e, const Plan& p);
    Scenario* make_stl4(int e, const Plan& p);
    Scenario* make_stl5(int e, const Plan& p);
}
