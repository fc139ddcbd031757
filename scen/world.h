// Untyped-allocator world: type-erased handles on real KTL allocator compositions, and the tree that
// describes what each composition is documented to do (which leaf serves a request of n bytes).
#pragma once

#include "stubs.h"

namespace sim
{
    // ------------------------------------------------------------ element with a re-entrant constructor
    struct ElemThrow {};
    struct Elem
    {
        uint64_t a, b;
        Elem(uint64_t v, void (*reenter)(void*), void* arg) : a(v), b(~v)
        {
            if (reenter) reenter(arg);
            if (rt::fault(rt::F_ELEM)) throw ElemThrow();
        }
        ~Elem() { a = b = 0xDEADDEADDEADDEADull; }
    };

    // ------------------------------------------------------------ handles
    struct AnyAlloc
    {
        virtual ~AnyAlloc() {}
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual bool hasOwns() const = 0;
        virtual bool owns(void* p) = 0;
        virtual bool hasMax() const = 0;
        virtual size_t maxSize() = 0;
        virtual bool hasConstruct() const = 0;
        virtual void construct(Elem* p, uint64_t v, void (*f)(void*), void* arg) = 0;
        virtual void destroyElem(Elem* p) = 0;
        virtual bool copyable() const = 0;
        virtual AnyAlloc* copy() = 0;             // a further handle on the same allocator
        virtual AnyAlloc* moveOut() = 0;          // move construction; this handle is left moved-from
        virtual void assignFrom(AnyAlloc& o) = 0; // copy assignment
        virtual bool assignable() const = 0;
        virtual void destroyHandle() = 0;         // runs the handle's destructor
        virtual bool movable() const = 0;         // can a plain allocator object be moved?
        virtual bool moveAssignable() const = 0;
        virtual void relocate() = 0;              // move construction; the old object is destroyed
        virtual void moveAssignFrom(AnyAlloc& o) = 0;
        virtual void takeObject(AnyAlloc& o) = 0; // exchanges which object the two handles stand for
        virtual bool eq(AnyAlloc& o) = 0;
        virtual bool ne(AnyAlloc& o) = 0;
        virtual const void* object() const = 0;   // where the handle itself lives
        virtual size_t objectSize() const = 0;
    };

    struct Keeper { virtual ~Keeper() {} }; // keeps a referenced object alive; destroys it (as SUT)

    // Can the assignment operator's body be instantiated? (a freelist declares it whatever its upstream offers)
    template<typename A> constexpr bool bodyAssigns = std::is_move_assignable_v<A>;
    template<size_t A, size_t B, typename U> constexpr bool bodyAssigns<ktl::freelist<A, B, U>> = bodyAssigns<U>;
    template<typename P, typename F> constexpr bool bodyAssigns<ktl::fallback<P, F>> = bodyAssigns<P> && bodyAssigns<F>;
    template<size_t T, typename P, typename F> constexpr bool bodyAssigns<ktl::segragator<T, P, F>> = bodyAssigns<P> && bodyAssigns<F>;

    // What a global handle stands for, when that can be moved out and put back with set_allocator()
    template<typename A> struct Behind { using type = void; static constexpr bool movable = false; };
    template<typename X> struct Behind<ktl::global<X>> { using type = X; static constexpr bool movable = std::is_move_constructible_v<X> && std::is_move_assignable_v<X> && bodyAssigns<X>; };

    template<typename A, bool HandleCopy> struct Impl : AnyAlloc
    {
        rt::Obj<A> o;
        std::shared_ptr<Keeper> keep;

        void* allocate(size_t n) override { return o->allocate(n); }
        void deallocate(void* p, size_t n) override { o->deallocate(p, n); }
        bool hasOwns() const override { return ktl::detail::has_owns_v<A>; }
        bool owns(void* p) override { if constexpr (ktl::detail::has_owns_v<A>) { const A& c = *o; return c.owns(p); } else { (void)p; return false; } }
        bool hasMax() const override { return ktl::detail::has_max_size_v<A>; }
        size_t maxSize() override { if constexpr (ktl::detail::has_max_size_v<A>) { const A& c = *o; return size_t(c.max_size()); } else return 0; }
        bool hasConstruct() const override { return ktl::detail::has_construct_v<A, Elem*, uint64_t, void(*)(void*), void*>; }
        void construct(Elem* p, uint64_t v, void (*f)(void*), void* arg) override { if constexpr (ktl::detail::has_construct_v<A, Elem*, uint64_t, void(*)(void*), void*>) o->construct(p, std::move(v), std::move(f), std::move(arg)); }
        void destroyElem(Elem* p) override { if constexpr (ktl::detail::has_destroy_v<A, Elem*>) o->destroy(p); }
        bool copyable() const override { return HandleCopy; }
        AnyAlloc* copy() override
        {
            if constexpr (HandleCopy) { auto* n = new Impl<A, HandleCopy>(); n->keep = keep; const A& c = *o; n->o.make(c); return n; }
            else return nullptr;
        }
        AnyAlloc* moveOut() override
        {
            if constexpr (HandleCopy) { auto* n = new Impl<A, HandleCopy>(); n->keep = keep; n->o.make(std::move(*o)); return n; }
            else return nullptr;
        }
        bool assignable() const override { return HandleCopy && std::is_copy_assignable_v<A>; }
        void assignFrom(AnyAlloc& r) override
        {
            if constexpr (HandleCopy && std::is_copy_assignable_v<A>) { const A& c = *static_cast<Impl<A, HandleCopy>&>(r).o; *o = c; }
        }
        bool movable() const override { return Behind<A>::movable || (!HandleCopy && std::is_move_constructible_v<A>); }
        bool moveAssignable() const override { return !HandleCopy && std::is_move_assignable_v<A> && bodyAssigns<A>; }
        void relocate() override
        {
            if constexpr (Behind<A>::movable)
            {
                rt::Obj<typename Behind<A>::type> n; n.make(std::move(o->get_allocator()));
                { rt::Sut u; o->set_allocator(std::move(*n)); }
                n.destroy();
            }
            else if constexpr (!HandleCopy && std::is_move_constructible_v<A>) { rt::Obj<A> n; n.make(std::move(*o)); o.destroy(); o = std::move(n); }
        }
        void moveAssignFrom(AnyAlloc& r) override
        {
            if constexpr (!HandleCopy && std::is_move_assignable_v<A> && bodyAssigns<A>) { A& x = *static_cast<Impl<A, HandleCopy>&>(r).o; rt::Sut u; *o = std::move(x); }
        }
        void takeObject(AnyAlloc& r) override { std::swap(o, static_cast<Impl<A, HandleCopy>&>(r).o); }
        void destroyHandle() override { o.destroy(); }
        bool eq(AnyAlloc& r) override { const A& a = *o; const A& b = *static_cast<Impl<A, HandleCopy>&>(r).o; return a == b; }
        bool ne(AnyAlloc& r) override { const A& a = *o; const A& b = *static_cast<Impl<A, HandleCopy>&>(r).o; return a != b; }
        const void* object() const override { return o.p; }
        size_t objectSize() const override { return sizeof(A); }
    };

    template<typename A, bool HandleCopy = false, typename... Args> AnyAlloc* make_plain(Args&&... args)
    {
        auto* i = new Impl<A, HandleCopy>();
        i->o.make(std::forward<Args>(args)...);
        return i;
    }

    template<typename B> struct ObjKeeper : Keeper { rt::Obj<B> o; ~ObjKeeper() override { rt::Harness h; o.destroy(); } };

    // handle A constructed from an object of type B that must outlive it
    template<typename A, typename B, bool HandleCopy, typename... Args> AnyAlloc* make_over(Args&&... args)
    {
        auto k = std::make_shared<ObjKeeper<B>>();
        k->o.make(std::forward<Args>(args)...);
        auto* i = new Impl<A, HandleCopy>();
        i->keep = k;
        i->o.make(*k->o);
        return i;
    }

    // global<X>: the static allocator is destroyed and reconstructed when the last handle's keeper goes
    template<typename X> struct GlobalKeeper : Keeper
    {
        ~GlobalKeeper() override { rt::Harness h; ktl::global<X> g; X& x = g.get_allocator(); rt::Sut s; x.~X(); ::new (static_cast<void*>(&x)) X(); }
    };
    template<typename X> AnyAlloc* make_global()
    {
        auto* i = new Impl<ktl::global<X>, true>();
        i->keep = std::make_shared<GlobalKeeper<X>>();
        i->o.make();
        return i;
    }

    // An untyped face on type_allocator<T, A>: a request for n bytes becomes one for the elements that takes.
    // Requests beyond PTRDIFF_MAX become element counts whose size in bytes wraps around.
    template<typename T, typename A> class Typed
    {
    public:
        Typed() = default;
        bool operator==(const Typed& o) const { return m_A == o.m_A; }
        bool operator!=(const Typed& o) const { return m_A != o.m_A; }
        void* allocate(size_t n) { return m_A.allocate(count(n)); }
        void deallocate(void* p, size_t n) { m_A.deallocate(static_cast<T*>(p), count(n)); }
        template<typename B = A> typename std::enable_if<ktl::detail::has_owns_v<B>, bool>::type owns(void* p) const { return m_A.owns(static_cast<T*>(p)); }
        template<typename B = A> typename std::enable_if<ktl::detail::has_max_size_v<B>, size_t>::type max_size() const { return m_A.max_size() * sizeof(T); }
    private:
        static size_t count(size_t n) { return n > size_t(PTRDIFF_MAX) ? SIZE_MAX / sizeof(T) + 1 + n % 3 : n / sizeof(T) + (n % sizeof(T) ? 1 : 0); }
        ktl::type_allocator<T, A> m_A;
    };
    struct B24 { uint64_t x[3]; };

    // ------------------------------------------------------------ composition description
    struct N
    {
        enum K { Mal, Lin, UpL, Fl, Seg, Fb, Casc, Ovf, Typ, Nul } k = Nul;
        size_t a = 0, b = 0; int id = 0; std::vector<N> ch;
    };
    inline N mal() { N n; n.k = N::Mal; return n; }
    inline N lin(size_t s) { N n; n.k = N::Lin; n.a = s; return n; }
    inline N up(int k) { N n; n.k = N::UpL; n.a = size_t(k); return n; }
    inline N fl(size_t mn, size_t mx, N u) { N n; n.k = N::Fl; n.a = mn; n.b = mx; n.ch = { std::move(u) }; return n; }
    inline N seg(size_t t, N p, N f) { N n; n.k = N::Seg; n.a = t; n.ch = { std::move(p), std::move(f) }; return n; }
    inline N fb(N p, N f) { N n; n.k = N::Fb; n.ch = { std::move(p), std::move(f) }; return n; }
    inline N casc(N x) { N n; n.k = N::Casc; n.ch = { std::move(x) }; return n; }
    inline N ovf(N x) { N n; n.k = N::Ovf; n.ch = { std::move(x) }; return n; }
    inline N typ(size_t size, N x) { N n; n.k = N::Typ; n.a = size; n.ch = { std::move(x) }; return n; }
    inline N nul() { return N(); }

    // one place a request may be served from, in the order the composition must try them
    struct Hop { N::K leaf; int id; size_t bytes; int fl; size_t cap; size_t pad; };

    struct Spec
    {
        N root; int leaves = 0, fls = 0; bool padded = false;
        explicit Spec(N r) : root(std::move(r)) { number(root); }
        void number(N& n) { if (n.k == N::Ovf) padded = true; if (n.k == N::Fl) n.id = fls++; else if (n.k != N::Seg && n.k != N::Fb && n.k != N::Ovf && n.k != N::Typ) n.id = leaves++; if (n.k != N::Casc) for (N& c : n.ch) number(c); }
        std::vector<Hop> chain(size_t n) const { std::vector<Hop> v; walk(root, n, -1, 0, v); return v; }

    private:
        static bool fresh_fits(const N& n, size_t bytes)
        {
            switch (n.k)
            {
            case N::Mal: return bytes < (200u << 10);
            case N::Lin: return bytes <= n.a && ((bytes + 15) & ~size_t(15)) <= n.a;
            case N::Fl: return bytes > n.a && bytes <= n.b && fresh_fits(n.ch[0], n.b);
            case N::Seg: return fresh_fits(bytes <= n.a ? n.ch[0] : n.ch[1], bytes);
            case N::Fb: return fresh_fits(n.ch[0], bytes) || fresh_fits(n.ch[1], bytes);
            case N::Typ: return bytes <= size_t(PTRDIFF_MAX) && fresh_fits(n.ch[0], (bytes + n.a - 1) / n.a * n.a);
            case N::Ovf: return bytes + 128 > bytes && fresh_fits(n.ch[0], bytes + 128);
            default: return false;
            }
        }
        void walk(const N& n, size_t bytes, int f, size_t pad, std::vector<Hop>& v) const
        {
            switch (n.k)
            {
            case N::Mal: v.push_back(Hop{ N::Mal, n.id, bytes, f, n.a, pad }); break;
            case N::Lin: v.push_back(Hop{ N::Lin, n.id, bytes, f, n.a, pad }); break;
            case N::UpL: v.push_back(Hop{ N::UpL, n.id, bytes, f, n.a, pad }); break;
            case N::Casc: if (fresh_fits(n.ch[0], bytes)) v.push_back(Hop{ N::Casc, n.id, bytes, f, 0, pad }); break;
            case N::Fl: if (bytes > n.a && bytes <= n.b) walk(n.ch[0], n.b, f < 0 ? n.id : f, pad, v); break;
            case N::Seg: walk(bytes <= n.a ? n.ch[0] : n.ch[1], bytes, f, pad, v); break;
            case N::Fb: walk(n.ch[0], bytes, f, pad, v); walk(n.ch[1], bytes, f, pad, v); break;
            case N::Typ: if (bytes <= size_t(PTRDIFF_MAX)) walk(n.ch[0], (bytes + n.a - 1) / n.a * n.a, f, pad, v); break;
            case N::Ovf: if (bytes + 128 > bytes) walk(n.ch[0], bytes + 128, f, pad + 64, v); break;
            case N::Nul: break;
            }
        }
    };

    struct Comp
    {
        std::string name;
        bool mt;                          // documented as safe to share among threads
        N spec;
        std::function<AnyAlloc*()> make;
        std::vector<size_t> sizes;        // interesting request sizes
        int flags;
    };
    enum CompFlags
    {
        CF_OVERFLOW = 1,  // reports through the world's stream
        CF_STUBS = 2,     // has strict upstream stubs
        CF_GLOBAL = 4,    // uses static storage
        CF_NODES = 8,     // cascading over instance-bound stubs
        CF_NOMT = 16,
        CF_MALLOC8 = 32,  // malloc aligns to 8 bytes only
        CF_COUNTS0 = 1 << 8, CF_COUNTS1 = 1 << 9, CF_COUNTS2 = 1 << 10, // pool k counts constructions
    };
    std::vector<Comp>& comps();
    struct RegComp { RegComp(Comp c) { comps().push_back(std::move(c)); } };
    SimStream*& stream();
}
