// Stubs the scenarios put underneath real KTL allocators: strict upstream allocators and streams.
#pragma once

#include "../sim/rt.h"

#include <ktl/ktl.h>

#include <ostream>
#include <streambuf>

namespace sim
{
    // ------------------------------------------------------------ strict upstream allocators
    // Up<K, Flags>: hands out simulated memory, and insists on getting exactly what it handed out back,
    // once, with the same size. All instances with the same K share one pool (they compare equal).
    enum UpFlags { U_OWNS = 1, U_CONSTRUCT = 2, U_MAX = 4, U_SMALL = 8 };

    struct UpPool
    {
        std::map<uintptr_t, size_t> live;
        uint64_t allocs = 0, frees = 0, refused = 0, inside = 0;
        uint64_t maxLive = 0, liveBytes = 0, peakBytes = 0;
        int64_t constructs = 0, destroys = 0, failed = 0; // failed: constructions that ended with an exception
        size_t largest = 0;
        int users = 0; // clients currently inside (mutual exclusion token)
        int userId = -1;
    };

    struct UpState
    {
        UpPool pool[6];
        bool exclusive = false; // calls into any pool must not overlap (checked for thread-safe wrappers)
        size_t limit = 128u << 10; // larger requests are refused
        size_t capacity[6] = { 0, 0, 0, 0, 0, 0 }; // 0: unlimited
        struct Ev { int k; size_t n; uintptr_t p; };
        std::vector<Ev> log[8];        // what the current call of each client asked for (p == 0: refused)
        std::function<void(const void*, size_t)> released; // called with every block that comes back
        bool relaxed[8] = { false };   // client may query owns() concurrently (construct path)
    };
    UpState*& ups(); // set by the scenario for the duration of a run

    struct UpEnter // marks presence inside an upstream allocator
    {
        rt::Harness h; int k; bool ro;
        UpEnter(int k, bool readOnly) : k(k), ro(readOnly)
        {
            UpPool& p = ups()->pool[k];
            if (ups()->exclusive)
            {
                if (!ro)
                {
                    if (p.users > 0) rt::violate("not-mutually-exclusive", "client %d enters upstream allocator %d while client %d is inside it (op %d)", rt::client(), k, p.userId, rt::op_id());
                    p.users++; p.userId = rt::client();
                }
                else if (p.users > 0 && !ups()->relaxed[rt::client() & 7]) rt::violate("not-mutually-exclusive", "client %d queries upstream allocator %d while client %d is modifying it (op %d)", rt::client(), k, p.userId, rt::op_id());
            }
            rt::yield(); rt::yield();
        }
        ~UpEnter() { rt::yield(); if (ups()->exclusive && !ro) ups()->pool[k].users--; }
    };

    void* up_allocate(int k, size_t n);                      // may throw std::bad_alloc (injected)
    void up_deallocate(int k, void* p, size_t n);
    bool up_owns(int k, void* p);

    namespace detail
    {
        template<bool> struct OwnsBase {};
    }

    template<int K, int Flags> class Up;

#define KTL_UP_COMMON(FL) \
    Up() noexcept = default; \
    explicit Up(int) noexcept {} \
    Up(const Up&) noexcept = default; \
    Up(Up&&) noexcept = default; \
    Up& operator=(const Up&) noexcept = default; \
    Up& operator=(Up&&) noexcept = default; \
    bool operator==(const Up&) const noexcept { return true; } \
    bool operator!=(const Up&) const noexcept { return false; } \
    void* allocate(size_t n) { return up_allocate(K, n); } \
    void deallocate(void* p, size_t n) { up_deallocate(K, p, n); }

#define KTL_UP_OWNS bool owns(void* p) const { return up_owns(K, p); }
#define KTL_UP_MAX size_t max_size() const { return size_t(1) << (20 + K); }
#define KTL_UP_CONSTRUCT \
    template<typename T, typename... Args> void construct(T* p, Args&&... args) { { rt::Harness h; ups()->pool[K].constructs++; } try { ::new (static_cast<void*>(p)) T(std::forward<Args>(args)...); } catch (...) { rt::Harness h; ups()->pool[K].failed++; throw; } } \
    template<typename T> void destroy(T* p) { { rt::Harness h; ups()->pool[K].destroys++; } p->~T(); }

    template<int K> class Up<K, 0> { public: KTL_UP_COMMON(0) };
    template<int K> class Up<K, U_OWNS> { public: KTL_UP_COMMON(0) KTL_UP_OWNS };
    template<int K> class Up<K, U_OWNS | U_MAX> { public: KTL_UP_COMMON(0) KTL_UP_OWNS KTL_UP_MAX };
    template<int K> class Up<K, U_OWNS | U_CONSTRUCT> { public: KTL_UP_COMMON(0) KTL_UP_OWNS KTL_UP_CONSTRUCT };
    template<int K> class Up<K, U_OWNS | U_CONSTRUCT | U_MAX> { public: KTL_UP_COMMON(0) KTL_UP_OWNS KTL_UP_CONSTRUCT KTL_UP_MAX };

    // Inst<Flags>: as Up, but which pool it uses (and so what it compares equal to) is decided per instance.
    template<int Flags = U_OWNS>
    class Inst
    {
    public:
        Inst() noexcept : m_Pool(0) {}
        explicit Inst(int pool) noexcept : m_Pool(pool) {}
        Inst(const Inst& o) noexcept : m_Pool(o.m_Pool) {}
        Inst(Inst&& o) noexcept : m_Pool(o.m_Pool) {}
        Inst& operator=(const Inst& o) noexcept { m_Pool = o.m_Pool; return *this; }
        Inst& operator=(Inst&& o) noexcept { m_Pool = o.m_Pool; return *this; }
        bool operator==(const Inst& o) const noexcept { return m_Pool == o.m_Pool; }
        bool operator!=(const Inst& o) const noexcept { return m_Pool != o.m_Pool; }
        void* allocate(size_t n) { return up_allocate(m_Pool, n); }
        void deallocate(void* p, size_t n) { up_deallocate(m_Pool, p, n); }
        template<int F = Flags> typename std::enable_if<(F & U_OWNS) != 0, bool>::type owns(void* p) const { return up_owns(m_Pool, p); }
        int pool() const { return m_Pool; }
    private:
        int m_Pool;
    };

    // ------------------------------------------------------------ instance-bound upstream
    // Node<Cap>: default constructible allocator with a fixed number of bytes, its own identity and an
    // owns() method; used below cascading<>. Its instances live and die with their owner.
    struct NodeReg { std::map<const void*, int> live; uint64_t created = 0, destroyed = 0, peak = 0; };
    NodeReg*& nodes();

    // Counts: offers construct() and destroy(), for elements in its own memory only
    // Frail: creating one may throw (injected)
    template<size_t Cap, bool Counts = false, bool Frail = false>
    class Node
    {
    public:
        Node() noexcept(!Frail) { rt::Harness h; if (Frail && rt::fault(rt::F_THROW)) { rt::trace("a sub-allocator's constructor throws (injected)"); throw std::bad_alloc(); } m_Id = 0; m_Used = 0; m_Live = 0; auto* r = nodes(); if (r) { r->live[this] = 1; r->created++; if (r->live.size() > r->peak) r->peak = r->live.size(); } }
        Node(const Node&) = delete;
        Node& operator=(const Node&) = delete;
        ~Node()
        {
            rt::Harness h;
            auto* r = nodes();
            if (!r) return;
            if (!r->live.count(this)) rt::violate("node-destroyed-twice", "a sub-allocator that does not exist is destroyed (op %d)", rt::op_id());
            if (m_Live != 0 && m_Strict) rt::violate("node-destroyed-in-use", "a sub-allocator is destroyed while %zu of its allocations are live (op %d)", m_Live, rt::op_id());
            if (m_Elems != 0) rt::violate("misrouted-element", "a sub-allocator that is destroyed has seen %zd more constructions than destructions of elements (op %d)", m_Elems, rt::op_id());
            r->live.erase(this); r->destroyed++;
        }
        template<typename T, typename... Args> typename std::enable_if<Counts && std::is_constructible<T, Args...>::value>::type construct(T* p, Args&&... args)
        {
            { rt::Harness h; alive("construct"); if (!in(p)) rt::violate("misrouted-element", "a sub-allocator is asked to construct an element in memory of another one (op %d)", rt::op_id()); m_Elems++; }
            try { ::new (static_cast<void*>(p)) T(std::forward<Args>(args)...); }
            catch (...) { rt::Harness h; alive("construct"); m_Elems--; throw; }
        }
        template<typename T, bool C = Counts> typename std::enable_if<C>::type destroy(T* p)
        {
            { rt::Harness h; alive("destroy"); if (!in(p)) rt::violate("misrouted-element", "a sub-allocator is asked to destroy an element in memory of another one (op %d)", rt::op_id()); m_Elems--; }
            p->~T();
        }
        bool operator==(const Node& o) const noexcept { return this == &o; }
        bool operator!=(const Node& o) const noexcept { return this != &o; }
        void* allocate(size_t n) noexcept
        {
            rt::Harness h;
            alive("allocate");
            size_t t = (n + 15) & ~size_t(15);
            if (t == 0 || t < n || m_Used + t > Cap) return nullptr; // nothing is granted for zero bytes
            void* p = m_Data + m_Used; m_Used += t; m_Live++;
            return p;
        }
        void deallocate(void* p, size_t n) noexcept
        {
            rt::Harness h;
            alive("deallocate");
            if (!in(p)) rt::violate("misrouted-free", "a sub-allocator is asked to release memory it never handed out (op %d)", rt::op_id());
            if (m_Live == 0) rt::violate("excess-free", "a sub-allocator gets more memory back than it handed out (op %d)", rt::op_id());
            if (--m_Live == 0) m_Used = 0;
            (void)n;
        }
        bool owns(void* p) const noexcept { rt::Harness h; alive("owns"); return in(p); }
        size_t max_size() const noexcept { return Cap; }
        static inline bool m_Strict = true;

    private:
        bool in(void* p) const { return reinterpret_cast<uintptr_t>(p) >= reinterpret_cast<uintptr_t>(m_Data) && reinterpret_cast<uintptr_t>(p) < reinterpret_cast<uintptr_t>(m_Data) + Cap; }
        void alive(const char* what) const
        {
            auto* r = nodes();
            if (r && !r->live.count(this)) rt::violate("use-of-dead-allocator", "%s on a sub-allocator that has been destroyed (op %d)", what, rt::op_id());
        }
        alignas(16) char m_Data[Cap];
        size_t m_Used, m_Live; ssize_t m_Elems = 0; int m_Id;
    };

    // ------------------------------------------------------------ streams
    struct SimStream
    {
        std::string text;
        uint64_t writes = 0;
        template<typename T> SimStream& operator<<(const T& v) { rt::Harness h; put(v); return *this; }
        SimStream& operator<<(const char* s) { rt::Harness h; text += s; writes++; return *this; }
        SimStream& operator<<(char* s) { rt::Harness h; text += s; writes++; return *this; }
    private:
        void put(const void* p) { char b[32]; snprintf(b, sizeof b, "%p", p); text += b; writes++; }
        void put(void* p) { put(static_cast<const void*>(p)); }
        void put(char c) { text += c; writes++; }
        void put(const std::string& s) { text += s; writes++; }
        template<typename T> typename std::enable_if<std::is_integral<T>::value>::type put(T v) { text += std::to_string(v); writes++; }
    };

    // unbuffered std::ostream whose text ends up in a harness string
    struct StringSink : std::streambuf
    {
        std::string text;
        int_type overflow(int_type c) override { rt::Harness h; if (c != traits_type::eof()) text += char(c); return c; }
        std::streamsize xsputn(const char* s, std::streamsize n) override { rt::Harness h; text.append(s, size_t(n)); return n; }
    };
}
