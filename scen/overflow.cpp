// C09: corruption reports of the overflow allocator are exact.  C10: its leak and construction accounts are exact.
#include "stubs.h"

#include <sys/mman.h>

#include <algorithm>
#include <memory>
#include <tuple>

using namespace rt;
using namespace ktl;

namespace sim
{
    // Stream that knows who writes to it. It is not thread safe, so neither may its users be careless.
    struct LogStream
    {
        std::string all, part[8];
        bool busy[8] = { false };
        int writer = -1;
        void* cell = obj_alloc(16);
        ~LogStream() { obj_free(cell); }
        template<typename T> LogStream& operator<<(const T& v) { Harness h; put(conv(v)); return *this; }
        LogStream& operator<<(const char* s) { Harness h; put(s); return *this; }
        LogStream& operator<<(char* s) { Harness h; put(s); return *this; }
        LogStream& operator<<(const std::string& s) { Harness h; put(s); return *this; }
        void put(const std::string& s)
        {
            client_write(cell, 8);
            int c = client() & 7;
            { if (writer >= 0 && writer != c && busy[writer])
                violate("reports-interleaved", "client %d writes to the report stream while client %d is writing a report (op %d)", c, writer, op_id());
            writer = c; all += s; part[c] += s; }
            yield();
        }
    private:
        static std::string conv(const void* p) { char b[32]; snprintf(b, sizeof b, "%p", p); return b; }
        static std::string conv(void* p) { return conv(static_cast<const void*>(p)); }
        static std::string conv(char c) { return std::string(1, c); }
        template<typename T> static typename std::enable_if<std::is_integral<T>::value, std::string>::type conv(T v) { return std::to_string(v); }
        template<typename T> static typename std::enable_if<!std::is_integral<T>::value && std::is_convertible<T, int64_t>::value && !std::is_pointer<T>::value, std::string>::type conv(const T& v) { return std::to_string(int64_t(v)); }
    };

    // std::ostream on top of a LogStream
    struct LogBuf : std::streambuf
    {
        LogStream& s; explicit LogBuf(LogStream& s) : s(s) {}
        int_type overflow(int_type c) override { Harness h; if (c != traits_type::eof()) s.put(std::string(1, char(c))); return c; }
        std::streamsize xsputn(const char* p, std::streamsize n) override { Harness h; s.put(std::string(p, size_t(n))); return n; }
    };

    // Upstream with more than 4 GB: its blocks are address space of which only the touched pages exist.
    class Big
    {
    public:
        static constexpr uintptr_t BASE = 0x300000000000ull; static constexpr size_t ROOM = size_t(64) << 30;
        struct State { bool ok = false; uintptr_t next = BASE; std::map<uintptr_t, size_t> live; };
        static State*& cur() { static State* s; return s; } // of the running scenario
        static State& st() { return *cur(); }
        static void reset()
        {
            // a fresh mapping for every run: what an earlier run left there must not show
            st().ok = mmap(reinterpret_cast<void*>(BASE), ROOM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == reinterpret_cast<void*>(BASE);
        }
        bool operator==(const Big&) const noexcept { return true; }
        bool operator!=(const Big&) const noexcept { return false; }
        void* allocate(size_t n) noexcept
        {
            Harness h; State& s = st();
            if (!s.ok || n > ROOM || s.next + n + 4096 > BASE + ROOM || fault(F_STUB)) return nullptr;
            void* p = reinterpret_cast<void*>(s.next); s.live[s.next] = n; s.next += (n + 4096) & ~size_t(15);
            return p;
        }
        void deallocate(void* p, size_t n) noexcept
        {
            Harness h; State& s = st();
            auto it = s.live.find(reinterpret_cast<uintptr_t>(p));
            if (it == s.live.end()) violate("upstream-bad-free", "the upstream allocator gets back %p, which it did not hand out (op %d)", p, op_id());
            if (it->second != n) violate("upstream-size", "a block of %zu bytes comes back to the upstream allocator as %zu bytes (op %d)", it->second, n, op_id());
            s.live.erase(it);
        }
        static bool holds(const void* p, size_t n) // one live block has all of it
        {
            uintptr_t a = reinterpret_cast<uintptr_t>(p); auto it = st().live.upper_bound(a);
            if (it == st().live.begin()) return false;
            --it; return a + n >= a && a >= it->first && a + n <= it->first + it->second;
        }
    };

    // What is constructed and destroyed through the allocator
    struct ObjThrow {};
    struct Plain16 { uint64_t a; Plain16() noexcept : a(0xABCDEF) {} Plain16(uint64_t v) noexcept : a(v) {} };
    struct Dying { uint64_t a; Dying(uint64_t v) : a(v) { if (rt::fault(rt::F_ELEM)) throw ObjThrow(); } ~Dying() { a = 0xDEADDEADDEADDEADull; } };
    enum class Colour : uint16_t { none };
    enum { CK_U64 = 0, CK_POINTER, CK_BYTE, CK_DEFAULT, CK_DYING, CK_ENUM, CK_CONSTPTR, CK_DOUBLE, CK_COPY, CK_NUM };
    template<int K> struct Cell;
    template<> struct Cell<CK_U64> { using T = uint64_t; template<typename F> static void make(F f, uint64_t v) { f(std::move(v)); } static bool ok(T* p, uint64_t v) { return *p == v; } };
    template<> struct Cell<CK_POINTER> { using T = char*; template<typename F> static void make(F f, uint64_t v) { f(reinterpret_cast<char*>(v)); } static bool ok(T* p, uint64_t v) { return *p == reinterpret_cast<char*>(v); } };
    template<> struct Cell<CK_BYTE> { using T = unsigned char; template<typename F> static void make(F f, uint64_t v) { f(static_cast<unsigned char>(v)); } static bool ok(T* p, uint64_t v) { return *p == static_cast<unsigned char>(v); } };
    template<> struct Cell<CK_DEFAULT> { using T = Plain16; template<typename F> static void make(F f, uint64_t) { f(); } static bool ok(T* p, uint64_t) { return p->a == 0xABCDEF; } };
    template<> struct Cell<CK_DYING> { using T = Dying; template<typename F> static void make(F f, uint64_t v) { f(std::move(v)); } static bool ok(T* p, uint64_t v) { return p->a == v; } };
    template<> struct Cell<CK_ENUM> { using T = Colour; template<typename F> static void make(F f, uint64_t v) { f(Colour(uint16_t(v))); } static bool ok(T* p, uint64_t v) { return *p == Colour(uint16_t(v)); } };
    template<> struct Cell<CK_CONSTPTR> { using T = const void*; template<typename F> static void make(F f, uint64_t v) { const void* x = reinterpret_cast<char*>(v); f(x); } static bool ok(T* p, uint64_t v) { return *p == reinterpret_cast<char*>(v); } };
    template<> struct Cell<CK_DOUBLE> { using T = double; template<typename F> static void make(F f, uint64_t v) { f(double(v)); } static bool ok(T* p, uint64_t v) { return *p == double(v); } };
    template<> struct Cell<CK_COPY> { using T = Plain16; template<typename F> static void make(F f, uint64_t v) { const Plain16 x(v); f(x); } static bool ok(T* p, uint64_t v) { return p->a == v; } };
    template<typename F> void with_cell(int k, F&& f)
    {
        switch (k)
        {
        case CK_POINTER: f(Cell<CK_POINTER>()); break;
        case CK_BYTE: f(Cell<CK_BYTE>()); break;
        case CK_DEFAULT: f(Cell<CK_DEFAULT>()); break;
        case CK_DYING: f(Cell<CK_DYING>()); break;
        case CK_ENUM: f(Cell<CK_ENUM>()); break;
        case CK_CONSTPTR: f(Cell<CK_CONSTPTR>()); break;
        case CK_DOUBLE: f(Cell<CK_DOUBLE>()); break;
        case CK_COPY: f(Cell<CK_COPY>()); break;
        default: f(Cell<CK_U64>()); break;
        }
    }

    struct OvAny
    {
        LogStream log; int nested = 0; bool cross = false, movable = false; int upConstruct = -1;
        int64_t bytes = 0, cons = 0;          // the account as it should be
        int64_t blocks = 0;
        virtual ~OvAny() {}
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual void construct(int kind, bool typed, void* p, uint64_t v) = 0;
        virtual void destroyAt(int kind, bool typed, void* p) = 0;
        virtual void moveAway() {}
        virtual void kill() = 0;
    };
    template<typename A, int Mode = 0> struct OvT : OvAny
    {
        Obj<A> o; LogBuf buf{ log }; std::ostream os{ &buf };
        OvT() { if constexpr (Mode == 1) o.make(os); else if constexpr (Mode == 2) o.make(log, log); else o.make(log); }
        void* allocate(size_t n) override { return o->allocate(n); }
        void deallocate(void* p, size_t n) override { o->deallocate(p, n); }
        template<typename T> using Typed = type_allocator<T, reference<A>>; // as a container uses it
        void construct(int kind, bool typed, void* q, uint64_t v) override
        {
            with_cell(kind, [&](auto c) {
                using C = decltype(c); using T = typename C::T; T* p = static_cast<T*>(q);
                C::make([&](auto&&... a) {
                    if constexpr (ktl::detail::has_construct_v<A, T*, decltype(a)...>) if (!typed) { o->construct(p, std::forward<decltype(a)>(a)...); return; }
                    Typed<T> t{ reference<A>(*o) }; std::allocator_traits<Typed<T>>::construct(t, p, std::forward<decltype(a)>(a)...);
                }, v);
            });
        }
        void destroyAt(int kind, bool typed, void* q) override
        {
            with_cell(kind, [&](auto c) {
                using T = typename decltype(c)::T; T* p = static_cast<T*>(q);
                if constexpr (ktl::detail::has_destroy_v<A, T*>) if (!typed) { o->destroy(p); return; }
                Typed<T> t{ reference<A>(*o) }; std::allocator_traits<Typed<T>>::destroy(t, p);
            });
        }
        void moveAway() override
        {
            if constexpr (std::is_move_constructible_v<A>) { Obj<A> n; n.make(std::move(*o)); o.destroy(); o = std::move(n); }
        }
        void kill() override { o.destroy(); }
    };

    enum { OK_UP = 0, OK_MALLOC, OK_FREELIST, OK_FREELIST_UP, OK_LINEAR, OK_FALLBACK, OK_SEG, OK_CASC, OK_NESTED, OK_SHARED, OK_OSTREAM, OK_UPCONS, OK_BIG, OK_BIG_OSTREAM, OK_LOCKS, OK_FIRST_MT, OK_MT_UP = OK_FIRST_MT, OK_MT_FREELIST, OK_MT_LINEAR, OK_MT_SEG, OK_NUM };

    static OvAny* make_ov(int k)
    {
        using U0 = Up<0, U_OWNS>; using U1 = Up<1, U_OWNS>; using UC0 = Up<0, U_OWNS | U_CONSTRUCT>;
        using S = LogStream;
        OvAny* r = nullptr;
        switch (k)
        {
        case OK_MALLOC: r = new OvT<overflow<mallocator, S>>(); r->cross = r->movable = true; break;
        case OK_FREELIST: r = new OvT<overflow<freelist<0, 512, mallocator>, S>>(); r->movable = true; break;
        case OK_FREELIST_UP: r = new OvT<overflow<freelist<130, 400, U0>, S>>(); break;
        case OK_LINEAR: r = new OvT<overflow<linear_allocator<1024>, S>>(); break;
        case OK_FALLBACK: r = new OvT<overflow<fallback<linear_allocator<512>, U1>, S>>(); break;
        case OK_SEG: r = new OvT<overflow<segragator<192, freelist<0, 192, U0>, U1>, S>>(); break;
        case OK_CASC: r = new OvT<overflow<cascading<linear_allocator<512>>, S>>(); break;
        case OK_NESTED: r = new OvT<overflow<overflow<U0, S>, S>, 2>(); r->nested = 1; r->cross = true; break;
        case OK_SHARED: r = new OvT<shared<overflow<U0, S>>>(); r->cross = true; break;
        case OK_OSTREAM: r = new OvT<overflow<U0>, 1>(); r->cross = true; break;
        case OK_UPCONS: r = new OvT<overflow<UC0, S>>(); r->cross = r->movable = true; r->upConstruct = 0; break;
        case OK_BIG: r = new OvT<overflow<Big, S>>(); r->cross = r->movable = true; break;
        case OK_BIG_OSTREAM: r = new OvT<overflow<Big>, 1>(); r->cross = true; break;
        case OK_LOCKS: r = new OvT<overflow<fallback<threaded<UC0>, threaded<U1>>, S>>(); r->cross = true; break; // deallocate(), construct() and destroy() may throw underneath
        case OK_MT_UP: r = new OvT<atomic_shared<threaded<overflow<U0, S>>>>(); r->cross = true; break;
        case OK_MT_FREELIST: r = new OvT<atomic_shared<threaded<overflow<freelist<0, 512, mallocator>, S>>>>(); break;
        case OK_MT_LINEAR: r = new OvT<atomic_shared<threaded<overflow<linear_allocator<1024>, S>>>>(); break;
        case OK_MT_SEG: r = new OvT<atomic_shared<threaded<overflow<segragator<192, freelist<0, 192, mallocator>, U1>, S>>>>(); break;
        default: r = new OvT<overflow<U0, S>>(); r->cross = r->movable = true; break;
        }
        return r;
    }

    enum Ops { V_ALLOC = 0, V_FREE, V_FLIP, V_RESTORE, V_SPILL, V_FILL, V_CONS, V_DEST, V_CROSSFREE, V_CROSSDEST, V_HUGE, V_MOVE, V_NUM };
    enum { K_OKIND = K_USER, K_NOBJ, K_LEAK };

    struct Block
    {
        void* p; size_t n; int obj; uint64_t tag; bool filled = false;
        std::vector<uint8_t> lo, hi;   // guard bytes as they were when the block was granted; index 0 is the nearest to the block
    };

    struct Report { uintptr_t p; size_t n, before, after; bool operator<(const Report& r) const { return std::tie(p, n, before, after) < std::tie(r.p, r.n, r.before, r.after); } bool operator==(const Report& r) const { return std::tie(p, n, before, after) == std::tie(r.p, r.n, r.before, r.after); } };

    struct OverflowScen : Scenario
    {
        const Plan& plan; UpState up; Big::State bigState; int kind, clients, nobj; bool c10;
        OvAny* obj[3] = { nullptr, nullptr, nullptr };
        std::vector<Block> slots[8]; struct CellAt { void* p; int kind; }; std::vector<CellAt> cells[8]; std::vector<void*> spare[8];
        uint64_t nextTag = 1;

        OverflowScen(const Plan& p, bool c10) : plan(p), kind(int(p.knob(K_OKIND) % OK_NUM)), clients(int(p.knob(K_CLIENTS))), nobj(int(p.knob(K_NOBJ))), c10(c10)
        {
            if (clients < 1) clients = 1;
            if (clients > 4) clients = 4;
            if (kind < OK_FIRST_MT) clients = 1;
            if (nobj < 1) nobj = 1;
            if (nobj > 3) nobj = 3;
        }
        bool big() const { return kind == OK_BIG || kind == OK_BIG_OSTREAM; }
        void touched(void* p, size_t n) { if (!big()) client_write(p, n); }
        size_t G() const { return size_t(64) * size_t(1 + obj[0]->nested); } // guarded distance on either side

        void setup() override
        {
            ups() = &up;
            if (big()) { Big::cur() = &bigState; Big::reset(); }
            up.exclusive = clients > 1 && nobj == 1; // separate allocators on one upstream need not exclude each other
            for (int i = 0; i < nobj; i++) obj[i] = make_ov(kind);
        }

        template<typename F> Outcome on(OvAny* o, F&& f)
        {
            int c = client() & 7;
            o->log.part[c].clear(); o->log.busy[c] = true;
            Outcome r = call(f);
            o->log.busy[c] = false; if (o->log.writer == c) o->log.writer = -1;
            return r;
        }
        void silent(OvAny* o, const char* what)
        {
            const std::string& t = o->log.part[client() & 7];
            if (!t.empty()) violate("false-report", "%s reports: %s (op %d)", what, oneline(t).c_str(), op_id());
        }
        static std::string oneline(std::string s) { for (char& c : s) if (c == '\n') c = '|'; return s; }

        void alloc(int oi, size_t n)
        {
            OvAny* o = obj[oi]; void* p = nullptr;
            Outcome r = on(o, [&] { p = o->allocate(n); });
            silent(o, "allocate()");
            note(1, n, reinterpret_cast<uintptr_t>(p));
            if (r != Outcome::ok) { if (r == Outcome::other) violate("exception", "allocate() ends with an unknown exception (op %d)", op_id()); probe("allocations_ended_by_exception"); return; }
            if (!p) { probe("allocations_refused"); return; }
            if (big() ? n > Big::ROOM : n > (size_t(1) << 30)) violate("impossible-grant", "allocate(%zu) succeeds (op %d)", n, op_id());
            char* q = static_cast<char*>(p);
            if (big() ? !Big::holds(q - G(), n + 2 * G()) : !in_arena(p) || !live_range(q - G(), n + 2 * G())) violate("no-room-for-guards", "the block %p (%zu bytes) has no %zu guard bytes of its own on either side (op %d)", p, n, G(), op_id());
            Block b{ p, n, oi, nextTag++, false, {}, {} };
            for (size_t i = 0; i < G(); i++) { b.lo.push_back(uint8_t(q[-1 - int64_t(i)])); b.hi.push_back(uint8_t(q[n + i])); }
            touched(p, n);
            o->bytes += int64_t(n); o->blocks++;
            slots[client()].push_back(std::move(b));
            probe("blocks_granted");
        }

        // what should be reported when this block is released
        std::vector<Report> expected(const Block& b)
        {
            std::vector<Report> v;
            for (int lvl = 0; lvl <= obj[b.obj]->nested; lvl++)
            {
                size_t off = size_t(lvl) * 64;
                Report r{ reinterpret_cast<uintptr_t>(b.p) - off, b.n + 2 * off, 0, 0 };
                const char* q = static_cast<const char*>(b.p);
                for (size_t i = 0; i < 64; i++)
                {
                    if (uint8_t(q[-1 - int64_t(off + i)]) != b.lo[off + i]) r.before = i + 1;
                    if (uint8_t(q[b.n + off + i]) != b.hi[off + i]) r.after = i + 1;
                }
                if (r.before || r.after) v.push_back(r);
            }
            std::sort(v.begin(), v.end());
            return v;
        }
        static size_t number_after(const std::string& s, const char* key, size_t from, size_t to)
        {
            size_t i = s.find(key, from);
            if (i == std::string::npos || i >= to) return 0;
            return size_t(strtoull(s.c_str() + i + strlen(key), nullptr, 10));
        }
        static std::vector<Report> parse(const std::string& t)
        {
            std::vector<Report> v;
            size_t i = 0;
            while ((i = t.find("CORRUPTION", i)) != std::string::npos)
            {
                size_t e = t.find("CORRUPTION", i + 1); if (e == std::string::npos) e = t.size();
                Report r{ 0, 0, 0, 0 };
                size_t x = t.find("0x", i);
                if (x < e) { char* end; r.p = strtoull(t.c_str() + x, &end, 16); size_t y = t.find("(", size_t(end - t.c_str())); if (y < e) r.n = size_t(strtoull(t.c_str() + y + 1, nullptr, 10)); }
                r.before = number_after(t, "Before (", i, e); r.after = number_after(t, "After (", i, e);
                v.push_back(r); i = e;
            }
            std::sort(v.begin(), v.end());
            return v;
        }
        static std::string show(const std::vector<Report>& v)
        {
            std::string s; char b[160];
            for (auto& r : v) { snprintf(b, sizeof b, "[%#lx %zu bytes, before %zu, after %zu]", (unsigned long)r.p, r.n, r.before, r.after); s += b; }
            return v.empty() ? "nothing" : s;
        }

        void free_block(size_t i, int through)
        {
            Block b = std::move(slots[client()][i]);
            slots[client()].erase(slots[client()].begin() + long(i));
            OvAny* o = obj[through];
            if (b.filled) { size_t bad; if (!payload_ok(b.p, b.n, b.tag, &bad)) violate("payload-changed", "byte %zu of an outstanding block changed (op %d)", bad, op_id()); }
            auto want = expected(b);
            size_t live = up.pool[0].live.size() + up.pool[1].live.size();
            bool single = clients == 1;
            for (;;)
            {
                touched(b.p, b.n);
                Outcome r = on(o, [&] { o->deallocate(b.p, b.n); });
                if (r == Outcome::ok) break;
                if (!op_fault_fired()) violate("exception", "deallocate() ends with an exception (op %d)", op_id());
                if (kind != OK_LOCKS || want.empty()) silent(o, "a deallocate() that could not take the lock");
                probe("deallocations_ended_by_exception");
            }
            obj[through]->bytes -= int64_t(b.n); obj[through]->blocks--;
            const std::string& t = o->log.part[client() & 7];
            auto got = parse(t);
            note(2, want.size(), got.size());
            if (want.empty() && !t.empty()) violate("false-report", "the intact block %p (%zu bytes) is reported: %s (op %d)", b.p, b.n, oneline(t).c_str(), op_id());
            if (!want.empty() && got.empty()) violate("missed-corruption", "%s was not reported; the stream got: %s (op %d)", show(want).c_str(), oneline(t).c_str(), op_id());
            for (const char* side : { "Before (", "After (" })
                for (size_t i = 0; (i = t.find(side, i)) != std::string::npos; i++)
                    if (number_after(t, side, i, t.size()) == 0) violate("wrong-report", "a side that was not touched is reported: %s (op %d)", oneline(t).c_str(), op_id());
            if (!(want == got)) violate("wrong-report", "expected %s, reported %s (op %d)", show(want).c_str(), show(got).c_str(), op_id());
            if (single && (kind == OK_UP || kind == OK_NESTED || kind == OK_SHARED || kind == OK_OSTREAM || kind == OK_UPCONS) && up.pool[0].live.size() + up.pool[1].live.size() + 1 != live)
                violate("not-returned", "releasing a block does not return it to the wrapped allocator (op %d)", op_id());
            if (single && kind == OK_MALLOC && live_range(static_cast<char*>(b.p) - 64, 1)) violate("not-returned", "releasing a block does not return it to the heap (op %d)", op_id());
            probe(want.empty() ? "intact_blocks_released" : "corrupted_blocks_released");
        }

        void exec(const Op& op) override
        {
            auto& v = slots[client()];
            int oi = int(op.c % nobj);
            auto at = [&](int64_t x) { return size_t(x) % v.size(); };
            switch (op.kind)
            {
            case V_ALLOC: if (v.size() < 6) { static const size_t room[] = { size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) - 1, (size_t(3) << 30) + 5, (size_t(5) << 30) + 7 }; alloc(oi, big() && op.b % 3 ? room[size_t(op.b / 3) % 5] + size_t(op.b & 1) * size_t(op.a) : size_t(op.a)); } break;
            case V_HUGE: { void* p = nullptr; size_t n = ~size_t(0) - size_t(op.a); OvAny* o = obj[oi]; Outcome r = on(o, [&] { p = o->allocate(n); }); silent(o, "allocate()"); if (r == Outcome::ok && p) violate("impossible-grant", "allocate(%zu) succeeds (op %d)", n, op_id()); probe("huge_requests"); break; }
            case V_FREE: if (!v.empty()) { size_t i = at(op.a); free_block(i, v[i].obj); } break;
            case V_CROSSFREE: if (!v.empty()) { size_t i = at(op.a); int through = obj[0]->cross ? oi : v[i].obj; if (through != v[i].obj) probe("released_through_an_equal_allocator"); free_block(i, through); } break;
            case V_FLIP: case V_SPILL:
                if (!v.empty())
                {
                    Block& b = v[at(op.a)];
                    size_t g = G(); size_t len = op.kind == V_SPILL ? 1 + size_t(op.c) % g : 1;
                    size_t pos = size_t(op.b) % (2 * g);
                    uint8_t val = uint8_t(op.c >> 8);
                    char* q = static_cast<char*>(b.p);
                    for (size_t k = 0; k < len; k++)
                    {
                        char* a = pos < g ? q - 1 - pos : q + b.n + (pos - g);
                        *a = char(op.kind == V_FLIP ? uint8_t(*a) ^ (val ? val : 1) : val);
                        if (pos == g - 1 || ++pos == 2 * g) break;
                    }
                    nontrivial();
                    probe("stray_writes");
                }
                break;
            case V_RESTORE:
                if (!v.empty()) { Block& b = v[at(op.a)]; char* q = static_cast<char*>(b.p); for (size_t i = 0; i < G(); i++) { q[-1 - int64_t(i)] = char(b.lo[i]); q[b.n + i] = char(b.hi[i]); } probe("guards_restored"); }
                break;
            case V_FILL: if (!v.empty() && !big()) { Block& b = v[at(op.a)]; if (op.b & 1) { memset(b.p, 0xA5, b.n); b.filled = false; } else { payload_fill(b.p, b.n, b.tag); b.filled = true; } } break;
            case V_CONS: case V_DEST: case V_CROSSDEST:
            {
                OvAny* o = obj[oi];
                int64_t before = o->upConstruct >= 0 ? up.pool[0].constructs : 0, beforeD = up.pool[0].destroys;
                if (op.kind == V_CONS)
                {
                    void* c; if (!spare[client()].empty()) { c = spare[client()].back(); spare[client()].pop_back(); } else c = obj_alloc(16);
                    memset(c, 0, 16); uint64_t val = uint64_t(op.b) * 77 + 1; int kind = int((op.c >> 4) % (CK_NUM + 3)); if (kind >= CK_NUM) kind = CK_DYING;
                    Outcome r = on(o, [&] { o->construct(kind, op.c & 4, c, val); });
                    if (o->upConstruct >= 0 && up.pool[0].constructs != before + 1) violate("not-delegated", "construct() does not reach the wrapped allocator's construct() exactly once (op %d)", op_id());
                    if (r != Outcome::ok && op_fault_fired()) { spare[client()].push_back(c); silent(o, "construct()"); probe("element_constructor_throws"); break; } // nothing was constructed
                    if (r != Outcome::ok) violate("unexpected-exception", "construct() throws (op %d)", op_id());
                    o->cons++;
                    bool good = false; with_cell(kind, [&](auto k) { using C = decltype(k); good = C::ok(static_cast<typename C::T*>(c), val); });
                    if (!good) violate("not-constructed", "construct() did not construct the object (op %d)", op_id());
                    cells[client()].push_back({ c, kind });
                }
                else
                {
                    if (cells[client()].empty()) break;
                    CellAt x = cells[client()].back(); cells[client()].pop_back(); void* c = x.p;
                    while (on(o, [&] { o->destroyAt(x.kind, op.c & 4, c); }) != Outcome::ok)
                        if (!op_fault_fired()) violate("unexpected-exception", "destroy() throws (op %d)", op_id()); else probe("destructions_ended_by_exception");
                    o->cons--;
                    if (x.kind == CK_DYING && static_cast<Dying*>(c)->a != 0xDEADDEADDEADDEADull) violate("not-destroyed", "destroy() did not destroy the object (op %d)", op_id());
                    if (o->upConstruct >= 0 && up.pool[0].destroys != beforeD + 1) violate("not-delegated", "destroy() does not reach the wrapped allocator's destroy() exactly once (op %d)", op_id());
                    spare[client()].push_back(c);
                }
                silent(o, "construct()/destroy()");
                probe("constructions_and_destructions");
                break;
            }
            case V_MOVE:
            {
                OvAny* o = obj[oi];
                if (!o->movable || clients > 1) break;
                on(o, [&] { o->moveAway(); });
                silent(o, "an allocator that was moved from"); // also when the source goes away
                probe("moved");
                break;
            }
            default: break;
            }
        }

        void quiesce() override { disarm(); }

        static std::vector<int64_t> numbers(const std::string& t, const char* key)
        {
            std::vector<int64_t> v; size_t i = 0;
            while ((i = t.find(key, i)) != std::string::npos) { i += strlen(key); v.push_back(strtoll(t.c_str() + i, nullptr, 10)); }
            std::sort(v.begin(), v.end());
            return v;
        }

        void teardown() override
        {
            // the clients return what they have, unless this run is about leaks
            int leak = int(plan.knob(K_LEAK));
            for (int c = 0; c < 8; c++)
            {
                std::vector<Block> keep;
                for (auto& b : slots[c]) slots[0].push_back(std::move(b));
                for (auto& x : cells[c]) if (c) cells[0].push_back(x);
                if (c) { slots[c].clear(); cells[c].clear(); }
            }
            if (leak == 0) while (!slots[0].empty()) { size_t i = slots[0].size() / 2; free_block(i, slots[0][i].obj); }
            if (leak == 0) while (!cells[0].empty())
            {
                // destroyed through the allocator whose account is open
                OvAny* o = obj[0]; for (int i = 0; i < nobj; i++) if (obj[i]->cons > 0) o = obj[i];
                CellAt x = cells[0].back(); cells[0].pop_back(); on(o, [&] { o->destroyAt(x.kind, cells[0].size() & 1, x.p); }); o->cons--; spare[0].push_back(x.p);
            }
            int64_t open = 0; for (int i = 0; i < nobj; i++) open += obj[i]->blocks;
            for (int i = 0; i < nobj; i++)
            {
                OvAny* o = obj[i];
                std::vector<int64_t> leaked, excess, cons, dest;
                for (int lvl = 0; lvl <= o->nested; lvl++)
                {
                    int64_t x = o->bytes + lvl * 128 * o->blocks;
                    if (x > 0) leaked.push_back(x);
                    if (x < 0) excess.push_back(-x);
                    if (o->cons > 0) cons.push_back(o->cons);
                    if (o->cons < 0) dest.push_back(-o->cons);
                }
                auto srt = [](std::vector<int64_t>& v) { std::sort(v.begin(), v.end()); };
                srt(leaked); srt(excess);
                on(o, [&] { o->kill(); });
                const std::string& t = o->log.part[client() & 7];
                auto cmp = [&](const char* key, const std::vector<int64_t>& want, const char* what)
                {
                    auto got = numbers(t, key);
                    if (got != want)
                        violate(want.empty() ? "false-report" : got.empty() ? "missed-leak" : "wrong-account", "%s: expected %s, reported %s; outstanding are %ld bytes and %ld constructions", what,
                            list(want).c_str(), list(got).c_str(), long(o->bytes), long(o->cons));
                };
                cmp("Allocated memory (", leaked, "leaked bytes"); cmp("Too many frees (", excess, "excess frees");
                cmp("Too many constructor calls (", cons, "surplus constructions"); cmp("Too many destructor calls (", dest, "surplus destructions");
                if (leaked.empty() && excess.empty() && cons.empty() && dest.empty() && !t.empty()) violate("false-report", "a balanced allocator reports at its destruction: %s", oneline(t).c_str());
                if (!leaked.empty() || !excess.empty()) probe("leaks_reported");
                if (!cons.empty() || !dest.empty()) probe("construction_surplus_reported");
                note(3, uint64_t(o->bytes), uint64_t(o->cons));
                delete o;
            }
            if (!open && big() && !Big::st().live.empty()) violate("leak", "everything was released but %zu blocks were never returned to the upstream allocator", Big::st().live.size());
            if (!open)
            {
                for (int k = 0; k < 6; k++) if (!up.pool[k].live.empty()) violate("leak", "everything was released but %zu blocks were never returned to upstream %d", up.pool[k].live.size(), k);
                if (live_blocks()) violate("leak", "everything was released but %zu heap blocks remain: %s", live_blocks(), describe_leaks().c_str());
            }
            for (int k = 0; k < 6; k++) for (auto& kv : up.pool[k].live) obj_free(reinterpret_cast<void*>(kv.first));
            for (auto& v : spare) for (auto* x : v) obj_free(x);
            for (auto& v : cells) for (auto& x : v) obj_free(x.p);
            ups() = nullptr;
        }
        static std::string list(const std::vector<int64_t>& v) { std::string s; for (auto x : v) s += (s.empty() ? "" : ", ") + std::to_string(x); return v.empty() ? "nothing" : s; }
    };

    static void gen_ov(Rng& r, Plan& p, bool c10)
    {
        p.knobs.resize(K_USER + 3, 0);
        bool mt = r.chance(35);
        int kind = mt ? int(r.range(OK_FIRST_MT, OK_NUM - 1)) : int(r.range(0, OK_FIRST_MT - 1));
        int clients = mt ? int(r.range(2, 3)) : 1;
        p.knobs[K_OKIND] = kind; p.knobs[K_CLIENTS] = clients;
        p.knobs[K_NOBJ] = r.chance(c10 ? 50 : 20) ? r.range(2, 3) : 1;
        p.knobs[K_LEAK] = c10 ? r.chance(65) : r.chance(10);
        //             alloc free flip rest spill fill cons dest xfree xdest huge move
        int w9[V_NUM] = { 26, 18, 14, 3, 8, 6, 1, 1, 3, 0, 2, 2 };
        int w10[V_NUM] = { 22, 14, 2, 1, 1, 1, 12, 9, 6, 4, 3, 4 };
        int w[V_NUM]; int total = 0;
        for (int i = 0; i < V_NUM; i++) { w[i] = c10 ? w10[i] : w9[i]; if (i > 1 && r.chance(25)) w[i] = 0; total += w[i]; }
        int n = mt ? int(r.range(3, 9)) * clients : int(r.range(4, 30));
        std::vector<size_t> sizes{ 0, 1, 2, 7, 8, 13, 15, 16, 17, 31, 32, 48, 63, 64, 65, 100, 128, 200, 255, 256, 272, 300, 384 };
        size_t fav = r.pick(sizes);
        for (int i = 0; i < n; i++)
        {
            Op o; o.id = i; o.client = mt ? int(r.range(1, clients)) : 1;
            int x = int(r.below(uint64_t(total))), k = 0; while (x >= w[k]) x -= w[k++];
            o.kind = k; o.a = int64_t(r.below(64)); o.b = int64_t(r.below(512)); o.c = int64_t(r.below(1 << 16));
            if (k == V_ALLOC) o.a = int64_t(r.chance(40) ? fav : r.chance(60) ? r.pick(sizes) : size_t(r.below(300)));
            if (k == V_HUGE) o.a = int64_t(r.chance(60) ? r.below(160) : r.below(1u << 20));
            if (k == V_SPILL && r.chance(50)) o.c = (o.c & 0xff) | (0xA5 << 8); // stray writes of the pattern itself
            if ((k == V_FLIP || k == V_SPILL) && r.chance(35)) { int64_t e[] = { 0, 63, 64, 127, 62, 1, 65, 126, 128, 191, 192, 255 }; o.b = e[r.below(12)]; }
            p.ops.push_back(o);
        }
        if (mt) gen_schedule(r, p, clients, 40);
        gen_faults(r, p, { F_STUB, F_HEAP }, 40, 3, 2);
        gen_faults(r, p, { F_THROW }, 10, 1, 1);
        for (auto& o : p.ops) if (o.kind == V_CONS && r.chance(8)) p.faults.push_back(Fault{ F_ELEM, o.id, 0, 1 });
        if (mt || kind == OK_LOCKS) gen_faults(r, p, { F_LOCKERR }, mt ? 15 : 60, mt ? 2 : 4, 1);
    }

    static Register regOv9({ "overflow_guards", "C09", 1, [](Rng& r, Plan& p) { gen_ov(r, p, false); }, [](const Plan& p) -> Scenario* { return new OverflowScen(p, false); } });
    static Register regOv10({ "overflow_accounts", "C10", 1, [](Rng& r, Plan& p) { gen_ov(r, p, true); }, [](const Plan& p) -> Scenario* { return new OverflowScen(p, true); } });
}
