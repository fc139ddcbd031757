// Deterministic simulation runtime: public interface used by the scenarios.
//
// Scenario translation units (which include the real KTL headers) are compiled with
// clang++ -fsanitize=thread, but linked against the runtime in rt.cpp instead of the TSan runtime:
// every load, store, atomic, fence, memcpy and lock operation performed by KTL code while the
// "SUT" flag is on becomes a call into rt.cpp, which is at once the scheduler's yield point, the
// simulated heap's address check and the race detector's event.
#pragma once

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace rt
{
    // ------------------------------------------------------------------ plans
    struct Op { int id = 0, client = 0, kind = 0; int64_t a = 0, b = 0, c = 0; };
    struct Pre { int op = 0, step = 0, pick = 0; };        // in op `op`, at its `step`-th yield point, switch
    struct Fault { int kind = 0, op = 0, n = 0, len = 1; }; // in op `op`, the n-th opportunity of this kind fails

    enum FaultKind { F_HEAP = 0, F_STUB, F_THROW, F_LOCKERR, F_STALL, F_CAS, F_FLIP, F_DROP, F_ELEM, F_NUM };
    extern const char* const kFaultNames[F_NUM];

    enum { OP_SETUP = -1, OP_END = -2 }; // pseudo op ids (setup; quiesce and teardown)

    enum Knob { K_PLACE = 0, K_FILL, K_RED, K_SKEW, K_QUOTA, K_CLIENTS, K_START, K_SPARE, K_USER };

    struct Plan
    {
        std::string scen;
        uint64_t seed = 0;
        std::vector<int64_t> knobs;
        std::vector<Op> ops;
        std::vector<Pre> pre;
        std::vector<Fault> faults;

        int64_t knob(size_t i) const { return i < knobs.size() ? knobs[i] : 0; }
        std::string text() const;
        bool parse(const std::string& text, std::string* expect = nullptr, std::string* expectHash = nullptr);
    };

    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo + 1))); }
        bool chance(int percent) { return below(100) < uint64_t(percent); }
        template<typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    };

    // ------------------------------------------------------------------ scenarios
    struct Scenario
    {
        virtual ~Scenario() {}
        virtual void setup() {}                 // single threaded, op id OP_SETUP
        virtual void exec(const Op& op) = 0;    // on the op's client
        virtual void quiesce() {}               // after all clients finished; faults may be disarmed here
        virtual void teardown() {}              // destroys everything; leak checks after it
    };

    struct ScenarioDef
    {
        std::string name;
        std::string property;
        int weight;
        std::function<void(Rng&, Plan&)> generate;
        std::function<Scenario* (const Plan&)> make;
    };

    std::vector<ScenarioDef>& registry();
    struct Register { Register(ScenarioDef d) { registry().push_back(std::move(d)); } };

    // helpers for generators
    void gen_schedule(Rng& r, Plan& p, int clients, int opsteps); // adds pre/stall entries over p.ops
    void gen_faults(Rng& r, Plan& p, const std::vector<int>& kinds, int percentRuns, int maxFaults, int maxN);

    // ------------------------------------------------------------------ during a run
    [[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void probe(const char* name, uint64_t add = 1);
    void note(uint64_t a, uint64_t b = 0, uint64_t c = 0); // adds to the run's event log hash
    void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // only printed with --trace
    bool tracing();
    void nontrivial();
    const Plan& plan();

    void enter_sut();
    void leave_sut(int prev);
    int sut_flag();
    struct Sut { int prev; Sut() : prev(sut_flag()) { enter_sut(); } ~Sut() { leave_sut(prev); } };
    void leave_sut_all();
    struct Harness { int prev; Harness() : prev(sut_flag()) { leave_sut(0); } ~Harness() { leave_sut(prev); } };

    void yield();            // explicit yield point (stubs, clients between steps)
    int client();            // 0 = main
    uint64_t now();          // next event sequence number
    uint64_t steps();
    void progressed();       // a call on the system under test came back (the livelock limit counts from here)
    int op_id();
    void op_mark(int id);    // sets the op id used to look up faults (quiesce/teardown)
    void abandon();          // current client stops after this op
    bool fault(int kind);    // does the plan make this opportunity fail?
    void disarm();           // no more faults in this run
    bool faults_fired();     // any fault fired so far in this run
    uint64_t fired(int kind);
    bool op_fault_fired();   // a fault fired while this client's current op was running (by this client)
    uint64_t heap_fail_count();
    void hb_release(int slot); // happens-before edges of the harness' own channels
    void hb_acquire(int slot);
    int held_locks();        // locks held by the current client

    // ------------------------------------------------------------------ simulated heap
    enum BlockKind : uint8_t { B_MALLOC, B_NEW, B_NEWARR, B_NEWALIGNED, B_OBJ };
    bool in_arena(const void* p);
    void malloc_align8(bool on);                    // from now on in this run malloc aligns to 8 bytes, not 16
    void big_blocks(size_t largest);                // from now on in this run the heap serves requests up to this size (otherwise 256 KB)
    void* obj_alloc(size_t n, size_t align = 16);   // memory for an allocator object/handle (harness owned)
    void obj_free(void* p);
    bool live_range(const void* p, size_t n);       // every byte belongs to live heap memory
    bool same_block(const void* p, const void* q);
    size_t block_size(const void* p);               // size of the live block containing p (0: none)
    const void* block_base(const void* p);
    uint8_t block_kind(const void* p);
    uint64_t block_seq(const void* p);              // event number at which the live block was obtained
    size_t live_blocks();                           // SUT blocks only (not B_OBJ)
    size_t live_bytes();
    size_t peak_bytes();
    uint64_t heap_requests();
    std::string describe_leaks();
    void client_write(void* p, size_t n);           // declares a client's access to memory it was granted
    void client_read(const void* p, size_t n);

    // fills/verifies granted memory with a pattern unique to `tag`
    void payload_fill(void* p, size_t n, uint64_t tag);
    bool payload_ok(const void* p, size_t n, uint64_t tag, size_t* badAt = nullptr);

    // runs f with the SUT flag on; returns false if it threw
    enum class Outcome { ok, bad_alloc, system_error, other };
    template<typename F> Outcome call(F&& f)
    {
        try { Sut s; f(); return Outcome::ok; }
        catch (const std::bad_alloc&) { return Outcome::bad_alloc; }
        catch (const std::runtime_error&) { return Outcome::system_error; }
        catch (...) { return Outcome::other; }
    }

    // object of a KTL type living on the simulated heap
    template<typename T> struct Obj
    {
        T* p = nullptr;
        Obj() = default;
        Obj(const Obj&) = delete;
        Obj(Obj&& o) noexcept : p(o.p) { o.p = nullptr; }
        Obj& operator=(Obj&& o) noexcept { std::swap(p, o.p); return *this; }
        template<typename... A> void make(A&&... a)
        {
            void* m = obj_alloc(sizeof(T), alignof(T));
            try { Sut s; p = ::new (m) T(std::forward<A>(a)...); }
            catch (...) { obj_free(m); throw; }
        }
        void destroy() { if (!p) return; T* q = p; p = nullptr; { Sut s; q->~T(); } obj_free(q); }
        T& operator*() const { return *p; }
        T* operator->() const { return p; }
        explicit operator bool() const { return p != nullptr; }
        ~Obj() {}
    };

    // ------------------------------------------------------------------ driver interface
    struct RunStats
    {
        uint64_t steps, switches, midop_switches, ops, fired[F_NUM], heapreq;
        uint64_t hash; bool nontrivial;
    };
    void init(const char* argv0);
    // Executes the plan in this process. Violations do not return: they fill the result block and _exit(3).
    RunStats execute(const Plan& plan, const ScenarioDef& def);
    struct Result { volatile int set; char cls[64]; char msg[1600]; uint64_t hash; uint64_t step; int op, client; };
    void set_result(Result* r);
    void set_trace(bool on);
    struct ProbeTable { int n; struct { char name[40]; uint64_t count; } e[160]; };
    void set_probes(ProbeTable* t);
    void watch(volatile uint64_t* progress); // progress counter observed by the CPU-time watchdog
}
