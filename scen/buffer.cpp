// C12: trivial_buffer against a plain array of optional values.
#include "containers.h"

#include <ktl/containers/trivial_buffer.h>

#include <array>
#include <optional>
#include <utility>

namespace sim
{
    namespace
    {
        enum { BO_DEFAULT = 0, BO_VALUE, BO_LIST, BO_PART, BO_RANGE, BO_COPY, BO_MOVE, BO_ASSIGN, BO_MASSIGN, BO_SELF, BO_INDEX, BO_AT, BO_ITER, BO_RITER, BO_DATA, BO_REASSIGN, BO_LISTASSIGN, BO_READ, BO_DESTROY, BO_NUM };

        template<typename T, size_t Size> struct BufferRun : Scenario
        {
            using B = trivial_buffer<T, Size>;
            using M = std::array<std::optional<T>, Size>; // no value: nothing was ever stored there
            static constexpr int SLOTS = 3;
            Obj<B> b[SLOTS]; M m[SLOTS]; bool live[SLOTS] = {}; int fresh = 0;

            explicit BufferRun(const Plan&) {}
            T next() { return Elem<T>::mk(++fresh); }

            struct Src // a range of exactly Size elements in memory of its own
            {
                T* p;
                Src(BufferRun& r, M& want) { p = static_cast<T*>(obj_alloc(sizeof(T) * Size, alignof(T) < 16 ? 16 : alignof(T))); for (size_t i = 0; i < Size; i++) { ::new (p + i) T(r.next()); want[i] = p[i]; } }
                ~Src() { obj_free(p); }
                const T* first() { return p; } const T* last() { return p + Size; }
            };
            template<size_t... I> void list(int s, std::index_sequence<I...>)
            {
                T v[] = { ((void)I, next())... };
                m[s] = M{}; ((m[s][I] = v[I]), ...);
                b[s].make(std::initializer_list<T>{ v[I]... });
            }
            template<size_t... I> void relist(int s, std::index_sequence<I...>)
            {
                T v[] = { ((void)I, next())... };
                m[s] = M{}; ((m[s][I] = v[I]), ...);
                Sut u; *b[s] = { v[I]... };
            }
            void drop(int s) { b[s].destroy(); live[s] = false; }

            void put(T& at, int s, size_t i, const char* what)
            {
                if (reinterpret_cast<uintptr_t>(&at) % alignof(T)) violate("misaligned", "element %zu of a trivial_buffer lies at %p, which is not aligned for it (%s, op %d)", i, (void*)&at, what, op_id());
                if (!live_range(&at, sizeof(T))) violate("wrong-element", "%s(%zu) of a buffer of %zu refers to memory outside it (op %d)", what, i, Size, op_id());
                T v = next();
                { Sut u; at = v; }
                m[s][i % Size] = v;
            }
            void see(const T& at, int s, size_t i, const char* what)
            {
                if (!live_range(&at, sizeof(T))) violate("wrong-element", "%s(%zu) of a buffer of %zu refers to memory outside it (op %d)", what, i, Size, op_id());
                if (m[s][i % Size] && !same(at, *m[s][i % Size])) violate("wrong-element", "%s(%zu) of a buffer of %zu is not the element stored there (op %d)", what, i, Size, op_id());
            }
            void check()
            {
                for (int s = 0; s < SLOTS; s++)
                {
                    if (!live[s]) continue;
                    B& x = *b[s]; const B& c = x;
                    size_t n; { Sut u; n = c.size(); }
                    if (n != Size) violate("wrong-size", "size() of a trivial_buffer of %zu is %zu (op %d)", Size, n, op_id());
                    const T *f, *l, *d, *cf, *cl, *cd;
                    { Sut u; f = x.begin(); l = x.end(); d = x.data(); cf = c.begin(); cl = c.end(); cd = c.data(); }
                    if (size_t(l - f) != Size || d != f || cf != f || cl != l || cd != f) violate("wrong-iteration", "begin, end and data of a trivial_buffer do not agree (op %d)", op_id());
                    for (size_t i = 0; i < Size; i++) see(f[i], s, i, "iteration");
                    for (size_t i = 0; i < 2 * Size + 1; i++)
                    {
                        const T *a1, *a2, *a3, *a4;
                        { Sut u; a1 = &x[i]; a2 = &c[i]; a3 = &x.at(i); a4 = &c.at(i); }
                        see(*a1, s, i, "operator[]"); see(*a2, s, i, "const operator[]"); see(*a3, s, i, "at"); see(*a4, s, i, "const at");
                    }
                    size_t k = Size;
                    { auto it = x.rbegin(); auto e = x.rend(); for (; k && it != e; ++it) see(*it, s, --k, "reverse iteration"); if (k || it != e) violate("wrong-iteration", "reverse iteration of a trivial_buffer does not visit %zu elements (op %d)", Size, op_id()); }
                    k = Size;
                    { auto it = c.rbegin(); auto e = c.rend(); for (; k && it != e; ++it) see(*it, s, --k, "const reverse iteration"); if (k || it != e) violate("wrong-iteration", "const reverse iteration of a trivial_buffer does not visit %zu elements (op %d)", Size, op_id()); }
                }
            }
            size_t index(const Op& op) const
            {
                switch (op.b % 6) { case 0: return Size - 1; case 1: return Size; case 2: return SIZE_MAX - size_t(op.c); case 3: return (size_t(1) << 32) + size_t(op.c); default: return size_t(op.c) % (3 * Size); }
            }

            void exec(const Op& op) override
            {
                int s = int(op.a % SLOTS), o = int((op.a / SLOTS) % SLOTS), kind = op.kind;
                if (kind > BO_RANGE && !live[s] && kind != BO_COPY && kind != BO_MOVE) return;
                if ((kind == BO_COPY || kind == BO_MOVE || kind == BO_ASSIGN || kind == BO_MASSIGN) && (!live[o] || o == s)) return;
                if (kind <= BO_MOVE && live[s]) drop(s);
                M want{};
                switch (kind)
                {
                case BO_DEFAULT: b[s].make(); m[s] = M{}; break;
                case BO_VALUE: { T v = next(); b[s].make(v); for (auto& e : m[s]) e = v; break; }
                case BO_LIST: list(s, std::make_index_sequence<Size>()); break;
                case BO_PART: list(s, std::make_index_sequence<(Size + 1) / 2>()); break;
                case BO_RANGE: { Src r(*this, want); b[s].make(r.first(), r.last()); m[s] = want; break; }
                case BO_COPY: b[s].make(static_cast<const B&>(*b[o])); m[s] = m[o]; break;
                case BO_MOVE: b[s].make(std::move(*b[o])); m[s] = m[o]; m[o] = M{}; break;
                case BO_ASSIGN: { Sut u; *b[s] = static_cast<const B&>(*b[o]); } m[s] = m[o]; break;
                case BO_MASSIGN: { Sut u; *b[s] = std::move(*b[o]); } m[s] = m[o]; m[o] = M{}; break;
                case BO_SELF: { Sut u; const B& x = *b[s]; *b[s] = x; } break;
                case BO_INDEX: { size_t i = index(op); T* at; { Sut u; at = &(*b[s])[i]; } put(*at, s, i, "operator[]"); break; }
                case BO_AT: { size_t i = index(op); T* at; { Sut u; at = &b[s]->at(i); } put(*at, s, i, "at"); break; }
                case BO_ITER: { size_t i = 0; auto it = b[s]->begin(); for (; i < Size && it != b[s]->end(); ++it, ++i) if (op.c % 3 || i == size_t(op.c) % Size) put(*it, s, i, "iteration"); break; }
                case BO_RITER: { size_t i = Size; auto it = b[s]->rbegin(); for (; i && it != b[s]->rend(); ++it) { --i; put(*it, s, i, "reverse iteration"); } break; }
                case BO_DATA: { size_t i = size_t(op.c) % Size; put(b[s]->data()[i], s, i, "data"); break; }
                case BO_REASSIGN: { Src r(*this, want); { Sut u; b[s]->assign(r.first(), r.last()); } m[s] = want; break; }
                case BO_LISTASSIGN: relist(s, std::make_index_sequence<Size>()); break;
                case BO_READ:
                {
                    size_t i = index(op); B& x = *b[s]; const B& c = x; const T *a1, *a2, *a3, *a4;
                    { Sut u; a1 = &x[i]; a2 = &c[i]; a3 = &x.at(i); a4 = &c.at(i); }
                    see(*a1, s, i, "operator[]"); see(*a2, s, i, "const operator[]"); see(*a3, s, i, "at"); see(*a4, s, i, "const at");
                    break;
                }
                default: drop(s); check(); nontrivial(); return;
                }
                live[s] = true;
                check();
                note(uint64_t(kind), uint64_t(s)); nontrivial();
            }
            void quiesce() override { check(); }
            void teardown() override
            {
                for (int s = 0; s < SLOTS; s++) if (live[s]) drop(s);
                if (live_blocks()) violate("leak", "trivial_buffers are gone, but %zu heap blocks remain: %s", live_blocks(), describe_leaks().c_str());
            }
        };

        Scenario* make_buffer(const Plan& p)
        {
            switch (p.knob(K_USER) % 9)
            {
            case 0: return new BufferRun<uint8_t, 1>(p);
            case 1: return new BufferRun<uint8_t, 7>(p);
            case 2: return new BufferRun<int, 1>(p);
            case 3: return new BufferRun<int, 5>(p);
            case 4: return new BufferRun<double, 4>(p);
            case 5: return new BufferRun<double, 33>(p);
            case 6: return new BufferRun<P12, 3>(p);
            case 7: return new BufferRun<P40, 8>(p);
            default: return new BufferRun<P32, 6>(p);
            }
        }
        void gen_buffer(Rng& r, Plan& p)
        {
            p.knobs.resize(K_USER + 1, 0); p.knobs[K_USER] = int64_t(r.below(9)); p.knobs[K_CLIENTS] = 1;
            int n = int(r.range(2, 16));
            for (int i = 0; i < n; i++)
            {
                Op o; o.id = i; o.client = 1; o.kind = i == 0 || r.chance(25) ? int(r.below(BO_MOVE + 1)) : int(r.below(BO_NUM));
                o.a = int64_t(r.below(9)); o.b = int64_t(r.below(12)); o.c = int64_t(r.below(256));
                p.ops.push_back(o);
            }
        }
        Register regBuf({ "buffers", "C12", 1, gen_buffer, make_buffer });
    }
}
