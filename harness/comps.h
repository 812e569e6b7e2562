// component types whose life is tracked, shared by the harnesses
#pragma once
#include <co_ecs/co_ecs.hpp>

#include "../sim/dsim.h"

#include <cstring>
#include <unordered_map>

namespace hc {

// ---- object life tracking -----------------------------------------------------------------------------------
inline std::unordered_map<const void*, int>* live_map = nullptr;
inline bool track_life = false; // report lifetime errors
inline bool track_align = false;

inline std::unordered_map<const void*, int>& live() {
    if (!live_map) live_map = new std::unordered_map<const void*, int>();
    return *live_map;
}
inline void born(const void* p, int type, size_t align) {
    sim::Quiet q;
    if (track_align && ((uintptr_t)p & (align - 1)))
        sim::fail("oracle:misaligned", "component type %d constructed at an address not aligned to %zu", type, align);
    if (!track_life) return;
    auto [it, ok] = live().emplace(p, type);
    if (!ok) sim::fail("oracle:constructed-twice", "component of type %d constructed where a component of type %d lives", type, it->second);
}
inline void dead(const void* p, int type) {
    if (!track_life) return;
    sim::Quiet q;
    auto it = live().find(p);
    if (it == live().end()) sim::fail("oracle:destroyed-twice", "destructor of component type %d runs on something that is not a live component", type);
    if (it->second != type) sim::fail("oracle:wrong-type", "destructor of component type %d runs on a component of type %d", type, it->second);
    live().erase(it);
}
inline void used(const void* p, int type, const char* how) {
    if (!track_life) return;
    sim::Quiet q;
    auto it = live().find(p);
    if (it == live().end()) sim::fail("oracle:used-outside-life", "%s a component of type %d that does not exist (not constructed or destroyed)", how, type);
    if (it->second != type) sim::fail("oracle:wrong-type", "%s component type %d but a component of type %d is there", how, type, it->second);
}
inline void all_destroyed(const char* where) {
    sim::Quiet q;
    if (!live().empty()) sim::fail("oracle:never-destroyed", "%zu component objects were never destroyed (%s), one of type %d", live().size(), where, live().begin()->second);
}

// ---- component types ----------------------------------------------------------------------------------------
enum : int { COPY = 1, COPY_THROWS = 2, CTOR_THROWS = 4, HEAP = 8, ALL = 15 };
constexpr int64_t MOVED = -77;

template<int Id, size_t Fill, size_t Align, int Flags>
struct alignas(Align) Comp {
    static constexpr int id = Id;
    static constexpr bool copyable = (Flags & COPY) != 0;
    int64_t v;
    int64_t* heap = nullptr;
    unsigned char fill[Fill];

    void init(int64_t x) {
        if constexpr ((Flags & HEAP) != 0) heap = new int64_t(x); // may throw
        v = x;
        std::memset(fill, (int)(x & 0xff), Fill);
        born(this, Id, Align);
    }
    explicit Comp(int64_t x = 0) {
        if constexpr ((Flags & CTOR_THROWS) != 0)
            if (sim::inject(sim::K_THROW)) throw std::runtime_error("injected: component constructor");
        init(x);
    }
    Comp(const Comp& o)
        requires((Flags & COPY) != 0)
    {
        used(&o, Id, "copying from");
        if constexpr ((Flags & COPY_THROWS) != 0)
            if (sim::inject(sim::K_THROW)) throw std::runtime_error("injected: component copy");
        init(o.v);
    }
    Comp(Comp&& o) noexcept {
        used(&o, Id, "moving from");
        v = o.v;
        heap = o.heap;
        std::memcpy(fill, o.fill, Fill);
        o.heap = nullptr;
        o.v = MOVED;
        born(this, Id, Align);
    }
    Comp& operator=(Comp&& o) noexcept {
        used(&o, Id, "moving from");
        used(this, Id, "assigning to");
        if (this != &o) {
            delete heap;
            v = o.v;
            heap = o.heap;
            std::memcpy(fill, o.fill, Fill);
            o.heap = nullptr;
            o.v = MOVED;
        }
        return *this;
    }
    Comp& operator=(const Comp& o)
        requires((Flags & COPY) != 0)
    {
        Comp t(o);
        return *this = std::move(t);
    }
    ~Comp() {
        dead(this, Id);
        delete heap;
        heap = nullptr;
        v = -99;
    }
    // value, or something else if the object is not intact
    int64_t value() const {
        used(this, Id, "reading");
        if constexpr ((Flags & HEAP) != 0)
            if (!heap || *heap != v) return -1000;
        for (size_t i = 0; i < Fill; i += Fill > 64 ? 61 : 1)
            if (fill[i] != (unsigned char)(v & 0xff)) return -2000;
        if (fill[Fill - 1] != (unsigned char)(v & 0xff)) return -2000;
        return v;
    }
    void assign(int64_t x) {
        used(this, Id, "writing");
        v = x;
        if constexpr ((Flags & HEAP) != 0) *heap = x;
        std::memset(fill, (int)(x & 0xff), Fill);
    }
};
// one byte, no alignment
struct Byte {
    static constexpr int id = 3;
    static constexpr bool copyable = true;
    unsigned char v;
    explicit Byte(int64_t x = 0) : v((unsigned char)x) { born(this, 3, 1); }
    Byte(const Byte& o) : v(o.v) { used(&o, 3, "copying from"); born(this, 3, 1); }
    Byte(Byte&& o) noexcept : v(o.v) { used(&o, 3, "moving from"); born(this, 3, 1); }
    Byte& operator=(const Byte& o) { used(&o, 3, "copying from"); used(this, 3, "assigning to"); v = o.v; return *this; }
    Byte& operator=(Byte&& o) noexcept { used(&o, 3, "moving from"); used(this, 3, "assigning to"); v = o.v; return *this; }
    ~Byte() { dead(this, 3); }
    int64_t value() const { used(this, 3, "reading"); return v; }
    void assign(int64_t x) { used(this, 3, "writing"); v = (unsigned char)x; }
};
// empty types
template<int Id>
struct Tag {
    static constexpr int id = Id;
    static constexpr bool copyable = true;
    explicit Tag(int64_t = 0) { born(this, Id, 1); }
    Tag(const Tag& o) { used(&o, Id, "copying from"); born(this, Id, 1); }
    Tag(Tag&& o) noexcept { used(&o, Id, "moving from"); born(this, Id, 1); }
    Tag& operator=(const Tag& o) { used(&o, Id, "copying from"); used(this, Id, "assigning to"); return *this; }
    Tag& operator=(Tag&& o) noexcept { used(&o, Id, "moving from"); used(this, Id, "assigning to"); return *this; }
    ~Tag() { dead(this, Id); }
    int64_t value() const { used(this, Id, "reading"); return 0; }
    void assign(int64_t) { used(this, Id, "writing"); }
};
// only there to use up component ids, so that sets of components need more than one 64-bit block
template<int N>
struct Pad {
    char c;
};
template<int... N>
inline uint64_t use_ids(std::integer_sequence<int, N...>) {
    return (0 + ... + co_ecs::component_id::value<Pad<N>>);
}
inline uint64_t pad_ids = use_ids(std::make_integer_sequence<int, 62>());

using A = Comp<0, 8, 8, COPY | CTOR_THROWS>;
using B = Comp<1, 4, 8, ALL>;
using D32 = Comp<2, 3, 32, COPY>;
using Tg = Tag<4>;
using G = Comp<5, 1000, 8, COPY | CTOR_THROWS>;
using H = Comp<6, 5000, 8, ALL>;
using Mo = Comp<7, 8, 8, CTOR_THROWS | HEAP>; // move only
using J = Comp<8, 8, 8, ALL>;
using K = Comp<9, 9000, 8, COPY>;
using L = Comp<10, 9000, 8, COPY | COPY_THROWS>;
struct S3 : Byte { // three bytes
    static constexpr int id = 11;
    unsigned char pad[2];
    using Byte::Byte;
};
using W16 = Comp<12, 16, 16, COPY | CTOR_THROWS | COPY_THROWS>;
using Tg2 = Tag<13>;
using Tg3 = Tag<14>;
using D128 = Comp<15, 70, 128, ALL>;
constexpr int NT = 16;
static_assert(co_ecs::component<A> && co_ecs::component<Mo> && co_ecs::component<S3> && co_ecs::component<D128>);

template<typename F>
decltype(auto) with_type(int t, F&& f) {
    switch (t) {
    case 0: return f.template operator()<A>();
    case 1: return f.template operator()<B>();
    case 2: return f.template operator()<D32>();
    case 3: return f.template operator()<Byte>();
    case 4: return f.template operator()<Tg>();
    case 5: return f.template operator()<G>();
    case 6: return f.template operator()<H>();
    case 7: return f.template operator()<Mo>();
    case 8: return f.template operator()<J>();
    case 9: return f.template operator()<K>();
    case 10: return f.template operator()<L>();
    case 11: return f.template operator()<S3>();
    case 12: return f.template operator()<W16>();
    case 13: return f.template operator()<Tg2>();
    case 14: return f.template operator()<Tg3>();
    default: return f.template operator()<D128>();
    }
}
inline bool is_tag(int t) { return t == 4 || t == 13 || t == 14; }
inline int64_t norm(int t, int64_t v) { return is_tag(t) ? 0 : t == 3 || t == 11 ? (v & 0xff) : v; }
inline bool can_copy(uint32_t mask) { return !(mask & (1u << 7)); }
inline bool fits(uint32_t mask) { return (mask & (1u << 9 | 1u << 10)) != (1u << 9 | 1u << 10); }
inline const char* type_label(int t) {
    static const char* n[] = { "A", "B(heap)", "D32", "Byte", "Tag", "G(1000B)", "H(5000B)", "MoveOnly", "J(copy throws)", "K(9000B)", "L(9000B)", "S3", "W16", "Tag2", "Tag3", "D128" };
    return n[t % NT];
}

} // namespace hc
