// Type-directed generators, canonical forms and reference (de)serialization for every supported type.
// Everything dispatches on the C++ type alone and is independent of the traits and functions of the code under test.
#ifndef OPS_H
#define OPS_H
#include "model.h"
#include "pbt.h"

#include <algorithm>
#include <any>
#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

namespace ops {
using model::BinIn;
using model::BinOut;
using model::JV;
using pbt::Tape;

// --- description of classes (specialized by the generated universe) ---------------------------------------------------
/// each(f) calls f(recordName, memberName, &Type::member) for all (incl. inherited) members in the order of (de)serialization.
template <class T> struct StructInfo {
    static constexpr bool is = false;
};
/// What a root type is supposed to support.
template <bool J, bool P, bool B> struct Caps {
    static constexpr bool json = J, pull = P, bin = B, hasConst = false, serOnly = !P, crtp = false;
};
/// Custom containers treated as one of the standard ones.
template <class T> struct CustomKind {
    static constexpr int kind = 0;
};
enum { CSet = 1, CMSet, CMap, CMMap, CSeq };

enum class Cat { None, Bool, Int, Flt, Enum, Str, View, CStr, Seq, Set, Map, MMap, Pair, Tuple, Uniq, Shared, Opt, Variant, Mono, Struct, Fixed, Custom };
/// Types with custom (de)serialization (see custom_types.h).
template <class T> struct CustomOps {
    static constexpr bool is = false;
};
template <class T, class = void> struct CatOf {
    static constexpr Cat v = std::is_same_v<T, bool> ? Cat::Bool
        : std::is_integral_v<T>                      ? Cat::Int
        : std::is_floating_point_v<T>                ? Cat::Flt
        : std::is_enum_v<T>                          ? Cat::Enum
        : StructInfo<T>::is                          ? Cat::Struct
        : CustomOps<T>::is                           ? Cat::Custom
        : CustomKind<T>::kind == CSet || CustomKind<T>::kind == CMSet ? Cat::Set
        : CustomKind<T>::kind == CMap                ? Cat::Map
        : CustomKind<T>::kind == CMMap               ? Cat::MMap
        : CustomKind<T>::kind == CSeq                ? Cat::Seq
                                                     : Cat::None;
};
template <> struct CatOf<std::string> { static constexpr Cat v = Cat::Str; };
template <> struct CatOf<std::string_view> { static constexpr Cat v = Cat::View; };
template <> struct CatOf<const char *> { static constexpr Cat v = Cat::CStr; };
template <> struct CatOf<std::monostate> { static constexpr Cat v = Cat::Mono; };
template <class E> struct CatOf<std::vector<E>> { static constexpr Cat v = Cat::Seq; };
template <class E> struct CatOf<std::list<E>> { static constexpr Cat v = Cat::Seq; };
template <class E> struct CatOf<std::deque<E>> { static constexpr Cat v = Cat::Seq; };
template <class E, std::size_t N> struct CatOf<std::array<E, N>> { static constexpr Cat v = Cat::Fixed; }; // serialization-only
template <class E> struct CatOf<std::forward_list<E>> { static constexpr Cat v = Cat::Fixed; }; // serialization-only
template <class E> struct CatOf<std::set<E>> { static constexpr Cat v = Cat::Set; };
template <class E> struct CatOf<std::multiset<E>> { static constexpr Cat v = Cat::Set; };
template <class E> struct CatOf<std::unordered_set<E>> { static constexpr Cat v = Cat::Set; };
template <class E> struct CatOf<std::unordered_multiset<E>> { static constexpr Cat v = Cat::Set; };
template <class Ky, class E> struct CatOf<std::map<Ky, E>> { static constexpr Cat v = Cat::Map; };
template <class Ky, class E> struct CatOf<std::unordered_map<Ky, E>> { static constexpr Cat v = Cat::Map; };
template <class Ky, class E> struct CatOf<std::multimap<Ky, E>> { static constexpr Cat v = Cat::MMap; };
template <class Ky, class E> struct CatOf<std::unordered_multimap<Ky, E>> { static constexpr Cat v = Cat::MMap; };
template <class A, class B> struct CatOf<std::pair<A, B>> { static constexpr Cat v = Cat::Pair; };
template <class... A> struct CatOf<std::tuple<A...>> { static constexpr Cat v = Cat::Tuple; };
template <class E> struct CatOf<std::unique_ptr<E>> { static constexpr Cat v = Cat::Uniq; };
template <class E> struct CatOf<std::shared_ptr<E>> { static constexpr Cat v = Cat::Shared; };
template <class E> struct CatOf<std::optional<E>> { static constexpr Cat v = Cat::Opt; };
template <class... A> struct CatOf<std::variant<A...>> { static constexpr Cat v = Cat::Variant; };
template <class T> constexpr Cat cat = CatOf<std::remove_cv_t<T>>::v;

template <class T> struct IsUnordered : std::false_type {};
template <class E> struct IsUnordered<std::unordered_set<E>> : std::true_type {};
template <class E> struct IsUnordered<std::unordered_multiset<E>> : std::true_type {};
template <class Ky, class E> struct IsUnordered<std::unordered_map<Ky, E>> : std::true_type {};
template <class Ky, class E> struct IsUnordered<std::unordered_multimap<Ky, E>> : std::true_type {};
template <class T> struct IsUniqueSet : std::bool_constant<CustomKind<T>::kind == CSet> {};
template <class E> struct IsUniqueSet<std::set<E>> : std::true_type {};
template <class E> struct IsUniqueSet<std::unordered_set<E>> : std::true_type {};
template <class T> struct IsStdArray : std::false_type {};
template <class E, std::size_t N> struct IsStdArray<std::array<E, N>> : std::true_type {};
template <class T> struct IsVector : std::false_type {};
template <class E> struct IsVector<std::vector<E>> : std::true_type {};

/// Whether a type consists of a single number/bool/enum/string: collections of them may be large.
template <class T> constexpr bool isLeaf
    = cat<T> == Cat::Bool || cat<T> == Cat::Int || cat<T> == Cat::Flt || cat<T> == Cat::Enum || cat<T> == Cat::Str;

template <class MP> struct MemberOf;
template <class C, class M> struct MemberOf<M C::*> {
    using Class = C;
    using Type = M;
};

// --- generators ---------------------------------------------------------------------------------------------------------
struct GenCfg {
    bool nonFinite = false; // also generate NaN and infinity
    bool exact = false; // only generate doubles RapidJSON parses exactly (see known findings) ...
    bool (*restorable)(double) = nullptr; // ... according to this
    bool sharing = false; // let shared pointers refer to the same object
    int elements = 0; // remaining budget of container elements for the current case
    bool keepViews = false; // whether views of values generated before are still in use
    std::map<std::type_index, std::vector<std::shared_ptr<void>>> pool; // objects which may be shared
    std::deque<std::string> viewStorage; // backs generated string views and C-strings
    std::size_t bulk = 0; // size of a single big collection (or string) which is still to be generated
    void reset(int elementBudget) { elements = elementBudget; bulk = 0; pool.clear(); if (!keepViews) viewStorage.clear(); }
    /// Rarely lets one of the collections of leafs or strings be big (around the limits of size prefixes).
    void planBulk(Tape &t)
    {
        if (!t.chance(1, 1200)) return;
        static const std::size_t sizes[] = { 126, 16382, 65534, 70000, 131070, 2097150 };
        bulk = sizes[t.pick({ 2, 30, 30, 10, 6, 4 })] + t.below(4);
    }
    std::size_t takeBulk(Tape &t, std::size_t limit)
    {
        if (!bulk || bulk > limit || t.chance(1, 3)) return 0;
        const auto n = bulk;
        bulk = 0;
        return n;
    }
};
inline GenCfg &cfg() { static thread_local GenCfg c; return c; }

inline void appendCodePoint(std::string &s, unsigned c)
{
    if (c < 0x80) s += static_cast<char>(c);
    else if (c < 0x800) { s += static_cast<char>(0xC0 | (c >> 6)); s += static_cast<char>(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += static_cast<char>(0xE0 | (c >> 12)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
    else { s += static_cast<char>(0xF0 | (c >> 18)); s += static_cast<char>(0x80 | ((c >> 12) & 63)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
}
inline std::string genString(Tape &t, bool key = false, bool allowNul = true)
{
    std::size_t len = 0;
    switch (t.pick({ 30, 40, key ? 15u : 25u, key ? 1u : 3u })) {
    case 0: len = t.below(4); break;
    case 1: len = 1 + t.below(12); break;
    case 2: len = 8 + t.below(28); break; // around the small-string boundaries (13, 15, 21, 22 bytes) of the libraries involved
    case 3: len = 120 + t.below(16); break; // around the boundary of a one-byte length prefix
    }
    if (!key && cfg().elements > 200 && t.chance(1, 400)) len = 16380 + t.below(8);
    if (!key && cfg().bulk) { if (const auto n = cfg().takeBulk(t, 1u << 22)) len = n; }
    std::string s;
    const auto mode = t.pick({ 50, 25, 25 });
    const auto base = t.below(26);
    for (std::size_t n = 0; n < len; ++n) {
        if (len > 64) { s += static_cast<char>('a' + (base + n) % 26); continue; }
        switch (mode) {
        case 0: s += static_cast<char>('a' + t.below(26)); break;
        case 1: {
            static const char special[] = { 'x', '"', '\\', '/', '\n', '\t', '\r', '\b', '\f', 0x01, 0x1f, 0x7f, '{', '[', ',', ':', '\0', ' ', '.', 'u' };
            const char c = special[t.below(sizeof special)];
            s += c || allowNul ? c : ' ';
            break;
        }
        default: {
            static const unsigned cps[] = { 'z', 0x80, 0xe4, 0xff, 0x7ff, 0x800, 0x20ac, 0x2028, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff };
            appendCodePoint(s, cps[t.below(sizeof cps / sizeof *cps)]);
        }
        }
    }
    return s;
}
template <class I> I genInt(Tape &t)
{
    using L = std::numeric_limits<I>;
    switch (t.pick({ 40, 25, 20, 15 })) {
    case 0: return static_cast<I>(t.below(10));
    case 1: { // around powers of two
        const auto bit = t.below(static_cast<std::uint64_t>(L::digits) + (std::is_signed_v<I> ? 1 : 1));
        const std::uint64_t p = bit >= 64 ? 0 : (1ull << bit);
        std::uint64_t v = p + t.below(3) - 1;
        if (std::is_signed_v<I> && t.below(2)) v = ~v + 1;
        return static_cast<I>(v);
    }
    case 2: { // extremes
        static const I e[] = { L::max(), L::min(), static_cast<I>(L::max() - 1), static_cast<I>(L::min() + 1), static_cast<I>(-1) };
        return e[t.below(5)];
    }
    default: return static_cast<I>(t.below(0));
    }
}
template <class F> F genFloat(Tape &t)
{
    using L = std::numeric_limits<F>;
    if constexpr (sizeof(F) > 4) {
        if (cfg().exact) { // fall back to a simpler number if the JSON library itself is not able to restore it
            auto &exact = cfg().exact;
            auto f = (exact = false, genFloat<F>(t));
            exact = true;
            return !cfg().restorable || cfg().restorable(f) ? f : std::abs(f) < 1e15 ? std::trunc(f) : static_cast<F>(0.5);
        }
    }
    switch (t.pick({ 30, 25, 20, 25, cfg().nonFinite ? 10u : 0u })) {
    case 0: return static_cast<F>(t.range(0, 20));
    case 1: { // decimals
        static const double pow10[] = { 1, 10, 100, 1000, 1e6, 1e9, 1e15, 1e-3 };
        const double v = static_cast<double>(t.range(0, 99999999)) / pow10[t.below(8)];
        return static_cast<F>(t.below(2) ? -v : v);
    }
    case 2: {
        static const F e[] = { static_cast<F>(-0.0), L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon(), static_cast<F>(1) / 3, static_cast<F>(9007199254740993.0), static_cast<F>(1e22), static_cast<F>(1e23), static_cast<F>(5e-324), static_cast<F>(-1.0), static_cast<F>(16777217.0), static_cast<F>(1.7976931348623157e30), static_cast<F>(4294967296.0), static_cast<F>(9223372036854775808.0), static_cast<F>(0.1) };
        return e[t.below(sizeof e / sizeof *e)];
    }
    case 3: { // random bits
        for (int tries = 0; tries < 4; ++tries) {
            F f;
            const auto bits = t.below(0);
            if constexpr (sizeof(F) == 4) { const auto b = static_cast<std::uint32_t>(bits); std::memcpy(&f, &b, 4); }
            else std::memcpy(&f, &bits, 8);
            if (std::isfinite(f)) return f;
        }
        return 0;
    }
    default: {
        static const F e[] = { L::infinity(), -L::infinity(), L::quiet_NaN() };
        return e[t.below(3)];
    }
    }
}
template <class T> std::size_t genSize(Tape &t)
{
    auto &c = cfg();
    std::size_t n = 0;
    switch (t.pick({ 60, 25, isLeaf<T> ? 12u : 3u, isLeaf<T> ? 2u : 0u })) {
    case 0: n = t.below(3); break;
    case 1: n = 2 + t.below(4); break;
    case 2: n = 5 + t.below(12); break;
    case 3: n = 126 + t.below(5); break;
    }
    n = std::min<std::size_t>(n, c.elements > 0 ? static_cast<std::size_t>(c.elements) : 0);
    c.elements -= static_cast<int>(n);
    return n;
}

/// Values which differ for different \a i (as far as possible).
template <class T> T nthLeaf(std::size_t i)
{
    if constexpr (cat<T> == Cat::Str) return "element " + std::to_string(i);
    else return static_cast<T>(i);
}
/// Generates a big collection if one is due.
template <class T> bool genBulk(Tape &t, T &v)
{
    using E = typename T::value_type;
    if constexpr (isLeaf<E>) {
        if (!cfg().bulk) return false;
        const auto n = cfg().takeBulk(t, 1u << 17);
        if (!n) return false;
        const auto step = 1 + t.below(5);
        for (std::size_t i = 0; i < n; ++i) v.insert(v.end(), nthLeaf<E>(i * step));
        return true;
    } else
        return false;
}
struct NoNan { // sets of and maps with keys being NaN are meaningless
    bool previous = cfg().nonFinite;
    NoNan() { cfg().nonFinite = false; }
    ~NoNan() { cfg().nonFinite = previous; }
};
template <class T> T gen(Tape &t);
template <class T> void genInto(Tape &t, T &out)
{
    // assigns where possible; classes with constant members are filled member-wise
    if constexpr (cat<T> == Cat::Struct) {
        StructInfo<T>::each([&](const char *, const char *, auto mp) {
            using M = typename MemberOf<decltype(mp)>::Type;
            if constexpr (!std::is_const_v<M>) genInto(t, out.*mp);
        });
    } else {
        out = gen<T>(t);
    }
}
template <class V, std::size_t... I> V genVariant(Tape &t, std::index_sequence<I...>)
{
    V v;
    const auto idx = t.below(sizeof...(I));
    (void)((idx == I ? (v.template emplace<I>(gen<std::variant_alternative_t<I, V>>(t)), true) : false) || ...);
    return v;
}
template <class T> T gen(Tape &t)
{
    constexpr Cat c = cat<T>;
    if constexpr (c == Cat::Bool) return t.below(2) != 0;
    else if constexpr (c == Cat::Int) return genInt<T>(t);
    else if constexpr (c == Cat::Flt) return genFloat<T>(t);
    else if constexpr (c == Cat::Enum) return static_cast<T>(t.below(3) ? static_cast<std::underlying_type_t<T>>(t.below(4)) : genInt<std::underlying_type_t<T>>(t));
    else if constexpr (c == Cat::Str) return genString(t);
    else if constexpr (c == Cat::View) {
        if (t.chance(1, 6)) return std::string_view();
        cfg().viewStorage.push_back(genString(t));
        return cfg().viewStorage.back();
    } else if constexpr (c == Cat::CStr) {
        if (t.chance(1, 6)) return nullptr;
        cfg().viewStorage.push_back(genString(t, false, false));
        return cfg().viewStorage.back().c_str();
    } else if constexpr (c == Cat::Mono) return T();
    else if constexpr (c == Cat::Custom) return CustomOps<T>::gen(t);
    else if constexpr (c == Cat::Seq) {
        T v;
        if (genBulk(t, v)) return v;
        const auto n = genSize<typename T::value_type>(t);
        for (std::size_t i = 0; i < n; ++i) v.emplace_back(gen<typename T::value_type>(t));
        return v;
    } else if constexpr (c == Cat::Fixed) {
        T v;
        if constexpr (IsStdArray<T>::value) { for (auto &e : v) e = gen<typename T::value_type>(t); }
        else {
            const auto n = genSize<typename T::value_type>(t);
            for (std::size_t i = 0; i < n; ++i) v.emplace_front(gen<typename T::value_type>(t));
        }
        return v;
    } else if constexpr (c == Cat::Set) {
        T v;
        if (genBulk(t, v)) return v;
        const auto n = genSize<typename T::value_type>(t);
        const NoNan noNan;
        for (std::size_t i = 0; i < n; ++i) v.emplace(gen<typename T::value_type>(t));
        return v;
    } else if constexpr (c == Cat::Map || c == Cat::MMap) {
        T v;
        if constexpr (isLeaf<typename T::mapped_type> && cat<typename T::key_type> != Cat::View) {
            if (const auto n = cfg().bulk ? cfg().takeBulk(t, 1u << 17) : 0) {
                for (std::size_t i = 0; i < n; ++i) v.emplace(nthLeaf<typename T::key_type>(c == Cat::MMap ? i / 2000 : i), nthLeaf<typename T::mapped_type>(i));
                return v;
            }
        }
        const auto n = genSize<typename T::mapped_type>(t);
        auto last = typename T::key_type();
        for (std::size_t i = 0; i < n; ++i) {
            typename T::key_type k = i && c == Cat::MMap && t.below(2) ? last : [&] {
                if constexpr (cat<typename T::key_type> == Cat::View) {
                    cfg().viewStorage.push_back(genString(t, true));
                    return std::string_view(cfg().viewStorage.back());
                } else if constexpr (cat<typename T::key_type> == Cat::Str) {
                    // keys which share prefixes are more interesting than unrelated ones
                    if (i && t.chance(1, 4)) { auto s = last; s += static_cast<char>(t.below(3) ? 'a' : 0); return s; }
                    return genString(t, true);
                } else {
                    const NoNan noNan;
                    return gen<typename T::key_type>(t);
                }
            }();
            last = k;
            v.emplace(std::move(k), gen<typename T::mapped_type>(t));
        }
        return v;
    } else if constexpr (c == Cat::Pair) {
        auto a = gen<typename T::first_type>(t);
        auto b = gen<typename T::second_type>(t);
        return T(std::move(a), std::move(b));
    } else if constexpr (c == Cat::Tuple) {
        T v;
        std::apply([&](auto &...e) { (void)std::initializer_list<int>{ (e = gen<std::decay_t<decltype(e)>>(t), 0)... }; }, v);
        return v;
    } else if constexpr (c == Cat::Uniq) {
        if (!t.chance(2, 3) || cfg().elements <= 0) return T();
        --cfg().elements;
        auto p = std::make_unique<typename T::element_type>();
        genInto(t, *p);
        return p;
    } else if constexpr (c == Cat::Shared) {
        if (!t.chance(2, 3) || cfg().elements <= 0) return T();
        --cfg().elements;
        auto &pool = cfg().pool[std::type_index(typeid(typename T::element_type))];
        if (cfg().sharing && !pool.empty() && t.chance(1, 2)) return std::static_pointer_cast<typename T::element_type>(pool[t.below(pool.size())]);
        auto p = std::make_shared<typename T::element_type>();
        genInto(t, *p);
        if (cfg().sharing) cfg().pool[std::type_index(typeid(typename T::element_type))].push_back(p);
        return p;
    } else if constexpr (c == Cat::Opt) {
        if (!t.chance(2, 3)) return T();
        return T(gen<typename T::value_type>(t));
    } else if constexpr (c == Cat::Variant) return genVariant<T>(t, std::make_index_sequence<std::variant_size_v<T>>());
    else {
        static_assert(c == Cat::Struct, "type not supported by the generators");
        T v;
        genInto(t, v);
        return v;
    }
}

// --- canonical form: equal text <=> equal value ---------------------------------------------------------------------------
struct CanonCtx {
    bool identity = false; // number shared objects instead of comparing what they hold
    std::map<const void *, std::size_t> ids;
    std::vector<std::pair<const void *, std::type_index>> active; // shared objects being visited as corrupted data may form cycles
};
template <class T> void canon(const T &v, std::string &out, CanonCtx &ctx);
struct CloneCtx;
template <class T, std::size_t... I> void cloneTuple(T &out, const T &v, CloneCtx &ctx, std::index_sequence<I...>);
template <class T, std::size_t... I> void cloneVariant(T &out, const T &v, CloneCtx &ctx, std::index_sequence<I...>);
template <class T> std::string canon(const T &v, bool identity = false)
{
    CanonCtx c;
    c.identity = identity;
    std::string s;
    canon(v, s, c);
    return s;
}
template <class T> void canon(const T &v, std::string &out, CanonCtx &ctx)
{
    constexpr Cat c = cat<T>;
    if constexpr (c == Cat::Bool) out += v ? "true" : "false";
    else if constexpr (c == Cat::Int) out += std::to_string(static_cast<std::conditional_t<std::is_signed_v<T>, long long, unsigned long long>>(v));
    else if constexpr (c == Cat::Flt) {
        char buf[80];
        std::snprintf(buf, sizeof buf, "%a", static_cast<double>(v)); // exact, distinguishes -0
        out += buf;
    } else if constexpr (c == Cat::Enum) { out += 'E'; canon(static_cast<std::underlying_type_t<T>>(v), out, ctx); }
    else if constexpr (c == Cat::Str) { out += std::to_string(v.size()) + '"'; out += v; out += '"'; }
    else if constexpr (c == Cat::View) { if (v.data()) { out += std::to_string(v.size()) + '"'; out += v; out += '"'; } else out += "null"; }
    else if constexpr (c == Cat::CStr) { if (v) { out += '"'; out += v; out += '"'; } else out += "null"; }
    else if constexpr (c == Cat::Mono) out += "mono";
    else if constexpr (c == Cat::Custom) out += CustomOps<T>::canon(v);
    else if constexpr (c == Cat::Seq || c == Cat::Set || c == Cat::Fixed) {
        std::vector<std::string> items;
        for (const auto &e : v) { items.emplace_back(); canon(e, items.back(), ctx); }
        if constexpr (IsUnordered<T>::value) std::sort(items.begin(), items.end());
        out += c == Cat::Seq ? '[' : '{';
        for (const auto &i : items) { out += i; out += ','; }
        out += c == Cat::Seq ? ']' : '}';
    } else if constexpr (c == Cat::Map || c == Cat::MMap) {
        std::vector<std::string> items;
        if constexpr (IsUnordered<T>::value) { // the order of iteration is not part of the value: numbering shared objects must not depend on it
            std::vector<std::pair<std::string, const typename T::mapped_type *>> sorted;
            for (const auto &e : v) { sorted.emplace_back(std::string(), &e.second); canon(e.first, sorted.back().first, ctx); }
            std::sort(sorted.begin(), sorted.end(), [](const auto &x, const auto &y) { return x.first < y.first; });
            const auto identity = ctx.identity;
            if (c == Cat::MMap) ctx.identity = false;
            for (const auto &e : sorted) { items.emplace_back(e.first + "->"); canon(*e.second, items.back(), ctx); }
            ctx.identity = identity;
            if (c == Cat::MMap) std::sort(items.begin(), items.end());
        } else
            for (const auto &e : v) { items.emplace_back(); canon(e.first, items.back(), ctx); items.back() += "->"; canon(e.second, items.back(), ctx); }
        out += '{';
        for (const auto &i : items) { out += i; out += ','; }
        out += '}';
    } else if constexpr (c == Cat::Pair) { out += '('; canon(v.first, out, ctx); out += ','; canon(v.second, out, ctx); out += ')'; }
    else if constexpr (c == Cat::Tuple) { out += '('; std::apply([&](const auto &...e) { (void)std::initializer_list<int>{ (canon(e, out, ctx), out += ',', 0)... }; }, v); out += ')'; }
    else if constexpr (c == Cat::Uniq || c == Cat::Opt) { if (v) { out += c == Cat::Opt ? '?' : '*'; canon(*v, out, ctx); } else out += "null"; }
    else if constexpr (c == Cat::Shared) {
        if (!v) { out += "null"; return; }
        if (ctx.identity) {
            const auto ins = ctx.ids.emplace(v.get(), ctx.ids.size());
            out += '#' + std::to_string(ins.first->second);
            if (!ins.second) return;
        }
        out += '&';
        const auto key = std::pair<const void *, std::type_index>(v.get(), typeid(typename T::element_type));
        const auto known = std::find(ctx.active.rbegin(), ctx.active.rend(), key);
        if (known != ctx.active.rend()) { out += '^' + std::to_string(known - ctx.active.rbegin()); return; }
        ctx.active.push_back(key);
        canon(*v, out, ctx);
        ctx.active.pop_back();
    } else if constexpr (c == Cat::Variant) {
        out += '<' + std::to_string(v.index()) + ':';
        if (!v.valueless_by_exception()) std::visit([&](const auto &e) { canon(e, out, ctx); }, v);
        out += '>';
    } else {
        static_assert(c == Cat::Struct, "type not supported by canon()");
        out += "S{";
        StructInfo<T>::each([&](const char *, const char *name, auto mp) { out += name; out += '='; canon(v.*mp, out, ctx); out += ';'; });
        out += '}';
    }
}

// --- deep copies ------------------------------------------------------------------------------------------------------------
struct CloneCtx {
    std::map<const void *, std::shared_ptr<void>> shared; // keeps the sharing
};
template <class T> void cloneInto(T &out, const T &v, CloneCtx &ctx)
{
    constexpr Cat c = cat<T>;
    if constexpr (c == Cat::Seq) {
        out.clear();
        for (const auto &e : v) { out.emplace_back(); if constexpr (isLeaf<typename T::value_type>) out.back() = e; else cloneInto(out.back(), e, ctx); }
    } else if constexpr (c == Cat::Map || c == Cat::MMap) {
        out.clear();
        for (const auto &e : v) {
            auto m = typename T::mapped_type();
            cloneInto(m, e.second, ctx);
            out.emplace(e.first, std::move(m));
        }
    } else if constexpr (c == Cat::Pair) { cloneInto(out.first, v.first, ctx); cloneInto(out.second, v.second, ctx); }
    else if constexpr (c == Cat::Tuple) cloneTuple(out, v, ctx, std::make_index_sequence<std::tuple_size_v<T>>());
    else if constexpr (c == Cat::Uniq) {
        out.reset();
        if (v) { out = std::make_unique<typename T::element_type>(); cloneInto(*out, *v, ctx); }
    } else if constexpr (c == Cat::Shared) {
        out.reset();
        if (!v) return;
        auto &known = ctx.shared[v.get()];
        if (!known) {
            auto p = std::make_shared<typename T::element_type>();
            known = p;
            cloneInto(*p, *v, ctx);
        }
        out = std::static_pointer_cast<typename T::element_type>(ctx.shared[v.get()]);
    } else if constexpr (c == Cat::Opt) {
        out.reset();
        if (v) cloneInto(out.emplace(), *v, ctx);
    } else if constexpr (c == Cat::Variant) cloneVariant(out, v, ctx, std::make_index_sequence<std::variant_size_v<T>>());
    else if constexpr (c == Cat::Struct) {
        StructInfo<T>::each([&](const char *, const char *, auto mp) {
            if constexpr (!std::is_const_v<typename MemberOf<decltype(mp)>::Type>) cloneInto(out.*mp, v.*mp, ctx);
        });
    } else out = v;
}
template <class T, std::size_t... I> void cloneTuple(T &out, const T &v, CloneCtx &ctx, std::index_sequence<I...>)
{
    (cloneInto(std::get<I>(out), std::get<I>(v), ctx), ...);
}
template <class T, std::size_t... I> void cloneVariant(T &out, const T &v, CloneCtx &ctx, std::index_sequence<I...>)
{
    (void)((v.index() == I ? (cloneInto(out.template emplace<I>(), std::get<I>(v), ctx), true) : false) || ...);
}

// --- objects referenced by shared pointers -------------------------------------------------------------------------------
struct Alias {
    std::shared_ptr<void> keep;
    std::function<std::string()> now;
    std::string before;
};
template <class T> void collectShared(const T &v, std::vector<Alias> &out)
{
    constexpr Cat c = cat<T>;
    if constexpr (c == Cat::Seq) { if constexpr (!isLeaf<typename T::value_type>) for (const auto &e : v) collectShared(e, out); }
    else if constexpr (c == Cat::Map || c == Cat::MMap) { for (const auto &e : v) collectShared(e.second, out); }
    else if constexpr (c == Cat::Pair) { collectShared(v.first, out); collectShared(v.second, out); }
    else if constexpr (c == Cat::Tuple) std::apply([&](const auto &...e) { (collectShared(e, out), ...); }, v);
    else if constexpr (c == Cat::Uniq || c == Cat::Opt) { if (v) collectShared(*v, out); }
    else if constexpr (c == Cat::Shared) {
        if (!v) return;
        auto now = [v] { return canon(*v); };
        out.push_back({ v, now, now() });
        collectShared(*v, out);
    } else if constexpr (c == Cat::Variant) std::visit([&](const auto &e) { collectShared(e, out); }, v);
    else if constexpr (c == Cat::Struct) StructInfo<T>::each([&](const char *, const char *, auto mp) { collectShared(v.*mp, out); });
}

/// Whether canonical forms are equal except for doubles off by up to \a ulps units in the last place.
inline bool closeCanon(const std::string &a, const std::string &b, long ulps = 3)
{
    const auto token = [](const std::string &s, std::size_t pos) {
        while (pos > 0 && std::strchr("0123456789abcdefx.p+-", s[pos - 1])) --pos;
        return pos;
    };
    std::size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) {
        if (a[i] == b[j]) { ++i; ++j; continue; }
        const auto si = token(a, i), sj = token(b, j);
        char *ei, *ej;
        const double x = std::strtod(a.data() + si, &ei), y = std::strtod(b.data() + sj, &ej);
        if (a.compare(si + (a[si] == '-'), 2, "0x") != 0 || b.compare(sj + (b[sj] == '-'), 2, "0x") != 0) return false;
        std::int64_t m, n;
        std::memcpy(&m, &x, 8);
        std::memcpy(&n, &y, 8);
        if ((m < 0) != (n < 0) || std::llabs(m - n) > ulps) return false;
        i = static_cast<std::size_t>(ei - a.data());
        j = static_cast<std::size_t>(ej - b.data());
    }
    return i == a.size() && j == b.size();
}

/// Number of parts of a value that are not trivially empty; used to tell trivial cases.
template <class T> std::size_t substance(const T &v)
{
    constexpr Cat c = cat<T>;
    if constexpr (c == Cat::Bool) return v ? 1 : 0;
    else if constexpr (c == Cat::Int || c == Cat::Flt) return v != 0;
    else if constexpr (c == Cat::Enum) return static_cast<std::underlying_type_t<T>>(v) != 0;
    else if constexpr (c == Cat::Str) return !v.empty();
    else if constexpr (c == Cat::View || c == Cat::CStr) return v == T() ? 0 : 1;
    else if constexpr (c == Cat::Mono) return 0;
    else if constexpr (c == Cat::Custom) return CustomOps<T>::substance(v);
    else if constexpr (c == Cat::Fixed) { std::size_t n = 0; for (const auto &e : v) n += substance(e); return n; }
    else if constexpr (c == Cat::Seq || c == Cat::Set || c == Cat::Map || c == Cat::MMap) return v.size();
    else if constexpr (c == Cat::Pair) return substance(v.first) + substance(v.second);
    else if constexpr (c == Cat::Tuple) return std::apply([](const auto &...e) { return (substance(e) + ...); }, v);
    else if constexpr (c == Cat::Uniq || c == Cat::Opt || c == Cat::Shared) return v ? 1 : 0;
    else if constexpr (c == Cat::Variant) return v.index() != 0 ? 1 : 0;
    else {
        std::size_t n = 0;
        StructInfo<T>::each([&](const char *, const char *, auto mp) { n += substance(v.*mp); });
        return n;
    }
}

// --- reference serialization to JSON --------------------------------------------------------------------------------------
template <class T> JV refJson(const T &v)
{
    constexpr Cat c = cat<T>;
    if constexpr (c == Cat::Bool) return JV::boolean(v);
    else if constexpr (c == Cat::Int) { if constexpr (std::is_signed_v<T>) return JV::integer(v); else return JV::uinteger(v); }
    else if constexpr (c == Cat::Flt) return JV::dbl(static_cast<double>(v));
    else if constexpr (c == Cat::Enum) return refJson(static_cast<std::underlying_type_t<T>>(v));
    else if constexpr (c == Cat::Str) return JV::str(v);
    else if constexpr (c == Cat::View) return v.data() ? JV::str(std::string(v)) : JV();
    else if constexpr (c == Cat::CStr) return v ? JV::str(v) : JV();
    else if constexpr (c == Cat::Seq || c == Cat::Set || c == Cat::Fixed) { JV r = JV::arr(); for (const auto &e : v) r.a.push_back(refJson(e)); return r; }
    else if constexpr (c == Cat::Map) { JV r = JV::obj(); for (const auto &e : v) r.o.emplace_back(std::string(e.first), refJson(e.second)); return r; }
    else if constexpr (c == Cat::MMap) {
        JV r = JV::obj();
        for (const auto &e : v) {
            auto it = std::find_if(r.o.begin(), r.o.end(), [&](const auto &m) { return m.first == e.first; });
            if (it == r.o.end()) it = r.o.insert(r.o.end(), { std::string(e.first), JV::arr() });
            it->second.a.push_back(refJson(e.second));
        }
        return r;
    } else if constexpr (c == Cat::Pair) { JV r = JV::arr(); r.a = { refJson(v.first), refJson(v.second) }; return r; }
    else if constexpr (c == Cat::Tuple) { JV r = JV::arr(); std::apply([&](const auto &...e) { (r.a.push_back(refJson(e)), ...); }, v); return r; }
    else if constexpr (c == Cat::Uniq || c == Cat::Shared || c == Cat::Opt) return v ? refJson(*v) : JV();
    else if constexpr (c == Cat::Mono) return JV();
    else if constexpr (c == Cat::Custom) return CustomOps<T>::json(v);
    else if constexpr (c == Cat::Variant) {
        JV r = JV::obj();
        r.o.emplace_back("index", JV::uinteger(v.index()));
        r.o.emplace_back("data", std::visit([](const auto &e) { return refJson(e); }, v));
        return r;
    } else {
        static_assert(c == Cat::Struct);
        JV r = JV::obj();
        StructInfo<T>::each([&](const char *, const char *name, auto mp) { r.o.emplace_back(name, refJson(v.*mp)); });
        return r;
    }
}

// --- reference deserialization from JSON ------------------------------------------------------------------------------------
enum class EK { TypeMismatch, ArraySizeMismatch, ConversionError, UnexpectedDuplicate, InvalidVariantObject, InvalidVariantIndex };
enum class JT { Null, Number, Bool, String, Array, Object };
constexpr std::size_t noIndex = static_cast<std::size_t>(-1);
struct Err {
    EK kind;
    JT expected, actual;
    std::string record, member; // member "" if none
    bool hasMember;
    std::size_t index;
};
struct Errs {
    std::vector<Err> list;
    std::string record = "[document]", member;
    bool hasMember = false;
    std::size_t index = noIndex;
    void add(EK k, JT e, JT a) { list.push_back({ k, e, a, record, member, hasMember, index }); }
};
inline JT jt(const JV &v)
{
    switch (v.kind) {
    case JV::Null: return JT::Null;
    case JV::Bool: return JT::Bool;
    case JV::Num: return JT::Number;
    case JV::Str: return JT::String;
    case JV::Arr: return JT::Array;
    default: return JT::Object;
    }
}
/// Assigns the number if it is within the range of \a I (fractions are cut off).
template <class I> bool numTo(const JV &j, I &out)
{
    using L = std::numeric_limits<I>;
    if (j.nk == JV::I64) {
        if constexpr (std::is_signed_v<I>) { if (j.i < static_cast<std::int64_t>(L::min()) || j.i > static_cast<std::int64_t>(L::max())) return false; }
        else if (j.i < 0 || static_cast<std::uint64_t>(j.i) > L::max()) return false;
        out = static_cast<I>(j.i);
        return true;
    }
    if (j.nk == JV::U64) {
        if (j.u > static_cast<std::uint64_t>(L::max())) return false;
        out = static_cast<I>(j.u);
        return true;
    }
    const double tr = std::trunc(j.d);
    if (!(tr >= static_cast<double>(L::min()) && tr < std::ldexp(1.0, L::digits))) return false;
    out = static_cast<I>(tr);
    return true;
}
template <class T> void refPull(T &out, const JV &j, Errs &e);
#ifdef GENERATED_PROGRAMS // descriptions made by genprog.py distinguish between members which are written and read
#define EACH_PULL eachPull
#else
#define EACH_PULL each
#endif
template <class T> void refPullStruct(T &out, const JV &j, Errs &e)
{
    const auto prevRecord = e.record;
    StructInfo<T>::EACH_PULL([&](const char *record, const char *name, auto mp) {
        using M = typename MemberOf<decltype(mp)>::Type;
        if constexpr (!std::is_const_v<M>) {
            const JV *m = j.find(name);
            if (!m) return;
            const auto pm = e.member;
            const auto ph = e.hasMember;
            e.record = record;
            e.member = name;
            e.hasMember = true;
            refPull(out.*mp, *m, e);
            e.record = prevRecord;
            e.member = pm;
            e.hasMember = ph;
        }
    });
}
template <class V, std::size_t I = 0> void refPullVariant(V &out, std::uint64_t idx, const JV &data, Errs &e)
{
    if constexpr (I < std::variant_size_v<V>) {
        if (idx == I) {
            auto &r = out.template emplace<I>();
            if constexpr (!std::is_same_v<std::decay_t<decltype(r)>, std::monostate>) refPull(r, data, e);
        } else refPullVariant<V, I + 1>(out, idx, data, e);
    } else e.add(EK::InvalidVariantIndex, JT::Number, JT::Number);
}
template <class T> void refPull(T &out, const JV &j, Errs &e)
{
    constexpr Cat c = cat<T>;
    if constexpr (c == Cat::Custom) CustomOps<T>::pull(out, j, e);
    else if constexpr (c == Cat::Bool) { if (j.kind == JV::Bool) out = j.b; else e.add(EK::TypeMismatch, JT::Bool, jt(j)); }
    else if constexpr (c == Cat::Int) {
        if (j.kind != JV::Num) e.add(EK::TypeMismatch, JT::Number, jt(j));
        else if (!numTo(j, out)) e.add(EK::ConversionError, JT::Number, JT::Number);
    } else if constexpr (c == Cat::Flt) {
        if (j.kind != JV::Num) e.add(EK::TypeMismatch, JT::Number, jt(j));
        else if (!std::isfinite(static_cast<T>(j.d))) e.add(EK::ConversionError, JT::Number, JT::Number);
        else out = static_cast<T>(j.d);
    } else if constexpr (c == Cat::Enum) {
        using U = std::underlying_type_t<T>;
        U u{};
        if (j.kind != JV::Num || j.nk == JV::Dbl || (std::is_unsigned_v<U> && j.nk == JV::I64 && j.i < 0) || (std::is_signed_v<U> && j.nk == JV::U64)) e.add(EK::TypeMismatch, JT::Number, jt(j));
        else if (!numTo(j, u)) e.add(EK::ConversionError, JT::Number, JT::Number);
        else out = static_cast<T>(u);
    } else if constexpr (c == Cat::Str) { if (j.kind == JV::Str) out = j.s; else e.add(EK::TypeMismatch, JT::String, jt(j)); }
    else if constexpr (c == Cat::View || c == Cat::CStr) { if (j.kind != JV::Str) e.add(EK::TypeMismatch, JT::String, jt(j)); }
    else if constexpr (c == Cat::Seq || c == Cat::Set) {
        if (j.kind != JV::Arr) { e.add(EK::TypeMismatch, JT::Array, jt(j)); return; }
        const auto prev = e.index;
        out.clear();
        for (std::size_t n = 0; n < j.a.size(); ++n) {
            e.index = n;
            if constexpr (c == Cat::Seq) { out.emplace_back(); refPull(out.back(), j.a[n], e); }
            else {
                auto v = typename T::value_type();
                refPull(v, j.a[n], e);
                if constexpr (IsUniqueSet<T>::value) { if (!out.emplace(std::move(v)).second) e.add(EK::UnexpectedDuplicate, JT::Array, JT::Array); }
                else out.emplace(std::move(v));
            }
        }
        e.index = prev;
    } else if constexpr (c == Cat::Map) {
        if (j.kind != JV::Obj) { e.add(EK::TypeMismatch, JT::Object, jt(j)); return; }
        out.clear();
        for (const auto &m : j.o) refPull(out[m.first], m.second, e);
    } else if constexpr (c == Cat::MMap) {
        if (j.kind != JV::Obj) { e.add(EK::TypeMismatch, JT::Object, jt(j)); return; }
        out.clear();
        for (const auto &m : j.o) {
            if (m.second.kind != JV::Arr) { auto it = out.emplace(m.first, typename T::mapped_type()); refPull(it->second, m.second, e); continue; }
            for (const auto &x : m.second.a) { auto it = out.emplace(m.first, typename T::mapped_type()); refPull(it->second, x, e); }
        }
    } else if constexpr (c == Cat::Pair) {
        if (j.kind != JV::Arr) { e.add(EK::TypeMismatch, JT::Array, jt(j)); return; }
        if (j.a.size() != 2) { e.add(EK::ArraySizeMismatch, JT::Array, JT::Array); return; }
        refPull(out.first, j.a[0], e);
        refPull(out.second, j.a[1], e);
    } else if constexpr (c == Cat::Tuple) {
        if (j.kind != JV::Arr) { e.add(EK::TypeMismatch, JT::Array, jt(j)); return; }
        if (j.a.size() != std::tuple_size_v<T>) { e.add(EK::ArraySizeMismatch, JT::Array, JT::Array); return; }
        std::size_t n = 0;
        std::apply([&](auto &...x) { (refPull(x, j.a[n++], e), ...); }, out);
    } else if constexpr (c == Cat::Uniq || c == Cat::Shared) {
        if (j.kind == JV::Null) { out.reset(); return; }
        if constexpr (c == Cat::Uniq) out = std::make_unique<typename T::element_type>(); else out = std::make_shared<typename T::element_type>();
        refPull(*out, j, e);
    } else if constexpr (c == Cat::Opt) {
        if (j.kind == JV::Null) { out.reset(); return; }
        refPull(out.emplace(), j, e);
    } else if constexpr (c == Cat::Variant) {
        if (j.kind != JV::Obj) { e.add(EK::TypeMismatch, JT::Object, jt(j)); return; }
        const JV *idx = j.find("index"), *data = j.find("data");
        if (!idx || !data) { e.add(EK::InvalidVariantObject, JT::Object, JT::Object); return; }
        if (idx->kind != JV::Num || idx->nk == JV::Dbl || (idx->nk == JV::I64 && idx->i < 0)) { e.add(EK::InvalidVariantIndex, JT::Number, jt(*idx)); return; }
        refPullVariant(out, idx->nk == JV::I64 ? static_cast<std::uint64_t>(idx->i) : idx->u, *data, e);
    } else {
        static_assert(c == Cat::Struct);
        if (j.kind != JV::Obj) { e.add(EK::TypeMismatch, JT::Object, jt(j)); return; }
        refPullStruct(out, j, e);
    }
}

// --- reference binary format --------------------------------------------------------------------------------------------------
template <class T> void refWrite(const T &v, BinOut &o)
{
    constexpr Cat c = cat<T>;
    if constexpr (c == Cat::Bool) o.byte(v ? 1 : 0);
    else if constexpr (c == Cat::Int) o.be(static_cast<std::uint64_t>(static_cast<std::make_unsigned_t<T>>(v)), sizeof(T));
    else if constexpr (c == Cat::Flt) {
        if constexpr (sizeof(T) == 4) { std::uint32_t b; std::memcpy(&b, &v, 4); o.be(b, 4); }
        else { std::uint64_t b; std::memcpy(&b, &v, 8); o.be(b, 8); }
    } else if constexpr (c == Cat::Enum) refWrite(static_cast<std::underlying_type_t<T>>(v), o);
    else if constexpr (c == Cat::Str) o.str(v);
    else if constexpr (c == Cat::Mono) {}
    else if constexpr (c == Cat::Custom) CustomOps<T>::write(v, o);
    else if constexpr (c == Cat::Seq || c == Cat::Set) { o.var(v.size()); for (const auto &e : v) refWrite(e, o); }
    else if constexpr (c == Cat::Map || c == Cat::MMap) { o.var(v.size()); for (const auto &e : v) { refWrite(e.first, o); refWrite(e.second, o); } }
    else if constexpr (c == Cat::Pair) { refWrite(v.first, o); refWrite(v.second, o); }
    else if constexpr (c == Cat::Uniq || c == Cat::Opt) { o.byte(v ? 1 : 0); if (v) refWrite(*v, o); }
    else if constexpr (c == Cat::Shared) {
        if (!v) { o.byte(0); return; }
        const auto remapped = o.ids.find(v.get());
        const auto id = remapped != o.ids.end() ? remapped->second : o.newId ? (o.ids[v.get()] = o.newId()) : static_cast<std::uint64_t>(reinterpret_cast<std::uintptr_t>(v.get()));
        const bool big = id >= (1ull << 55);
        const bool known = std::find(o.seen.begin(), o.seen.end(), v.get()) != o.seen.end();
        o.byte((known ? 2u : 1u) | (big ? 4u : 0u));
        if (big) o.be(id, 8); else o.var(id);
        if (!known) { o.seen.push_back(v.get()); refWrite(*v, o); }
    } else if constexpr (c == Cat::Variant) { o.byte(static_cast<unsigned>(v.index())); std::visit([&](const auto &e) { refWrite(e, o); }, v); }
    else {
        static_assert(c == Cat::Struct);
#ifdef GENERATED_PROGRAMS
        using I = StructInfo<T>;
        const auto outer = o.version;
        I::eachBase([&](auto *base) { refWrite(static_cast<const std::remove_pointer_t<decltype(base)> &>(v), o); });
        if constexpr (I::ownVersion != 0) {
            o.version = outer && outer <= I::ownVersion ? outer : I::ownVersion;
            if (o.chooseVersion) o.version = o.chooseVersion(o.version, I::ownVersion);
            o.var(o.version);
        }
        I::eachOwn([&](const char *, auto mp, std::uint64_t asOf, std::uint64_t until) {
            if constexpr (!std::is_const_v<typename MemberOf<decltype(mp)>::Type>) { if ((!asOf || o.version >= asOf) && (!until || o.version <= until)) refWrite(v.*mp, o); else ++o.omitted; }
        });
        o.version = outer;
#else
        StructInfo<T>::each([&](const char *, const char *, auto mp) {
            if constexpr (!std::is_const_v<typename MemberOf<decltype(mp)>::Type>) refWrite(v.*mp, o);
        });
#endif
    }
}
struct BadVersion {
    std::uint64_t present, max;
    std::string record;
};
struct ReadCtx {
    BinIn in;
    std::map<std::uint64_t, std::pair<std::type_index, std::shared_ptr<void>>> objects;
    std::vector<std::uint64_t> idOrder; // ids in order of their first occurrence
    std::uint64_t version = 0, lastVersion = 0; // version of the class being read/which has been read last
    explicit ReadCtx(const std::string &b) : in(b) {}
};
/// The result of inserting NaN into a set is not determined.
/// Whether a canonical form contains NaN (not just a string with these characters).
inline bool hasNan(const std::string &s)
{
    for (std::size_t i = 0; i < s.size();) {
        if (s.compare(i, 3, "nan") == 0) return true;
        if (s[i] < '0' || s[i] > '9') { ++i; continue; }
        std::size_t n = 0;
        for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) n = n * 10 + static_cast<std::size_t>(s[i] - '0');
        if (i < s.size() && s[i] == '"') i += 2 + n; // skip string
    }
    return false;
}
template <class T> void refuseNan(const T &v) { if (!std::is_integral_v<T> && !std::is_same_v<T, std::string> && hasNan(canon(v))) throw model::AmbiguousBinary(); }
template <class V, std::size_t I = 0> void refReadVariant(V &out, unsigned idx, ReadCtx &r);
template <class T> void refRead(T &out, ReadCtx &r)
{
    constexpr Cat c = cat<T>;
    if constexpr (c == Cat::Bool) { const auto b = r.in.byte(); if (b > 1) throw model::AmbiguousBinary(); out = b != 0; }
    else if constexpr (c == Cat::Int) out = static_cast<T>(r.in.be(sizeof(T)));
    else if constexpr (c == Cat::Flt) {
        if constexpr (sizeof(T) == 4) { const auto b = static_cast<std::uint32_t>(r.in.be(4)); std::memcpy(&out, &b, 4); }
        else { const auto b = r.in.be(8); std::memcpy(&out, &b, 8); }
    } else if constexpr (c == Cat::Enum) { std::underlying_type_t<T> u; refRead(u, r); out = static_cast<T>(u); }
    else if constexpr (c == Cat::Str) out = r.in.str();
    else if constexpr (c == Cat::Mono) {}
    else if constexpr (c == Cat::Custom) CustomOps<T>::read(out, r);
    else if constexpr (c == Cat::Seq) { const auto n = r.in.var(); out.clear(); for (std::uint64_t i = 0; i < n; ++i) { out.emplace_back(); refRead(out.back(), r); } }
    else if constexpr (c == Cat::Set) { const auto n = r.in.var(); out.clear(); for (std::uint64_t i = 0; i < n; ++i) { auto v = typename T::value_type(); refRead(v, r); refuseNan(v); out.emplace(std::move(v)); } }
    else if constexpr (c == Cat::Map || c == Cat::MMap) {
        const auto n = r.in.var();
        out.clear();
        for (std::uint64_t i = 0; i < n; ++i) { auto k = typename T::key_type(); auto v = typename T::mapped_type(); refRead(k, r); refRead(v, r); refuseNan(k); out.emplace(std::move(k), std::move(v)); }
    } else if constexpr (c == Cat::Pair) { refRead(out.first, r); refRead(out.second, r); }
    else if constexpr (c == Cat::Uniq || c == Cat::Opt) {
        const auto b = r.in.byte();
        if (b > 1) throw model::AmbiguousBinary();
        if (!b) { out.reset(); return; }
        if constexpr (c == Cat::Uniq) { out = std::make_unique<typename T::element_type>(); refRead(*out, r); } else refRead(out.emplace(), r);
    } else if constexpr (c == Cat::Shared) {
        const auto mode = r.in.byte();
        if (!mode) { out.reset(); return; }
        if (mode != 1 && mode != 2 && mode != 5 && mode != 6) throw model::AmbiguousBinary();
        const auto id = mode & 4 ? r.in.be(8) : r.in.var();
        if (mode & 1) {
            out = std::make_shared<typename T::element_type>();
            if (!r.objects.emplace(id, std::make_pair(std::type_index(typeid(T)), std::shared_ptr<void>(out))).second) throw model::AmbiguousBinary();
            r.idOrder.push_back(id);
            refRead(*out, r);
        } else {
            const auto it = r.objects.find(id);
            if (it == r.objects.end() || it->second.first != std::type_index(typeid(T))) throw model::BadBinary{ "bad reference" };
            out = std::static_pointer_cast<typename T::element_type>(it->second.second);
        }
    } else if constexpr (c == Cat::Variant) refReadVariant(out, r.in.byte(), r);
    else {
        static_assert(c == Cat::Struct);
#ifdef GENERATED_PROGRAMS
        using I = StructInfo<T>;
        const auto outer = r.version;
        I::eachBase([&](auto *base) { refRead(static_cast<std::remove_pointer_t<decltype(base)> &>(out), r); });
        if constexpr (I::ownVersion != 0) {
            r.version = r.in.var();
            if (r.version > I::ownVersion) throw BadVersion{ r.version, I::ownVersion, I::name };
        }
        I::eachOwn([&](const char *, auto mp, std::uint64_t asOf, std::uint64_t until) {
            if constexpr (!std::is_const_v<typename MemberOf<decltype(mp)>::Type>) { if ((!asOf || r.version >= asOf) && (!until || r.version <= until)) refRead(out.*mp, r); }
        });
        r.lastVersion = r.version;
        r.version = outer;
#else
        StructInfo<T>::each([&](const char *, const char *, auto mp) {
            if constexpr (!std::is_const_v<typename MemberOf<decltype(mp)>::Type>) refRead(out.*mp, r);
        });
#endif
    }
}
template <class V, std::size_t I> void refReadVariant(V &out, unsigned idx, ReadCtx &r)
{
    if constexpr (I < std::variant_size_v<V>) {
        if (idx == I) refRead(out.template emplace<I>(), r); else refReadVariant<V, I + 1>(out, idx, r);
    } else throw model::BadBinary{ "variant index" };
}
} // namespace ops
#endif
