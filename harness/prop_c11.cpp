// C11: shared objects keep their identity in binary and are copied in JSON
#include <reflective_rapidjson/binary/reflector.h>
#include <reflective_rapidjson/binary/serializable.h>
#include <reflective_rapidjson/json/reflector.h>
#include <reflective_rapidjson/json/serializable.h>

#include "pbt.h"

#include <algorithm>
#include <array>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <tuple>
#include <typeindex>
#include <unordered_map>
#include <variant>

namespace rr = ReflectiveRapidJSON;
namespace br = ReflectiveRapidJSON::BinaryReflector;
using pbt::Ctx;
using pbt::Tape;

namespace g {
struct A;
struct B;
struct D;
struct Leaf : public rr::BinarySerializable<Leaf>, public rr::JsonSerializable<Leaf> {
    std::uint64_t mark = 0;
    template <class S, class F> static void each(S &s, F &&f) { f("mark", s.mark); }
};
struct B {
    std::shared_ptr<B> self; // the first member is a pointer itself
    std::uint64_t mark = 0;
    std::shared_ptr<A> a;
    std::list<std::shared_ptr<B>> bs;
    std::vector<std::shared_ptr<Leaf>> leafs;
    template <class S, class F> static void each(S &s, F &&f)
    {
        f("self", s.self); f("mark", s.mark); f("a", s.a); f("bs", s.bs); f("leafs", s.leafs);
    }
};
struct D : public B {
    std::uint64_t mark2 = 0;
    std::shared_ptr<B> base;
    template <class S, class F> static void each(S &s, F &&f) { B::each(s, f); f("mark2", s.mark2); f("base", s.base); }
};
struct A : public rr::BinarySerializable<A>, public rr::JsonSerializable<A> {
    Leaf leaf; // an object at the very same address (if base classes are empty)
    std::shared_ptr<A> next;
    std::shared_ptr<B> b;
    std::shared_ptr<D> d;
    std::shared_ptr<Leaf> lf;
    std::shared_ptr<std::uint64_t> num;
    std::shared_ptr<std::string> str;
    std::shared_ptr<std::vector<std::shared_ptr<A>>> vec;
    std::vector<std::shared_ptr<A>> as;
    std::map<std::string, std::shared_ptr<B>> bm;
    std::variant<std::monostate, std::shared_ptr<A>, std::shared_ptr<std::string>, std::shared_ptr<Leaf>> var;
    std::unique_ptr<B> own;
    std::unordered_map<std::string, std::shared_ptr<Leaf>> um;
    // only in binary
    std::pair<std::shared_ptr<B>, std::shared_ptr<A>> pr;
    std::optional<std::shared_ptr<Leaf>> opt;
    std::shared_ptr<std::shared_ptr<B>> pp;
    std::multimap<std::int32_t, std::shared_ptr<D>> mm;
    template <class S, class F> static void eachJson(S &s, F &&f)
    {
        f("leaf", s.leaf); f("next", s.next); f("b", s.b); f("d", s.d); f("lf", s.lf); f("num", s.num); f("str", s.str); f("vec", s.vec); f("as", s.as);
        f("bm", s.bm); f("var", s.var); f("own", s.own); f("um", s.um);
    }
    template <class S, class F> static void each(S &s, F &&f)
    {
        eachJson(s, f);
        f("pr", s.pr); f("opt", s.opt); f("pp", s.pp); f("mm", s.mm);
    }
};
/// What is written: some entry points to the graph.
struct Root : public rr::BinarySerializable<Root>, public rr::JsonSerializable<Root> {
    std::shared_ptr<A> a1, a2;
    std::shared_ptr<B> b;
    std::vector<std::shared_ptr<D>> ds;
    std::array<std::shared_ptr<Leaf>, 3> leafs;
    std::shared_ptr<std::string> str;
    std::vector<std::shared_ptr<std::uint64_t>> nums;
    template <class S, class F> static void each(S &s, F &&f) { f("a1", s.a1); f("a2", s.a2); f("b", s.b); f("ds", s.ds); f("str", s.str); f("nums", s.nums); }
    template <class S, class F> static void eachBin(S &s, F &&f) { each(s, f); for (auto &l : s.leafs) f("leafs", l); }
};
template <class T> constexpr bool isNode = std::is_same_v<T, A> || std::is_same_v<T, B> || std::is_same_v<T, D> || std::is_same_v<T, Leaf> || std::is_same_v<T, Root>;
} // namespace g

namespace ReflectiveRapidJSON {
REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(g::B);
REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(g::D);
REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(g::B);
REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(g::D);
#define BIN(T, EACH)                                                                                                                                 \
    template <> inline void writeCustomType<::T>(BinarySerializer & s, const ::T &o, BinaryVersion version)                                          \
    {                                                                                                                                                \
        ::T::EACH(o, [&](const char *, const auto &m) { s.write(m, version); });                                                                     \
    }                                                                                                                                                \
    template <> inline BinaryVersion readCustomType<::T>(BinaryDeserializer & s, ::T & o, BinaryVersion version)                                     \
    {                                                                                                                                                \
        ::T::EACH(o, [&](const char *, auto &m) { s.read(m, version); });                                                                            \
        return version;                                                                                                                              \
    }
namespace BinaryReflector {
BIN(g::Leaf, each)
BIN(g::B, each)
BIN(g::D, each)
BIN(g::A, each)
BIN(g::Root, eachBin)
} // namespace BinaryReflector
#define JSON(T, EACH)                                                                                                                                \
    template <> inline void push<::T>(const ::T &o, RAPIDJSON_NAMESPACE::Value::Object &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &alloc)  \
    {                                                                                                                                                \
        ::T::EACH(o, [&](const char *name, const auto &m) { push(m, name, value, alloc); });                                                         \
    }                                                                                                                                                \
    template <> inline void pull<::T>(::T & o, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>>::ConstObject &value, JsonDeserializationErrors *errors) \
    {                                                                                                                                                \
        ::T::EACH(o, [&](const char *name, auto &m) { pull(m, name, value, errors); });                                                              \
    }
namespace JsonReflector {
#define DECL(T)                                                                                                                                      \
    template <> void push<::T>(const ::T &, RAPIDJSON_NAMESPACE::Value::Object &, RAPIDJSON_NAMESPACE::Document::AllocatorType &);                   \
    template <> void pull<::T>(::T &, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>>::ConstObject &, JsonDeserializationErrors *);
DECL(g::Leaf) DECL(g::B) DECL(g::D) DECL(g::A) DECL(g::Root)
JSON(g::Leaf, each)
JSON(g::B, each)
JSON(g::D, each)
JSON(g::A, eachJson)
JSON(g::Root, each)
} // namespace JsonReflector
} // namespace ReflectiveRapidJSON

namespace {
using namespace g;

/// Walks a graph and notes its structure: objects are numbered in the order they are first encountered (if \a identity) or walked
/// again for every reference (otherwise).
struct Walker {
    bool identity = true, json = false;
    std::map<std::pair<const void *, std::type_index>, std::size_t> known;
    std::map<const void *, std::set<std::type_index>> types;
    std::string out;
    std::size_t refs = 0, repeated = 0, objects = 0, limit = ~std::size_t(0);
    std::multiset<std::uint64_t> marks; // of written objects
    std::vector<const void *> addresses; // of all objects encountered

    void walk(std::uint64_t v) { out += std::to_string(v) + ","; if (v) marks.insert(v); }
    void walk(std::int32_t v) { out += std::to_string(v) + ","; }
    void walk(std::monostate) { out += "-"; }
    void walk(const std::string &s) { out += pbt::escape(s) + ","; }
    template <class X, class Y> void walk(const std::pair<X, Y> &p) { walk(p.first); walk(p.second); }
    template <class T> void walk(const std::optional<T> &o) { if (o) { out += "!"; walk(*o); } else out += "?"; }
    template <class... T> void walk(const std::variant<T...> &v) { out += "v" + std::to_string(v.index()); std::visit([this](const auto &x) { walk(x); }, v); }
    template <class T> void walk(const std::unique_ptr<T> &p) { if (p) { out += "u"; walk(*p); } else out += "0"; }
    template <class T> void walk(const std::shared_ptr<T> &p)
    {
        if (!p) { out += "0"; return; }
        ++refs;
        if (objects > limit) return;
        if (identity) {
            const auto ins = known.try_emplace({ p.get(), typeid(T) }, known.size());
            if (!ins.second) { out += "#" + std::to_string(ins.first->second); ++repeated; return; }
            types[p.get()].insert(typeid(T));
        }
        ++objects;
        addresses.push_back(p.get());
        out += "*";
        walk(*p);
    }
    template <class T> auto walk(const T &t) -> std::enable_if_t<g::isNode<T>>
    {
        out += "{";
        const auto f = [this](const char *, const auto &m) { walk(m); };
        if constexpr (std::is_same_v<T, A>) { if (json) A::eachJson(t, f); else A::each(t, f); }
        else if constexpr (std::is_same_v<T, Root>) { if (json) Root::each(t, f); else Root::eachBin(t, f); }
        else T::each(t, f);
        out += "}";
    }
    template <class T> auto walk(const T &t) -> decltype(t.begin(), std::enable_if_t<!g::isNode<T> && !std::is_same_v<T, std::string>>())
    {
        out += "[" + std::to_string(t.size()) + ":";
        if constexpr (std::is_same_v<T, std::unordered_map<std::string, std::shared_ptr<Leaf>>>) {
            // sorted within the JSON properties and binary properties by what a lookup yields: the order is not relevant
            for (const auto *e : sorted(t)) { walk(e->first); walk(e->second); }
        } else
            for (const auto &e : t) walk(e);
        out += "]";
    }
    template <class T> static std::vector<const typename T::value_type *> sorted(const T &t)
    {
        std::vector<const typename T::value_type *> r;
        for (const auto &e : t) r.push_back(&e);
        std::sort(r.begin(), r.end(), [](auto *x, auto *y) { return x->first < y->first; });
        return r;
    }
};

/// Memory at addresses relevant for how addresses are treated.
struct Arena {
    std::vector<std::pair<char *, std::size_t>> blocks; // start, used
    static constexpr std::size_t size = 1 << 16;
    Arena()
    {
        static const std::uint64_t bases[] = { 0x0000000000100000, 0x0000000080000000, 0x0000000110000000, 0x0000000210000000, 0x0000010010000000, 0x0000010110000000, 0x00005a0010000000, 0x00007ab010000000 };
        for (const auto b : bases) {
            void *const p = mmap(reinterpret_cast<void *>(b), size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
            if (p == MAP_FAILED) continue;
            if (p != reinterpret_cast<void *>(b)) { munmap(p, size); continue; }
            blocks.push_back({ static_cast<char *>(p), 0 });
        }
    }
    ~Arena() { for (auto &b : blocks) munmap(b.first, size); }
    /// The n-th objects of all blocks have got the same offset so their addresses differ by multiples of powers of two.
    template <class T> T *make(std::size_t block, std::size_t slot) { return new (blocks[block % blocks.size()].first + (slot % (size / 1024)) * 1024) T(); }
    /// Objects one after another, for cases not to depend on the state of the heap.
    template <class T> T *makeNext()
    {
        auto &b = blocks[6 % blocks.size()];
        const auto offset = 8 * 1024 + b.second;
        if (offset + sizeof(T) > size) return nullptr;
        b.second += (sizeof(T) + 15) & ~static_cast<std::size_t>(15);
        return new (b.first + offset) T();
    }
};

struct Graph {
    std::vector<std::shared_ptr<A>> as;
    std::vector<std::shared_ptr<B>> bs;
    std::vector<std::shared_ptr<D>> ds;
    std::vector<std::shared_ptr<Leaf>> leafs;
    std::vector<std::shared_ptr<std::string>> strs;
    std::vector<std::shared_ptr<std::uint64_t>> nums;
    std::vector<std::shared_ptr<std::vector<std::shared_ptr<A>>>> vecs;
    std::vector<std::shared_ptr<std::shared_ptr<B>>> pps;
    std::vector<std::function<void()>> clear;
    std::uint64_t nextMark = 1000000000000000000ull;
    std::uint64_t mark() { return nextMark += 1000000007; }
    template <class T> static void clearNode(T &t)
    {
        const auto f = [](const char *, auto &m) {
            using M = std::decay_t<decltype(m)>;
            if constexpr (!std::is_same_v<M, Leaf>) m = M();
        };
        T::each(t, f);
    }
    ~Graph()
    {
        for (auto &a : as) clearNode(*a);
        for (auto &b : bs) clearNode(*b);
        for (auto &d : ds) clearNode(*d);
        for (auto &v : vecs) v->clear();
    }
    Graph() = default;
    Graph(const Graph &) = delete;
};

struct Builder {
    Tape &t;
    Arena *arena;
    Graph &gr;
    bool dag; // only refer to objects with a higher index
    std::set<std::pair<std::size_t, std::size_t>> usedSlots;
    std::size_t level = 0;

    template <class T> std::shared_ptr<T> object()
    {
        if (arena && !arena->blocks.empty() && t.below(2)) {
            const auto block = t.below(arena->blocks.size()), slot = t.below(6);
            if (usedSlots.insert({ block, slot }).second) return std::shared_ptr<T>(arena->make<T>(block, slot), [](T *p) { p->~T(); });
        }
        if (arena && !arena->blocks.empty()) { if (auto *const p = arena->makeNext<T>()) return std::shared_ptr<T>(p, [](T *x) { x->~T(); }); }
        return std::make_shared<T>();
    }
    void nodes()
    {
        const auto count = [this] { static const int n[] = { 1, 2, 3, 6 }; return t.below(static_cast<std::uint64_t>(n[t.pick({ 4, 4, 3, 1 })]) + 1); };
        for (auto n = count(); n; --n) gr.as.push_back(object<A>());
        for (auto n = count(); n; --n) gr.ds.push_back(object<D>());
        for (auto n = count(); n; --n) gr.bs.push_back(object<B>());
        for (auto n = count(); n; --n) gr.leafs.push_back(object<Leaf>());
        for (auto n = count(); n; --n) gr.strs.push_back(object<std::string>());
        for (auto n = count(); n; --n) gr.nums.push_back(object<std::uint64_t>());
        for (auto n = count(); n; --n) gr.vecs.push_back(object<std::vector<std::shared_ptr<A>>>());
        for (auto &a : gr.as) a->leaf.mark = gr.mark();
        for (auto &b : gr.bs) b->mark = gr.mark();
        for (auto &d : gr.ds) { d->mark = gr.mark(); d->mark2 = gr.mark(); }
        for (auto &l : gr.leafs) l->mark = gr.mark();
        for (auto &s : gr.strs) *s = "s" + std::to_string(gr.mark());
        for (auto &n : gr.nums) *n = gr.mark();
        // pointers into the middle of or to bases of other objects
        for (auto &a : gr.as) if (t.chance(1, 3)) gr.leafs.push_back(std::shared_ptr<Leaf>(a, &a->leaf));
        for (auto &l : gr.leafs) if (t.chance(1, 4)) gr.nums.push_back(std::shared_ptr<std::uint64_t>(l, &l->mark));
        for (auto &d : gr.ds) if (t.chance(1, 2)) gr.bs.push_back(d);
        if (!dag) for (auto &b : gr.bs) if (t.chance(1, 4)) gr.pps.push_back(std::shared_ptr<std::shared_ptr<B>>(b, &b->self));
        for (auto n = dag ? 0 : t.below(2); n; --n) gr.pps.push_back(object<std::shared_ptr<B>>());
    }
    template <class T> std::shared_ptr<T> ref(const std::vector<std::shared_ptr<T>> &pool, std::size_t from = 0)
    {
        if (pool.size() <= from || !t.chance(2, 3)) return nullptr;
        const auto &p = pool[from + t.below(pool.size() - from)];
        // use another pointer with another owner for the same object now and then
        return t.chance(1, 10) ? std::shared_ptr<T>(p.get(), [](T *) {}) : p;
    }
    template <class C, class T> void refs(C &c, const std::vector<std::shared_ptr<T>> &pool, std::size_t from = 0)
    {
        for (auto n = t.pick({ 6, 3, 2, 1 }); n; --n) c.push_back(ref(pool, from));
    }
    std::string key() { return std::string(1, static_cast<char>('a' + t.below(5))); }
    // For DAGs: A may refer to later A, any B/D; B to later B and leafs; D to later D and any B (but the B part of a D might be in bs).
    void fillB(B &b, std::size_t index, bool isD)
    {
        const auto from = dag ? (isD ? gr.bs.size() : index + 1) : 0;
        b.self = ref(gr.bs, from);
        if (!dag) b.a = ref(gr.as);
        refs(b.bs, gr.bs, from);
        refs(b.leafs, gr.leafs);
    }
    void edges()
    {
        for (std::size_t i = 0; i < gr.as.size(); ++i) {
            auto &a = *gr.as[i];
            const auto from = dag ? i + 1 : 0;
            a.next = ref(gr.as, from);
            a.b = ref(gr.bs);
            a.d = ref(gr.ds);
            a.lf = ref(gr.leafs);
            a.num = ref(gr.nums);
            a.str = ref(gr.strs);
            if (!dag) a.vec = ref(gr.vecs);
            refs(a.as, gr.as, from);
            for (auto n = t.below(3); n; --n) a.bm[key()] = ref(gr.bs);
            switch (t.below(4)) {
            case 1: a.var = ref(gr.as, from); break;
            case 2: a.var = ref(gr.strs); break;
            case 3: a.var = ref(gr.leafs); break;
            default:;
            }
            if (t.chance(1, 4)) {
                a.own = std::make_unique<B>();
                a.own->mark = gr.mark();
                fillB(*a.own, 0, true);
                if (dag) { a.own->self = ref(gr.bs); }
            }
            for (auto n = t.below(3); n; --n) a.um[key()] = ref(gr.leafs);
            a.pr = { ref(gr.bs), ref(gr.as, from) };
            if (t.below(2)) a.opt = ref(gr.leafs);
            if (!dag) a.pp = ref(gr.pps);
            for (auto n = t.below(3); n; --n) a.mm.emplace(static_cast<std::int32_t>(t.below(3)), ref(gr.ds));
        }
        for (std::size_t i = 0; i < gr.bs.size(); ++i) {
            if (std::any_of(gr.ds.begin(), gr.ds.end(), [&](const auto &d) { return static_cast<B *>(d.get()) == gr.bs[i].get(); })) continue;
            fillB(*gr.bs[i], i, false);
        }
        for (std::size_t i = 0; i < gr.ds.size(); ++i) {
            fillB(*gr.ds[i], i, true);
            // in a DAG a D is referred to by A and roots only and its B part must not refer back to it
            if (dag) { gr.ds[i]->base = nullptr; } else gr.ds[i]->base = ref(gr.bs);
        }
        for (auto &v : gr.vecs) refs(*v, gr.as);
        for (auto &p : gr.pps) if (!*p) *p = ref(gr.bs);
    }
    void root(Root &r)
    {
        r.a1 = ref(gr.as);
        r.a2 = ref(gr.as);
        r.b = ref(gr.bs);
        refs(r.ds, gr.ds);
        for (auto &l : r.leafs) l = ref(gr.leafs);
        r.str = ref(gr.strs);
        refs(r.nums, gr.nums);
    }
};

std::size_t countOf(const std::string &haystack, const std::string &needle)
{
    std::size_t n = 0;
    for (auto p = haystack.find(needle); p != std::string::npos; p = haystack.find(needle, p + 1)) ++n;
    return n;
}
std::string be(std::uint64_t v)
{
    std::string s;
    for (int i = 56; i >= 0; i -= 8) s += static_cast<char>(v >> i);
    return s;
}
struct Collect {
    std::set<std::pair<const void *, std::type_index>> seen;
    std::vector<std::shared_ptr<void>> keep;
    std::vector<std::function<void()>> clear;
    void walk(std::uint64_t) {}
    void walk(std::int32_t) {}
    void walk(const std::string &) {}
    void walk(std::monostate) {}
    template <class X, class Y> void walk(std::pair<X, Y> &p) { walk(p.first); walk(p.second); }
    template <class X, class Y> void walk(std::pair<const X, Y> &p) { walk(p.second); }
    template <class T> void walk(std::optional<T> &o) { if (o) walk(*o); }
    template <class... T> void walk(std::variant<T...> &v) { std::visit([this](auto &x) { walk(x); }, v); }
    template <class T> void walk(std::unique_ptr<T> &p) { if (p) walk(*p); }
    template <class T> void walk(std::shared_ptr<T> &p)
    {
        if (!p || !seen.insert({ p.get(), typeid(T) }).second) return;
        keep.push_back(p);
        T *const raw = p.get();
        walk(*raw);
        if constexpr (g::isNode<T>) clear.push_back([raw] { Graph::clearNode(*raw); });
        else clear.push_back([raw] { *raw = T(); });
    }
    template <class T> auto walk(T &t) -> std::enable_if_t<g::isNode<T>>
    {
        const auto f = [this](const char *, auto &m) { walk(m); };
        if constexpr (std::is_same_v<T, Root>) Root::eachBin(t, f); else T::each(t, f);
    }
    template <class T> auto walk(T &t) -> decltype(t.begin(), std::enable_if_t<!g::isNode<T> && !std::is_same_v<T, std::string>>()) { for (auto &e : t) walk(e); }
};
void clearRead(std::vector<Root> &roots)
{ // break cycles among restored objects
    Collect c;
    for (auto &r : roots) c.walk(r);
    for (auto &f : c.clear) f();
}

void identity(Tape &t, Ctx &c)
{
    std::unique_ptr<Arena> arena;
    if (!t.chance(1, 4)) arena = std::make_unique<Arena>();
    Graph gr;
    std::vector<Root> roots(1 + t.below(3));
    { Builder b{ t, arena.get(), gr, false, {}, 0 }; b.nodes(); b.edges(); for (auto &r : roots) b.root(r); }
    // write with one or several serializers
    std::vector<bool> next(roots.size());
    for (std::size_t i = 1; i < roots.size(); ++i) next[i] = t.below(2);
    const bool viaMember = t.below(2);
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    std::vector<std::string> expected;
    std::string shown;
    std::size_t repeated = 0, objects = 0, aliases = 0;
    for (std::size_t i = 0; i < roots.size();) {
        auto e = i + 1;
        while (e < roots.size() && !next[e]) ++e;
        const auto before = static_cast<std::size_t>(s.tellp());
        if (e == i + 1 && viaMember) static_cast<const rr::BinarySerializable<Root> &>(roots[i]).toBinary(s);
        else {
            br::BinarySerializer ser(&s);
            for (auto k = i; k < e; ++k) ser.write(roots[k]);
        }
        const auto bytes = s.str().substr(before);
        Walker w;
        for (auto k = i; k < e; ++k) w.walk(roots[k]);
        expected.push_back(w.out);
        shown += w.out + " || ";
        repeated += w.repeated;
        objects += w.objects;
        for (const auto &a : w.types) aliases += a.second.size() > 1;
        c.describe(shown);
        for (auto m = w.marks.begin(); m != w.marks.end(); m = w.marks.upper_bound(*m)) {
            const auto n = countOf(bytes, be(*m));
            PBT_CHECK(n == w.marks.count(*m), "times-written", "object with mark " + std::to_string(*m) + " written " + std::to_string(n) + " times instead of " + std::to_string(w.marks.count(*m)));
        }
        for (const auto &str : gr.strs) {
            const bool reached = w.known.count({ str.get(), typeid(std::string) });
            PBT_CHECK(countOf(bytes, *str) == reached, "times-written", "string " + *str + " written " + std::to_string(countOf(bytes, *str)) + " times instead of " + std::to_string(reached));
        }
        i = e;
    }
    c.nontrivial = repeated > 0;
    c.identify(shown);
    if (arena) c.label("chosen addresses");
    if (aliases) c.label("objects of different types at the same address");
    if (repeated) c.label("shared objects");
    const auto total = s.str();
    s.seekg(0);
    std::vector<Root> result(roots.size());
    std::size_t group = 0;
    std::set<const void *> earlier; // objects restored by previous deserializers
    for (std::size_t i = 0; i < roots.size(); ++group) {
        auto e = i + 1;
        while (e < roots.size() && !next[e]) ++e;
        if (e == i + 1 && viaMember) static_cast<rr::BinarySerializable<Root> &>(result[i]).restoreFromBinary(s);
        else {
            br::BinaryDeserializer des(&s);
            for (auto k = i; k < e; ++k) des.read(result[k]);
        }
        Walker w;
        for (auto k = i; k < e; ++k) w.walk(result[k]);
        PBT_CHECK(w.out == expected[group], "identity", "restored " + w.out + "\nexpected " + expected[group]);
        for (const auto *a : w.addresses) PBT_CHECK(!earlier.count(a), "independent", "object shared between different deserializers");
        earlier.insert(w.addresses.begin(), w.addresses.end());
        i = e;
    }
    PBT_CHECK(static_cast<std::size_t>(s.tellg()) == total.size(), "position", "data not read completely");
    clearRead(result);
}

void copies(Tape &t, Ctx &c)
{
    std::unique_ptr<Arena> arena;
    if (t.chance(1, 4)) arena = std::make_unique<Arena>();
    Graph gr;
    Root root;
    { Builder b{ t, arena.get(), gr, true, {}, 0 }; b.nodes(); b.edges(); b.root(root); }
    Walker tree;
    tree.identity = false;
    tree.json = true;
    tree.limit = 1500;
    tree.walk(root);
    if (tree.objects > tree.limit) { c.label("too many paths"); return; }
    Walker ident;
    ident.json = true;
    ident.walk(root);
    c.nontrivial = ident.repeated > 0;
    c.identify(tree.out + ident.out);
    c.describe(ident.out);
    c.label(ident.repeated ? "JSON, shared" : "JSON, nothing shared");
    const bool viaFree = t.below(2);
    const auto buffer = viaFree ? rr::JsonReflector::toJson(root) : static_cast<const rr::JsonSerializable<Root> &>(root).toJson();
    const std::string text(buffer.GetString(), buffer.GetSize());
    for (auto m = tree.marks.begin(); m != tree.marks.end(); m = tree.marks.upper_bound(*m)) {
        auto n = countOf(text, std::to_string(*m));
        PBT_CHECK(n == tree.marks.count(*m), "times-written", "mark " + std::to_string(*m) + " found " + std::to_string(n) + " times in JSON instead of " + std::to_string(tree.marks.count(*m)));
    }
    rr::JsonDeserializationErrors errors;
    Root result = viaFree ? rr::JsonReflector::fromJson<Root>(text.data(), text.size(), &errors) : rr::JsonSerializable<Root>::fromJson(text, &errors);
    PBT_CHECK(errors.empty(), "errors", "errors when restoring");
    Walker back;
    back.identity = false;
    back.json = true;
    back.walk(result);
    PBT_CHECK(back.out == tree.out, "json-value", "restored " + back.out + "\nexpected " + tree.out);
    std::set<const void *> distinct(back.addresses.begin(), back.addresses.end());
    PBT_CHECK(distinct.size() == back.addresses.size(), "json-shared", "objects restored from JSON are shared: " + std::to_string(distinct.size()) + " objects for " + std::to_string(back.addresses.size()) + " references");
}

/// Long chains, rings and fans with many objects.
void big(Tape &t, Ctx &c)
{
    Graph gr;
    const auto n = 2 + t.below(400);
    for (std::uint64_t i = 0; i < n; ++i) { gr.as.push_back(std::make_shared<A>()); gr.as.back()->leaf.mark = gr.mark(); }
    const auto shape = t.below(4);
    for (std::uint64_t i = 0; i < n; ++i) {
        auto &a = *gr.as[i];
        switch (shape) {
        case 0: a.next = gr.as[(i + 1) % n]; break;
        case 1: if (i + 1 < n) { a.next = gr.as[i + 1]; gr.as[i + 1]->as.push_back(gr.as[i]); } break;
        case 2: if (!i) a.as = gr.as; else a.next = gr.as[t.below(n)]; break;
        default: for (auto k = t.below(3); k; --k) a.as.push_back(gr.as[t.below(n)]); a.next = gr.as[t.below(n)];
        }
    }
    std::vector<Root> roots(1), result(1);
    roots[0].a1 = gr.as[0];
    roots[0].a2 = gr.as[t.below(n)];
    Walker w;
    w.walk(roots[0]);
    c.nontrivial = w.repeated > 0;
    c.identify(w.out);
    c.label("big");
    c.describe("shape " + std::to_string(shape) + " of " + std::to_string(n) + " objects");
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    br::BinarySerializer(&s).write(roots[0]);
    const auto bytes = s.str();
    for (const auto m : w.marks) PBT_CHECK(countOf(bytes, be(m)) == 1, "times-written", "object not written exactly once");
    br::BinaryDeserializer(&s).read(result[0]);
    Walker b;
    b.walk(result[0]);
    PBT_CHECK(b.out == w.out, "identity", "restored graph differs");
    clearRead(result);
}
const pbt::Register r1("graph-binary", 24, &identity), r2("graph-json", 12, &copies), r3("graph-big", 1, &big);
} // namespace
