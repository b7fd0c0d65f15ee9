// C23: failing allocations and streams propagate as they are and leave nothing behind
#include "bin_common.h"
#include "perturb.h"

#include <sanitizer/allocator_interface.h>
#include <streambuf>

struct StreamFault { // what the streams below throw
    std::uint64_t id;
};
enum class FaultKind { None, End, Throw };
/// A stream buffer which cannot be sought, accepts/delivers portions of arbitrary sizes and fails at a certain position.
class FaultyBuf : public std::streambuf {
public:
    FaultyBuf(std::string &data, std::uint64_t seed, FaultKind kind = FaultKind::None, std::size_t at = 0, bool bulk = true)
        : m_data(data), m_rng(seed), m_kind(kind), m_at(at), m_bulk(bulk)
    {
    }
    std::size_t consumed() const { return m_pos - static_cast<std::size_t>(egptr() - gptr()); }
    void recover() { m_kind = FaultKind::None; }
    static constexpr std::uint64_t faultId = 0x5eed;

protected:
    std::streambuf::int_type underflow() override
    {
        const auto end = m_kind == FaultKind::None ? m_data.size() : std::min(m_at, m_data.size());
        if (m_pos >= end) {
            if (m_kind == FaultKind::Throw) throw StreamFault{ faultId };
            return traits_type::eof();
        }
        const auto n = std::min<std::size_t>(end - m_pos, 1 + next() % (next() % 4 ? 5 : 200));
        setg(m_data.data() + m_pos, m_data.data() + m_pos, m_data.data() + m_pos + n);
        m_pos += n;
        return traits_type::to_int_type(*gptr());
    }
    std::streambuf::int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        if (full(1)) return traits_type::eof();
        m_data += traits_type::to_char_type(c);
        return c;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        if (!m_bulk) return std::streambuf::xsputn(s, n);
        if (m_kind == FaultKind::End && m_data.size() + static_cast<std::size_t>(n) > m_at) n = static_cast<std::streamsize>(m_at > m_data.size() ? m_at - m_data.size() : 0);
        if (m_kind == FaultKind::Throw && m_data.size() + static_cast<std::size_t>(n) > m_at) {
            if (m_at > m_data.size()) m_data.append(s, m_at - m_data.size());
            throw StreamFault{ faultId };
        }
        m_data.append(s, static_cast<std::size_t>(n));
        return n;
    }

private:
    bool full(std::size_t n)
    {
        if (m_kind == FaultKind::None || m_data.size() + n <= m_at) return false;
        if (m_kind == FaultKind::Throw) throw StreamFault{ faultId };
        return true;
    }
    std::uint64_t next() { return (m_rng = m_rng * 6364136223846793005ull + 1442695040888963407ull) >> 33; }

    std::string &m_data;
    std::uint64_t m_rng;
    FaultKind m_kind;
    std::size_t m_at, m_pos = 0;
    bool m_bulk;
};
inline void throwing(std::ios &s) { s.exceptions(std::ios_base::failbit | std::ios_base::badbit); }

/// Runs what \a make returns with allocations failing at various points.
/// The returned objects do: act() - the operation, the only part in which allocations fail; verify(failed) - checks the outcome.
template <class Make> void failAllocations(Tape &t, Ctx &c, const std::string &what, Make make)
{
    std::size_t count = 0;
    for (int i = 0; i < 2; ++i) {
        auto o = make();
        {
            pbt::AllocFault f(0);
            o->act();
            count = f.count();
        }
        o->verify(false);
    }
    c.label("allocations: " + what + (count == 0 ? " none" : count < 10 ? " few" : count < 100 ? " tens" : " plenty"));
    if (!count) return;
    for (auto attempts = count < 4 ? count : 2 + t.below(8); attempts; --attempts) {
        const auto k = 1 + t.below(count);
        const auto persistent = t.chance(1, 3);
        const auto where = what + ", allocation " + std::to_string(k) + " of " + std::to_string(count) + (persistent ? " and all following ones failing" : " failing");
        const auto before = __sanitizer_get_current_allocated_bytes();
        {
            auto o = make();
            bool failed = false, fired;
            {
                pbt::AllocFault f(k, persistent);
                try {
                    o->act();
                } catch (const std::bad_alloc &) {
                    failed = true;
                }
                fired = f.fired();
            }
            PBT_CHECK(!fired || failed, "swallowed", where + ": no exception");
            PBT_CHECK(fired || !failed, "exception", where + ": failed although there was no failing allocation");
            try {
                o->verify(failed);
            } catch (pbt::Violation &v) {
                v.msg = where + ": " + v.msg;
                throw;
            }
        }
        const auto after = __sanitizer_get_current_allocated_bytes();
        PBT_CHECK(after == before, "leak", where + ": " + std::to_string(static_cast<std::ptrdiff_t>(after - before)) + " bytes not freed");
        c.nontrivial = true;
    }
}
/// Returns the number of bytes \a f does not free.
template <class F> std::ptrdiff_t leaked(F f)
{
    f(); // something might be allocated only once
    const auto before = __sanitizer_get_current_allocated_bytes();
    f();
    return static_cast<std::ptrdiff_t>(__sanitizer_get_current_allocated_bytes() - before);
}

template <class T, class Info> struct C23 {
    const T &v, &other;
    JV json;
    std::string canonical, referenceText, ownText;

    static void copy(T &out, const T &in)
    {
        ops::CloneCtx ctx;
        ops::cloneInto(out, in, ctx);
    }

    struct Serialize { // to JSON
        const C23 &x;
        std::uint64_t how;
        std::string text;
        rj::StringBuffer buffer;
        rj::Document doc;
        bool viaDoc = false;
        Serialize(const C23 &x, std::uint64_t how) : x(x), how(how) {}
        void act()
        {
            if constexpr (Info::crtp) {
                if (how == 1) { buffer = static_cast<const rr::JsonSerializable<T> &>(x.v).toJson(); return; }
            }
            if (how == 2) { doc = jr::toJsonDocument<T>(x.v); viaDoc = true; }
            else buffer = jr::toJson(x.v);
        }
        void verify(bool failed)
        {
            PBT_CHECK(ops::canon(x.v) == x.canonical, "modified", "serialized value changed");
            if (failed) return;
            const auto text = viaDoc ? textOf(jr::serializeJsonDocToString(doc)) : textOf(buffer);
            PBT_CHECK(text == x.ownText, "text", "text: " + quote(text) + " expected: " + quote(x.ownText));
        }
    };
    struct Pull { // from JSON
        const C23 &x;
        const std::string &text;
        const ops::Errs &expectedErrors;
        const std::string &expected;
        bool used, collect;
        T out = T();
        std::optional<T> returned;
        rr::JsonDeserializationErrors errors;
        rj::Document doc;
        Pull(const C23 &x, const std::string &text, const ops::Errs &ee, const std::string &expected, bool used, bool collect)
            : x(x), text(text), expectedErrors(ee), expected(expected), used(used), collect(collect)
        {
            if (!used) return;
            copy(out, x.other);
            doc = jr::parseJsonDocFromString(text.data(), text.size());
        }
        void act()
        {
            if (used) jr::pull(out, static_cast<const rj::Value &>(doc), collect ? &errors : nullptr);
            else returned.emplace(jr::fromJson<T>(text.data(), text.size(), collect ? &errors : nullptr));
        }
        void verify(bool failed)
        {
            const auto got = errList(errors);
            if (!collect) PBT_CHECK(got.empty(), "errors", got);
            else if (failed) {
                ops::Errs prefix;
                for (const auto &e : expectedErrors.list) { if (prefix.list.size() < errors.size()) prefix.list.push_back(e); }
                PBT_CHECK(errList(prefix.list) == got, "errors", "errors: " + got + " expected a prefix of: " + errList(expectedErrors.list));
            } else
                PBT_CHECK(got == errList(expectedErrors.list), "errors", "errors: " + got + " expected: " + errList(expectedErrors.list));
            if (!failed) {
                const auto &result = used ? out : *returned;
                PBT_CHECK(ops::canon(result) == expected, "value", "value: " + quote(ops::canon(result)) + " expected: " + quote(expected));
            } else if (used) { // the object may have any contents but still be usable
                rr::JsonDeserializationErrors none;
                const auto complete = jr::parseJsonDocFromString(x.referenceText.data(), x.referenceText.size());
                jr::pull(out, static_cast<const rj::Value &>(complete), &none);
                PBT_CHECK(none.empty() && ops::canon(out) == x.canonical, "reuse", "read again: " + quote(ops::canon(out)) + " errors: " + errList(none) + " expected: " + quote(x.canonical));
            }
        }
    };
    struct Write { // binary
        const C23 &x;
        const std::string &expected;
        bool viaMember;
        BinStream s;
        Write(const C23 &x, const std::string &expected, bool viaMember) : x(x), expected(expected), viaMember(viaMember) {}
        void act() { writeBin<T, Info>(s, x.v, viaMember); }
        void verify(bool failed)
        {
            PBT_CHECK(ops::canon(x.v) == x.canonical, "modified", "serialized value changed");
            if (failed) {
                s.clear();
                s.str(std::string());
                writeBin<T, Info>(s, x.v, viaMember);
            }
            PBT_CHECK(s.str() == expected, failed ? "reuse" : "bytes", "bytes: " + hex(s.str()) + " expected: " + hex(expected));
        }
    };
    struct Read { // binary
        const C23 &x;
        const std::string &bytes;
        bool used, viaMember;
        T out = T();
        BinStream s;
        Read(const C23 &x, const std::string &bytes, bool used, bool viaMember) : x(x), bytes(bytes), used(used), viaMember(viaMember), s(bytes)
        {
            if (used) copy(out, x.other);
        }
        void act() { readBin<T, Info>(s, out, viaMember); }
        void verify(bool failed)
        {
            if (failed) {
                BinStream again(bytes);
                readBin<T, Info>(again, out, viaMember);
            }
            PBT_CHECK(ops::canon(out) == x.canonical, failed ? "reuse" : "value", "value: " + quote(ops::canon(out)) + " expected: " + quote(x.canonical));
        }
    };
};

/// Whether values of the type may contain an std::variant with a string alternative: libstdc++ 13 considers such a variant never to be
/// without value and thus destroys an alternative which does not exist when copying the string fails.
inline unsigned fragileWalk = 0;
template <class T> bool fragile();
template <class T, std::size_t... I> bool fragileVariant(std::index_sequence<I...>)
{
    return (std::is_same_v<std::variant_alternative_t<I, T>, std::string> || ...) || (fragile<std::variant_alternative_t<I, T>>() || ...);
}
template <class T, std::size_t... I> bool fragileTuple(std::index_sequence<I...>) { return (fragile<std::decay_t<std::tuple_element_t<I, T>>>() || ...); }
template <class T> bool fragile()
{
    using namespace ops;
    static bool known = false;
    static unsigned seen = 0;
    if (known || seen == fragileWalk) return known;
    seen = fragileWalk;
    constexpr Cat c = cat<T>;
    bool r = false;
    if constexpr (c == Cat::Seq) r = fragile<std::decay_t<typename T::value_type>>();
    else if constexpr (c == Cat::Map || c == Cat::MMap) r = fragile<std::decay_t<typename T::mapped_type>>();
    else if constexpr (c == Cat::Pair || c == Cat::Tuple) r = fragileTuple<T>(std::make_index_sequence<std::tuple_size_v<T>>());
    else if constexpr (c == Cat::Uniq || c == Cat::Shared) r = fragile<std::decay_t<typename T::element_type>>();
    else if constexpr (c == Cat::Opt) r = fragile<std::decay_t<typename T::value_type>>();
    else if constexpr (c == Cat::Variant) r = fragileVariant<T>(std::make_index_sequence<std::variant_size_v<T>>());
    else if constexpr (c == Cat::Struct) StructInfo<T>::each([&](const char *, const char *, auto mp) { r |= fragile<std::remove_cv_t<typename MemberOf<decltype(mp)>::Type>>(); });
    return known = r;
}
template <class T, class Info> void c23(Tape &t, Ctx &c, const char *name)
{
    using namespace ops;
    cfg().sharing = t.below(2);
    const auto v = genValue<T>(t);
    T other = genValue<T>(t);
    C23<T, Info> x{ v, other, refJson(v), canon(v), {}, textOf(jr::toJson(v)) };
    dump(x.json, x.referenceText);
    c.identify(name);
    c.identify(x.canonical);
    auto route = t.below(8);
    if ((route == 1 || route == 2 || route == 4) && (++fragileWalk, fragile<T>())) route += 5;
    const auto viaMember = t.below(2) != 0;
    c.describe(std::string(name) + " route " + std::to_string(route) + " value: " + quote(x.canonical));
    switch (route) {
    case 0: {
        c.label("allocation: to JSON");
        const auto how = t.below(3);
        failAllocations(t, c, "to JSON", [&] { return std::make_unique<typename C23<T, Info>::Serialize>(x, how); });
        break;
    }
    case 1:
    case 2: {
        c.label("allocation: from JSON");
        auto j = x.json;
        for (auto n = t.below(4); n; --n) deviate(j, t);
        std::string text;
        dumpStyled(j, text, t);
        c.identify(text);
        const auto used = t.below(2) != 0, collect = t.below(4) != 0;
        T e = T();
        if (used) C23<T, Info>::copy(e, other);
        Errs expectedErrors;
        refPull(e, j, expectedErrors);
        const auto expected = canon(e);
        c.describe(std::string(name) + (used ? " into used object " : " ") + "text: " + quote(text));
        failAllocations(t, c, "from JSON", [&] { return std::make_unique<typename C23<T, Info>::Pull>(x, text, expectedErrors, expected, used, collect); });
        break;
    }
    case 3: {
        c.label("allocation: writing");
        BinStream s;
        writeBin<T, Info>(s, v, viaMember);
        const auto bytes = s.str();
        failAllocations(t, c, "writing", [&] { return std::make_unique<typename C23<T, Info>::Write>(x, bytes, viaMember); });
        break;
    }
    case 4: {
        c.label("allocation: reading");
        BinStream s;
        writeBin<T, Info>(s, v, viaMember);
        const auto bytes = s.str();
        const auto used = t.below(2) != 0;
        failAllocations(t, c, "reading", [&] { return std::make_unique<typename C23<T, Info>::Read>(x, bytes, used, viaMember); });
        break;
    }
    case 5: { // texts leading to exceptions
        auto j = x.json;
        for (auto n = t.below(4); n; --n) deviate(j, t);
        std::string text;
        dumpStyled(j, text, t);
        const auto malformed = t.below(2) != 0;
        if (malformed) text.resize(t.below(text.size()));
        c.identify(text);
        c.describe(std::string(name) + (malformed ? " malformed" : " deviating") + " text: " + quote(text));
        c.label(malformed ? "malformed text" : "fatal errors");
        const auto viaReturn = t.below(2) != 0;
        bool thrown = false;
        const auto lost = leaked([&] {
            rr::JsonDeserializationErrors errors;
            if (!malformed) errors.throwOn = rr::JsonDeserializationErrors::ThrowOn::All;
            try {
                if (viaReturn) jr::fromJson<T>(text.data(), text.size(), &errors);
                else {
                    T out = T();
                    C23<T, Info>::copy(out, other);
                    const auto doc = jr::parseJsonDocFromString(text.data(), text.size());
                    jr::pull(out, static_cast<const rj::Value &>(doc), &errors);
                }
            } catch (const rr::JsonDeserializationError &) {
                thrown = true;
            } catch (const rj::ParseResult &) {
                thrown = true;
            }
        });
        c.nontrivial = thrown;
        PBT_CHECK(!lost, "leak", std::to_string(lost) + " bytes not freed, text: " + quote(text));
        break;
    }
    default: { // streams (6 and 9: writing)
        BinStream s;
        writeBin<T, Info>(s, v, viaMember);
        const auto bytes = s.str();
        const auto kind = static_cast<FaultKind>(t.below(3));
        const auto seed = t.below(1 << 20);
        const auto at = kind == FaultKind::None ? 0 : t.below(bytes.size() ? bytes.size() : 1);
        if (bytes.empty()) return;
        c.nontrivial = true;
        c.identify(std::to_string(at));
        const auto desc = std::string(kind == FaultKind::None ? "no failure" : kind == FaultKind::End ? "end" : "exception") + " at byte " + std::to_string(at) + " of " + hex(bytes);
        c.describe(std::string(name) + (route == 6 || route == 9 ? " write, " : " read, ") + desc);
        enum { Fine, End, Own } got = Fine;
        if (route == 6 || route == 9) {
            c.label(kind == FaultKind::None ? "writing to a stream which cannot be sought" : "writing to a failing stream");
            const auto bulk = t.below(2) != 0;
            const auto lost = leaked([&] {
                std::string data;
                FaultyBuf buf(data, seed, kind, at, bulk);
                std::ostream out(&buf);
                throwing(out);
                got = Fine;
                try {
                    writeBin<T, Info>(out, v, viaMember);
                } catch (const std::ios_base::failure &) {
                    got = End;
                } catch (const StreamFault &f) {
                    got = Own;
                    PBT_CHECK(f.id == FaultyBuf::faultId, "exception", "exception of the stream changed");
                }
                if (kind == FaultKind::None) PBT_CHECK(data == bytes, "bytes", "bytes: " + hex(data) + " expected: " + hex(bytes));
                else PBT_CHECK(data.size() <= at && bytes.compare(0, data.size(), data) == 0, "bytes", "bytes: " + hex(data) + " expected a prefix of " + hex(bytes));
                buf.recover();
                out.clear();
                data.clear();
                writeBin<T, Info>(out, v, viaMember);
                PBT_CHECK(data == bytes, "reuse", "bytes: " + hex(data) + " expected: " + hex(bytes));
            });
            PBT_CHECK(!lost, "leak", std::to_string(lost) + " bytes not freed, " + desc);
            PBT_CHECK(canon(v) == x.canonical, "modified", "serialized value changed");
        } else {
            c.label(kind == FaultKind::None ? "reading from a stream which cannot be sought" : "reading from a failing stream");
            const auto used = t.below(2) != 0;
            const auto trailing = t.below(3);
            const auto lost = leaked([&] {
                auto data = bytes + std::string(trailing, '\x81');
                FaultyBuf buf(data, seed, kind, at);
                std::istream in(&buf);
                throwing(in);
                T out = T();
                if (used) C23<T, Info>::copy(out, other);
                got = Fine;
                try {
                    readBin<T, Info>(in, out, viaMember);
                } catch (const std::ios_base::failure &) {
                    got = End;
                } catch (const StreamFault &f) {
                    got = Own;
                    PBT_CHECK(f.id == FaultyBuf::faultId, "exception", "exception of the stream changed");
                }
                if (kind == FaultKind::None) PBT_CHECK(buf.consumed() == bytes.size(), "position", std::to_string(buf.consumed()) + " of " + std::to_string(bytes.size()) + " bytes consumed");
                else {
                    BinStream again(bytes);
                    readBin<T, Info>(again, out, viaMember);
                }
                PBT_CHECK(canon(out) == x.canonical, kind == FaultKind::None ? "value" : "reuse", "value: " + quote(canon(out)) + " expected: " + quote(x.canonical));
            });
            PBT_CHECK(!lost, "leak", std::to_string(lost) + " bytes not freed, " + desc);
        }
        const auto expected = kind == FaultKind::None ? Fine : kind == FaultKind::End ? End : Own;
        static const char *const names[] = { "none", "I/O failure", "exception of the stream" };
        PBT_CHECK(got == expected, "exception", std::string("exception: ") + names[got] + " expected: " + names[expected] + ", " + desc);
    }
    }
}
REGISTER_ALL(c23, Info::json && Info::bin && Info::pull && !Info::hasConst && !Info::serOnly)
