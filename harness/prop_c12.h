// C12: binary versioning reads and writes exactly the members of the version
// C14: generated binary code covers exactly the documented members (used with programs without versions)
#include "bin_common.h"

template <class T> std::string canonOthers(const T &v)
{
    std::string s;
    ops::CanonCtx ctx;
    ops::StructInfo<T>::others([&](const char *, const char *name, auto mp) { s += name; s += '='; ops::canon(v.*mp, s, ctx); s += ';'; });
    ops::StructInfo<T>::each([&](const char *, const char *name, auto mp) {
        if constexpr (std::is_const_v<typename ops::MemberOf<decltype(mp)>::Type>) { s += name; s += '='; ops::canon(v.*mp, s, ctx); s += ';'; }
    });
    return s;
}
template <class T> void genAll(Tape &t, T &v, bool sharing) // incl. members which are not (de)serialized
{
    static const int budgets[] = { 12, 40, 150, 400 };
    auto &c = ops::cfg();
    c.reset(budgets[t.pick({ 40, 40, 17, 3 })]);
    c.sharing = sharing;
    c.nonFinite = true;
    ops::genInto(t, v);
    ops::StructInfo<T>::others([&](const char *, const char *, auto mp) {
        using M = typename ops::MemberOf<decltype(mp)>::Type;
        if constexpr (!std::is_const_v<M>) ops::genInto(t, v.*mp);
    });
}
struct ReadOutcome {
    std::string what, canon;
    std::int64_t consumed = -1;
    std::string str() const { return what + " consumed " + std::to_string(consumed) + " value " + canon; }
};
template <class T> ReadOutcome expectedRead(T &out, const std::string &bytes, std::uint64_t version)
{
    ReadOutcome o;
    ops::ReadCtx r(bytes);
    r.version = version;
    try {
        ops::refRead(out, r);
        o.what = "version " + std::to_string(ops::StructInfo<T>::ownVersion ? r.lastVersion : version);
        o.consumed = static_cast<std::int64_t>(r.in.pos);
        o.canon = ops::canon(out, true);
    } catch (const ops::BadVersion &e) {
        o.what = "version " + std::to_string(e.present) + " not supported (maximum " + std::to_string(e.max) + ") by " + e.record;
    } catch (const model::AmbiguousBinary &) {
        o.what = "?";
    }
    return o;
}
template <class T, class Info> ReadOutcome actualRead(T &out, const std::string &bytes, std::uint64_t version, unsigned how)
{
    ReadOutcome o;
    BinStream in(bytes);
    std::uint64_t v = 0;
    try {
        bool done = false;
        if constexpr (Info::crtp) {
            if (!version && how == 1) { v = static_cast<rr::BinarySerializable<T, Info::ownVersion> &>(out).restoreFromBinary(in); done = true; }
        }
        if (!done && how == 2 && !version) { v = br::BinaryDeserializer(&in).read(out); done = true; }
        if (!done) v = br::BinaryDeserializer(&in).read(out, version);
        o.what = "version " + std::to_string(v);
        o.consumed = in.tellg();
        o.canon = ops::canon(out, true);
    } catch (const rr::BinaryVersionNotSupported &e) {
        o.what = "version " + std::to_string(e.presentVersion) + " not supported (maximum " + std::to_string(e.maxVersion) + ") by " + (e.record ? e.record : "(null)");
    } catch (const CppUtilities::ConversionException &e) {
        o.what = std::string("conversion error: ") + e.what();
    } catch (const std::ios_base::failure &e) {
        o.what = "I/O failure";
    }
    return o;
}
/// Whether data written with an explicit version cannot be told from data written without (see known findings).
template <class T> constexpr bool basesDependOnVersion()
{
    bool r = false;
    ops::StructInfo<T>::eachBase([&](auto *b) {
        using B = std::remove_cv_t<std::remove_pointer_t<decltype(b)>>;
        (void)b;
        if (!ops::StructInfo<B>::ownVersion) r = true; else r = r || basesDependOnVersion<B>();
    });
    return r;
}
constexpr unsigned hashOf(const char *s)
{
    unsigned h = 7;
    for (; *s; ++s) h = h * 31 + static_cast<unsigned char>(*s);
    return h;
}
template <class T, unsigned kind> auto wrapped()
{
    if constexpr (kind == 0) return std::list<T>();
    else if constexpr (kind == 1) return std::map<std::string, T>();
    else if constexpr (kind == 2) return std::multimap<std::string, T>();
    else if constexpr (kind == 3) return std::pair<T, std::string>();
    else if constexpr (kind == 4) return std::unique_ptr<T>();
    else if constexpr (kind == 5) return std::shared_ptr<T>();
    else if constexpr (kind == 6) return std::optional<T>();
    else if constexpr (kind == 7) return std::unordered_map<std::string, T>();
    else return std::variant<std::monostate, T>();
}
/// Objects of classes with versions within containers etc. passed directly.
template <class T, class Info> void c12wrapped(Tape &t, Ctx &c, const char *name)
{
    using namespace ops;
    using W = decltype(wrapped<T, hashOf(__PRETTY_FUNCTION__) % 9>());
    cfg().reset(60);
    cfg().sharing = false;
    cfg().nonFinite = true;
    W v = W(), target = W(), e = W();
    genInto(t, v);
    const auto version = WITH_VERSIONS && t.below(2) ? t.below(9) : 0;
    const bool pass = version || t.below(2);
    const auto before = canon(v, true);
    c.identify(name);
    c.identify(before);
    c.label("not directly");
    c.describe(std::string(name) + " within container or pointer, version " + std::to_string(version) + ": " + quoteBin(before));
    c.nontrivial = substance(v) >= 2;
    BinStream s;
    br::BinarySerializer serializer(&s);
    if (pass) serializer.write(v, version); else serializer.write(v);
    const auto bytes = s.str();
    model::BinOut o;
    try {
        ReadCtx r(bytes);
        r.version = version;
        refRead(e, r);
        o.newId = [&, i = std::size_t()]() mutable { return i < r.idOrder.size() ? r.idOrder[i++] : 1000000 + i++; };
        o.version = version;
        refWrite(v, o);
    } catch (const model::AmbiguousBinary &) {
        return; // maps with NaN
    } catch (const std::exception &x) {
        PBT_CHECK(false, "bytes", "written bytes are invalid: " + hex(bytes) + " " + x.what());
    } catch (const BadVersion &) {
        PBT_CHECK(false, "bytes", "written bytes have wrong version: " + hex(bytes));
    } catch (const model::BadBinary &) {
        PBT_CHECK(false, "bytes", "written bytes are invalid: " + hex(bytes));
    }
    PBT_CHECK(o.bytes == bytes, "bytes", "written:  " + hex(bytes) + "\nexpected: " + hex(o.bytes) + "\nvalue: " + quoteBin(before));
    BinStream in(bytes);
    br::BinaryDeserializer deserializer(&in);
    if (pass) deserializer.read(target, version); else deserializer.read(target);
    PBT_CHECK(canon(target, true) == canon(e, true), "read", "read:     " + quoteBin(canon(target, true)) + "\nexpected: " + quoteBin(canon(e, true)));
    PBT_CHECK(static_cast<std::size_t>(in.tellg()) == bytes.size(), "consumed", "bytes left");
}
template <class T, class Info> void c12(Tape &t, Ctx &c, const char *name)
{
    using namespace ops;
    if constexpr (WITH_VERSIONS && Info::pull && std::is_default_constructible_v<T> && std::is_move_constructible_v<T> && std::is_move_assignable_v<T>) {
        if (t.chance(1, 6)) return c12wrapped<T, Info>(t, c, name);
    }
    // a value and a used object with other contents (made twice)
    T v = Info::make(), target = Info::make(), e = Info::make();
    const bool sharing = t.chance(1, 3);
    genAll(t, v, sharing);
    const auto before = canon(v, true), othersBefore = canonOthers(v);
    // write
    const std::uint64_t explicitVersion = WITH_VERSIONS && t.below(2) ? (t.chance(1, 6) ? t.below(1ull << 50) : t.below(9)) : 0;
    const auto how = t.below(3);
    c.identify(name);
    c.identify(before);
    c.identify(std::to_string(explicitVersion));
    c.describe(std::string(name) + " version " + std::to_string(explicitVersion) + ": " + quoteBin(before));
    BinStream s;
    bool viaMember = false;
    if constexpr (Info::crtp) {
        if (how == 1) { static_cast<const rr::BinarySerializable<T, Info::ownVersion> &>(v).toBinary(s, explicitVersion); viaMember = true; }
        if (how == 2 && !explicitVersion) { static_cast<const rr::BinarySerializable<T, Info::ownVersion> &>(v).toBinary(s); viaMember = true; }
    }
    if (!viaMember) br::BinarySerializer(&s).write(v, explicitVersion);
    const auto bytes = s.str();
    PBT_CHECK(canon(v, true) == before && canonOthers(v) == othersBefore, "modified", "writing modified the value");
    std::vector<std::uint64_t> idOrder;
    {
        ReadCtx r(bytes);
        r.version = explicitVersion;
        T ignored = Info::make();
        try {
            refRead(ignored, r);
        } catch (const BadVersion &) {
        } catch (const model::BadBinary &) {
        } catch (const model::AmbiguousBinary &) {
            return; // not all IDs can be determined
        }
        idOrder = r.idOrder;
        model::BinOut o;
        o.version = explicitVersion;
        std::size_t next = 0;
        o.newId = [&]() -> std::uint64_t { return next < idOrder.size() ? idOrder[next++] : 1000000 + next++; };
        refWrite(v, o);
        if (o.omitted) c.label("members omitted");
        c.nontrivial = substance(v) >= 2;
        PBT_CHECK(o.bytes == bytes, "bytes", "written:  " + hex(bytes) + "\nexpected: " + hex(o.bytes) + "\nvalue: " + quoteBin(before));
    }
    // read it again or data with other versions
    model::BinOut o;
    o.newId = [n = std::uint64_t()]() mutable { return ++n; };
    std::uint64_t readVersion = explicitVersion;
    std::string in;
    const auto mode = WITH_VERSIONS ? t.below(3) : 0;
    if (mode == 0) {
        in = bytes;
        if (!basesDependOnVersion<T>() && Info::ownVersion && t.below(2)) readVersion = 0; // stored in the data
        c.label("same version");
    } else { // every class stored with any (supported) version
        o.version = readVersion = t.below(2) ? 0 : t.below(9);
        std::size_t instance = 0;
        const auto unsupported = mode == 2 ? t.below(4) : ~std::uint64_t();
        o.chooseVersion = [&](std::uint64_t, std::uint64_t own) -> std::uint64_t {
            if (instance++ == unsupported) return t.below(3) ? own + 1 + t.below(3) : own + 1 + t.below(1ull << 52);
            return t.below(3) ? 1 + t.below(own) : own;
        };
        refWrite(v, o);
        in = o.bytes;
        c.label(mode == 2 ? "versions which may be unsupported" : "various versions");
        c.identify(in);
    }
    std::vector<std::uint64_t> choices(t.range(5, 200));
    for (auto &x : choices) x = t.chance(1, 2) ? t.below(1u << 16) : t.below(0);
    Tape t1(choices, nullptr), t2(choices, nullptr);
    if (t.below(3)) { genAll(t1, target, false); genAll(t2, e, false); c.label("used object"); }
    const auto othersTarget = canonOthers(target);
    c.describe(std::string(name) + " reading with version " + std::to_string(readVersion) + " " + hex(in) + " into " + quoteBin(canon(target)));
    if constexpr (Info::pull) {
        const auto expected = expectedRead(e, in, readVersion);
        if (expected.what == "?") return; // possibly sets of or maps with NaN
        const auto actual = actualRead<T, Info>(target, in, readVersion, static_cast<unsigned>(t.below(3)));
        if (expected.canon.empty()) c.label("not supported");
        PBT_CHECK(actual.str() == expected.str(), "read", "read:     " + quoteBin(actual.str()) + "\nexpected: " + quoteBin(expected.str()));
        PBT_CHECK(canonOthers(target) == othersTarget, "others", "members not covered: " + quoteBin(canonOthers(target)) + "\nexpected: " + quoteBin(othersTarget));
    }
}
REGISTER_ALL(c12, Info::bin)
