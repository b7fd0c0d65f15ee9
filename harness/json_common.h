// What the JSON properties have in common.
#ifndef JSON_COMMON_H
#define JSON_COMMON_H
#include <reflective_rapidjson/json/reflector.h>
#include <reflective_rapidjson/json/serializable.h>

#include "ops.h"
#include "register.h"

namespace rr = ReflectiveRapidJSON;
namespace jr = ReflectiveRapidJSON::JsonReflector;
namespace rj = RAPIDJSON_NAMESPACE;
using model::JV;
using pbt::Ctx;
using pbt::Tape;

inline std::string textOf(const rj::StringBuffer &b) { return std::string(b.GetString(), b.GetSize()); }
inline std::string quote(const std::string &s) { return pbt::escape(s.size() > 3000 ? s.substr(0, 3000) + "..." : s); }

inline ops::JT toJt(rr::JsonType t)
{
    switch (t) {
    case rr::JsonType::Null: return ops::JT::Null;
    case rr::JsonType::Number: return ops::JT::Number;
    case rr::JsonType::Bool: return ops::JT::Bool;
    case rr::JsonType::String: return ops::JT::String;
    case rr::JsonType::Array: return ops::JT::Array;
    case rr::JsonType::Object: return ops::JT::Object;
    }
    return ops::JT::Null;
}
inline ops::EK toEk(rr::JsonDeserializationErrorKind k)
{
    using K = rr::JsonDeserializationErrorKind;
    switch (k) {
    case K::TypeMismatch: return ops::EK::TypeMismatch;
    case K::ArraySizeMismatch: return ops::EK::ArraySizeMismatch;
    case K::ConversionError: return ops::EK::ConversionError;
    case K::UnexpectedDuplicate: return ops::EK::UnexpectedDuplicate;
    case K::InvalidVariantObject: return ops::EK::InvalidVariantObject;
    case K::InvalidVariantIndex: return ops::EK::InvalidVariantIndex;
    }
    return static_cast<ops::EK>(99);
}
inline const char *ekName(ops::EK k)
{
    static const char *const n[] = { "type mismatch", "array size mismatch", "conversion error", "unexpected duplicate", "invalid variant object", "invalid variant index" };
    return static_cast<unsigned>(k) < 6 ? n[static_cast<unsigned>(k)] : "unknown kind";
}
inline const char *jtName(ops::JT t)
{
    static const char *const n[] = { "null", "number", "bool", "string", "array", "object" };
    return n[static_cast<unsigned>(t)];
}
/// \a types: whether the JSON types are relevant for the kind of error
inline std::string errText(ops::EK k, ops::JT e, ops::JT a, const std::string &record, bool hasMember, const std::string &member, std::size_t index)
{
    std::string s = ekName(k);
    if (k == ops::EK::TypeMismatch) s += std::string(" expected ") + jtName(e) + " actual " + jtName(a);
    s += " in " + record + "::" + (hasMember ? member : std::string("-"));
    s += index == ops::noIndex ? std::string(" no index") : " index " + std::to_string(index);
    return s;
}
inline std::string errText(const ops::Err &e) { return errText(e.kind, e.expected, e.actual, e.record, e.hasMember, e.member, e.index); }
inline std::string errText(const rr::JsonDeserializationError &e)
{
    return errText(toEk(e.kind), toJt(e.expectedType), toJt(e.actualType), e.record ? e.record : "(null)", e.member != nullptr, e.member ? e.member : "", e.index);
}
template <class L> std::string errList(const L &l)
{
    std::string s;
    for (const auto &e : l) s += errText(e) + "; ";
    return s;
}

/// Whether the JSON library alone restores a number exactly (from the text it writes and from the one the model writes).
inline bool restorable(double d)
{
    const auto parsesAs = [d](const char *text, std::size_t size) {
        rj::Document doc;
        doc.Parse(text, size);
        if (doc.HasParseError() || !doc.IsNumber()) return false;
        const double r = doc.GetDouble();
        return std::memcmp(&r, &d, sizeof d) == 0;
    };
    rj::StringBuffer b;
    rj::Writer<rj::StringBuffer> w(b);
    w.Double(d);
    const auto text = model::dblText(d);
    return parsesAs(b.GetString(), b.GetSize()) && parsesAs(text.data(), text.size());
}
/// Generates a value for the current case (with a budget of elements which makes most values small but some big).
template <class T> T genValue(Tape &t, bool exact = true, bool bulk = false)
{
    static const int budgets[] = { 12, 40, 150, 400 };
    ops::cfg().exact = exact;
    ops::cfg().nonFinite = false;
    ops::cfg().bulk = 0;
    ops::cfg().restorable = &restorable;
    ops::cfg().reset(budgets[t.pick({ 40, 40, 17, 3 })]);
    if (bulk) ops::cfg().planBulk(t);
    if constexpr (std::is_default_constructible_v<T> && ops::cat<T> == ops::Cat::Struct) {
        T v;
        ops::genInto(t, v);
        return v;
    } else
        return ops::gen<T>(t);
}

template <class T, class = void> struct RootKind { // how free functions deal with the type
    static constexpr bool object = jr::IsJsonSerializable<T>::value || rr::IsMapOrHash<T>::value || rr::IsMultiMapOrHash<T>::value;
    static constexpr bool array = rr::IsArray<T>::value;
};
/// Pulls \a value into \a out using the most basic function available for it.
template <class T> void pullValue(T &out, const rj::Value &value, rr::JsonDeserializationErrors *errors) { jr::pull(out, value, errors); }

/// Converts a value of the JSON library to a value of the model.
inline JV toJv(const rj::Value &v)
{
    switch (v.GetType()) {
    case rj::kNullType: return JV();
    case rj::kFalseType: return JV::boolean(false);
    case rj::kTrueType: return JV::boolean(true);
    case rj::kStringType: return JV::str(std::string(v.GetString(), v.GetStringLength()));
    case rj::kNumberType: return v.IsDouble() ? JV::dbl(v.GetDouble()) : v.IsInt64() ? JV::integer(v.GetInt64()) : JV::uinteger(v.GetUint64());
    case rj::kArrayType: {
        JV r = JV::arr();
        for (const auto &e : v.GetArray()) r.a.push_back(toJv(e));
        return r;
    }
    default: {
        JV r = JV::obj();
        for (const auto &m : v.GetObject()) r.o.emplace_back(std::string(m.name.GetString(), m.name.GetStringLength()), toJv(m.value));
        return r;
    }
    }
}
/// A text in a heap buffer of exactly its size so that reading beyond it does not go unnoticed.
struct HeapText {
    std::unique_ptr<char[]> buf;
    std::size_t size;
    explicit HeapText(const std::string &s) : buf(new char[s.size() ? s.size() : 1]), size(s.size()) { std::memcpy(buf.get(), s.data(), size); }
    void destroy() { std::memset(buf.get(), '#', size); buf.reset(); }
};
/// Serializes \a v picking one of the equivalent ways (\a how in [0, 4)).
template <class T, class Info> std::string serializeSomehow(const T &v, std::uint64_t how)
{
    if constexpr (Info::crtp) {
        using S = rr::JsonSerializable<T>;
        switch (how) {
        case 1: return textOf(static_cast<const S &>(v).toJson());
        case 2: { auto d = static_cast<const S &>(v).toJsonDocument(); return textOf(jr::serializeJsonDocToString(d)); }
        default:;
        }
    }
    if (how == 3) { auto d = jr::toJsonDocument<T>(v); return textOf(jr::serializeJsonDocToString(d)); }
    return textOf(jr::toJson(v));
}
/// Writes a JSON value as text using varying whitespace, escapes and notations of numbers.
inline void dumpStyled(const JV &v, std::string &out, Tape &t)
{
    const auto ws = [&] { if (t.chance(1, 6)) { static const char w[] = " \n\t\r"; for (auto n = t.below(3) + 1; n; --n) out += w[t.below(4)]; } };
    const auto str = [&](const std::string &s) {
        if (!t.chance(1, 4)) return model::dumpString(s, out);
        out += '"';
        char buf[8];
        for (unsigned char c : s) {
            if (c < 0x20 || (c < 0x7f && t.chance(1, 3)) || c == '"' || c == '\\') { std::snprintf(buf, sizeof buf, t.below(2) ? "\\u%04x" : "\\u%04X", c); out += buf; }
            else out += static_cast<char>(c);
        }
        out += '"';
    };
    ws();
    switch (v.kind) {
    case JV::Str: str(v.s); break;
    case JV::Arr: {
        out += '[';
        for (std::size_t i = 0; i < v.a.size(); ++i) { if (i) out += ','; dumpStyled(v.a[i], out, t); }
        ws();
        out += ']';
        break;
    }
    case JV::Obj: {
        out += '{';
        for (std::size_t i = 0; i < v.o.size(); ++i) { if (i) out += ','; ws(); str(v.o[i].first); ws(); out += ':'; dumpStyled(v.o[i].second, out, t); }
        ws();
        out += '}';
        break;
    }
    default: model::dump(v, out);
    }
    ws();
}
inline JV junk(Tape &t, int depth = 2)
{
    switch (t.below(depth > 0 ? 16 : 13)) {
    case 0: return JV();
    case 1: return JV::boolean(t.below(2));
    case 2: return JV::integer(t.range(0, 300));
    case 3: return JV::integer(-t.range(1, 300));
    case 4: return JV::uinteger(1ull << t.below(64));
    case 5: return JV::uinteger((1ull << t.below(64)) - 1);
    case 6: return JV::integer(-static_cast<std::int64_t>(1ull << t.below(63)) - static_cast<std::int64_t>(t.below(2) && true));
    case 7: return JV::dbl(static_cast<double>(t.range(-4000, 4000)) / 8);
    case 8: { static const double d[] = { 1e300, -1e300, 1e19, -1e19, 18446744073709551616.0, 9223372036854775808.0, 4294967296.0, -2147483649.0, 255.5, 256.0, -0.5, 0.99, 3.5e38, -128.5, -129.0, 2147483647.5 }; return JV::dbl(d[t.below(16)]); }
    case 9: return JV::str(ops::genString(t));
    case 10: { static const char *const s[] = { "1", "true", "null", "", "0", "[]", "index" }; return JV::str(s[t.below(7)]); }
    case 11: return JV::arr();
    case 12: return JV::obj();
    case 13: { JV r = JV::arr(); for (auto n = t.below(4) + 1; n; --n) r.a.push_back(junk(t, depth - 1)); return r; }
    case 14: { JV r = JV::obj(); for (auto n = t.below(3) + 1; n; --n) r.o.emplace_back(ops::genString(t, true), junk(t, depth - 1)); return r; }
    default: { JV r = JV::obj(); if (t.below(4)) r.o.emplace_back("index", t.below(3) ? JV::integer(t.range(0, 5)) : junk(t, 0)); if (t.below(4)) r.o.emplace_back("data", junk(t, depth - 1)); return r; }
    }
}
inline void collectNodes(JV &j, std::vector<JV *> &nodes)
{
    nodes.push_back(&j);
    for (auto &e : j.a) collectNodes(e, nodes);
    for (auto &m : j.o) collectNodes(m.second, nodes);
}
/// Makes \a j differ at some place.
inline std::string deviate(JV &j, Tape &t)
{
    std::vector<JV *> nodes;
    collectNodes(j, nodes);
    JV &n = *nodes[nodes.size() == 1 ? 0 : t.chance(1, 30) ? 0 : 1 + t.below(nodes.size() - 1)];
    switch (t.below(8)) {
    case 0: if (n.kind == JV::Arr && !n.a.empty()) { n.a.erase(n.a.begin() + static_cast<std::ptrdiff_t>(t.below(n.a.size()))); return "remove element"; } break;
    case 1: if (n.kind == JV::Arr && !n.a.empty()) { const auto c = n.a[t.below(n.a.size())]; n.a.insert(n.a.begin() + static_cast<std::ptrdiff_t>(t.below(n.a.size() + 1)), c); return "duplicate element"; } break;
    case 2: if (n.kind == JV::Arr) { n.a.insert(n.a.begin() + static_cast<std::ptrdiff_t>(t.below(n.a.size() + 1)), junk(t)); return "insert element"; } break;
    case 3: if (n.kind == JV::Obj && !n.o.empty()) { n.o.erase(n.o.begin() + static_cast<std::ptrdiff_t>(t.below(n.o.size()))); return "remove member"; } break;
    case 4: if (n.kind == JV::Obj && !n.o.empty()) { auto &m = n.o[t.below(n.o.size())]; m.second = junk(t); return "replace member"; } break;
    case 5: if (n.kind == JV::Arr && !n.a.empty()) { n.a[t.below(n.a.size())] = junk(t); return "replace element"; } break;
    default:;
    }
    n = junk(t);
    return "replace value";
}
/// The number of nodes of \a j.
inline std::size_t weight(const JV &j)
{
    std::size_t n = 1;
    for (const auto &e : j.a) n += weight(e);
    for (const auto &m : j.o) n += weight(m.second);
    return n;
}
#endif
