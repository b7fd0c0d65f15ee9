// Types with custom (de)serialization as users would implement it (see README, "Custom (de)serialization"), and models of it.
#ifndef CUSTOM_TYPES_H
#define CUSTOM_TYPES_H
#include <reflective_rapidjson/binary/reflector.h>
#include <reflective_rapidjson/json/reflector.h>

#include "ops.h"

namespace custom {
struct Hex { // JSON: string with hexadecimal digits, binary: three bytes
    std::uint32_t value = 0;
    bool operator<(const Hex &o) const { return value < o.value; }
    bool operator==(const Hex &o) const { return value == o.value; }
};
struct Point { // JSON: array with two elements, binary: members in other order
    double x = 0;
    int y = 0;
    bool operator<(const Point &o) const { return x < o.x || (x == o.x && y < o.y); }
    bool operator==(const Point &o) const { return x == o.x && y == o.y; }
};
struct Label { // JSON: plain string or null if unset, binary: presence and text
    bool set = false;
    std::string text;
    bool operator<(const Label &o) const { return set < o.set || (set == o.set && text < o.text); }
    bool operator==(const Label &o) const { return set == o.set && text == o.text; }
};
inline std::string hexText(std::uint32_t v)
{
    char buf[16];
    std::snprintf(buf, sizeof buf, "%X", v);
    return buf;
}
inline bool hexValue(const char *s, std::size_t n, std::uint32_t &out)
{
    if (!n || n > 6) return false;
    std::uint32_t v = 0;
    for (; n; ++s, --n) {
        const char *const digits = "0123456789ABCDEF", *const d = *s ? std::strchr(digits, *s) : nullptr;
        if (!d) return false;
        v = v * 16 + static_cast<std::uint32_t>(d - digits);
    }
    out = v;
    return true;
}
} // namespace custom
template <> struct std::hash<custom::Hex> {
    std::size_t operator()(const custom::Hex &h) const { return h.value % 7; }
};

namespace ReflectiveRapidJSON {
namespace JsonReflector {
template <> inline void push<custom::Hex>(const custom::Hex &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
{
    const auto s = custom::hexText(reflectable.value);
    value.SetString(s.data(), rapidJsonSize(s.size()), allocator);
}
template <> inline void pull<custom::Hex>(custom::Hex &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
{
    if (!value.IsString()) {
        if (errors) errors->reportTypeMismatch<std::string>(value.GetType());
    } else if (!custom::hexValue(value.GetString(), value.GetStringLength(), reflectable.value)) {
        if (errors) errors->reportConversionError(JsonType::String);
    }
}
template <> inline void push<custom::Point>(const custom::Point &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
{
    value.SetArray();
    auto array = value.GetArray();
    push(reflectable.x, array, allocator);
    push(reflectable.y, array, allocator);
}
template <> inline void pull<custom::Point>(custom::Point &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
{
    if (!value.IsArray()) {
        if (errors) errors->reportTypeMismatch<std::vector<double>>(value.GetType());
        return;
    }
    const auto array = value.GetArray();
    if (array.Size() != 2) {
        if (errors) errors->reportArraySizeMismatch();
        return;
    }
    pull(reflectable.x, array[0], errors);
    pull(reflectable.y, array[1], errors);
}
template <> inline void push<custom::Label>(const custom::Label &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
{
    if (reflectable.set) push(reflectable.text, value, allocator);
    else value.SetNull();
}
template <> inline void pull<custom::Label>(custom::Label &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
{
    if ((reflectable.set = !value.IsNull())) pull(reflectable.text, value, errors);
    else reflectable.text.clear();
}
} // namespace JsonReflector
namespace BinaryReflector {
template <> inline void writeCustomType<custom::Hex>(BinarySerializer &serializer, const custom::Hex &h, BinaryVersion)
{
    serializer.writeUInt24BE(h.value);
}
template <> inline BinaryVersion readCustomType<custom::Hex>(BinaryDeserializer &deserializer, custom::Hex &h, BinaryVersion)
{
    h.value = deserializer.readUInt24BE();
    return 0;
}
template <> inline void writeCustomType<custom::Point>(BinarySerializer &serializer, const custom::Point &p, BinaryVersion version)
{
    serializer.write(static_cast<std::int32_t>(p.y), version);
    serializer.write(p.x, version);
}
template <> inline BinaryVersion readCustomType<custom::Point>(BinaryDeserializer &deserializer, custom::Point &p, BinaryVersion version)
{
    std::int32_t y;
    deserializer.read(y, version);
    deserializer.read(p.x, version);
    p.y = y;
    return 0;
}
template <> inline void writeCustomType<custom::Label>(BinarySerializer &serializer, const custom::Label &l, BinaryVersion)
{
    serializer.write(l.set);
    if (l.set) serializer.write(l.text);
}
template <> inline BinaryVersion readCustomType<custom::Label>(BinaryDeserializer &deserializer, custom::Label &l, BinaryVersion)
{
    deserializer.read(l.set);
    if (l.set) deserializer.read(l.text);
    else l.text.clear();
    return 0;
}
} // namespace BinaryReflector
} // namespace ReflectiveRapidJSON

namespace ops {
template <> struct CustomOps<custom::Hex> {
    using T = custom::Hex;
    static constexpr bool is = true;
    static T gen(Tape &t) { T v; v.value = static_cast<std::uint32_t>(t.below(3) ? t.below(20) : t.below(1u << 24)); return v; }
    static std::string canon(const T &v) { return "hex:" + std::to_string(v.value); }
    static std::size_t substance(const T &v) { return v.value != 0; }
    static JV json(const T &v) { return JV::str(custom::hexText(v.value)); }
    static void pull(T &out, const JV &j, Errs &e)
    {
        if (j.kind != JV::Str) e.add(EK::TypeMismatch, JT::String, jt(j));
        else if (!custom::hexValue(j.s.data(), j.s.size(), out.value)) e.add(EK::ConversionError, JT::String, JT::String);
    }
    static void write(const T &v, BinOut &o) { o.be(v.value, 3); }
    static void read(T &v, ReadCtx &r) { v.value = static_cast<std::uint32_t>(r.in.be(3)); }
};
template <> struct CustomOps<custom::Point> {
    using T = custom::Point;
    static constexpr bool is = true;
    static T gen(Tape &t) { T v; v.x = ops::gen<double>(t); v.y = ops::gen<int>(t); return v; }
    static std::string canon(const T &v) { return "point:" + ops::canon(v.x) + ',' + ops::canon(v.y); }
    static std::size_t substance(const T &v) { return (v.x != 0) + (v.y != 0); }
    static JV json(const T &v) { JV r = JV::arr(); r.a = { refJson(v.x), refJson(v.y) }; return r; }
    static void pull(T &out, const JV &j, Errs &e)
    {
        if (j.kind != JV::Arr) e.add(EK::TypeMismatch, JT::Array, jt(j));
        else if (j.a.size() != 2) e.add(EK::ArraySizeMismatch, JT::Array, JT::Array);
        else { refPull(out.x, j.a[0], e); refPull(out.y, j.a[1], e); }
    }
    static void write(const T &v, BinOut &o) { refWrite(static_cast<std::int32_t>(v.y), o); refWrite(v.x, o); }
    static void read(T &v, ReadCtx &r) { std::int32_t y; refRead(y, r); refRead(v.x, r); v.y = y; }
};
template <> struct CustomOps<custom::Label> {
    using T = custom::Label;
    static constexpr bool is = true;
    static T gen(Tape &t) { T v; if ((v.set = t.below(3) != 0)) v.text = ops::gen<std::string>(t); return v; }
    static std::string canon(const T &v) { return v.set ? "label:" + ops::canon(v.text) : "no label" + ops::canon(v.text); }
    static std::size_t substance(const T &v) { return v.set; }
    static JV json(const T &v) { return v.set ? JV::str(v.text) : JV(); }
    static void pull(T &out, const JV &j, Errs &e)
    {
        if ((out.set = j.kind != JV::Null)) refPull(out.text, j, e); else out.text.clear();
    }
    static void write(const T &v, BinOut &o) { refWrite(v.set, o); if (v.set) refWrite(v.text, o); }
    static void read(T &v, ReadCtx &r) { refRead(v.set, r); if (v.set) refRead(v.text, r); else v.text.clear(); }
};
} // namespace ops
#endif
