// What the binary properties have in common.
#ifndef BIN_COMMON_H
#define BIN_COMMON_H
#include <reflective_rapidjson/binary/reflector.h>
#include <reflective_rapidjson/binary/serializable.h>

#include <c++utilities/conversion/conversionexception.h>

#include "ops.h"
#include "register.h"

#include <sstream>

namespace rr = ReflectiveRapidJSON;
namespace br = ReflectiveRapidJSON::BinaryReflector;
using pbt::Ctx;
using pbt::Tape;

struct BinStream : public std::stringstream {
    BinStream() : std::stringstream(std::ios_base::in | std::ios_base::out | std::ios_base::binary) { exceptions(std::ios_base::failbit | std::ios_base::badbit); }
    explicit BinStream(const std::string &bytes) : std::stringstream(bytes, std::ios_base::in | std::ios_base::out | std::ios_base::binary) { exceptions(std::ios_base::failbit | std::ios_base::badbit); }
};
template <class T, class Info> void writeBin(std::ostream &s, const T &v, bool viaMember)
{
    if constexpr (Info::crtp) {
        if (viaMember) { static_cast<const rr::BinarySerializable<T> &>(v).toBinary(s); return; }
    }
    br::BinarySerializer(&s).write(v);
}
template <class T, class Info> void readBin(std::istream &s, T &v, bool viaMember)
{
    if constexpr (Info::crtp) {
        if (viaMember) { static_cast<rr::BinarySerializable<T> &>(v).restoreFromBinary(s); return; }
    }
    br::BinaryDeserializer(&s).read(v);
}
inline std::string quoteBin(const std::string &s) { return pbt::escape(s.size() > 3000 ? s.substr(0, 3000) + "..." : s); }
inline std::string hex(const std::string &s)
{
    static const char d[] = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s.substr(0, 1000)) { r += d[c >> 4]; r += d[c & 15]; }
    return s.size() > 1000 ? r + "..." : r;
}
template <class T> T genBinValue(Tape &t, bool sharing, int maxBudget = 3, bool bulk = false)
{
    static const int budgets[] = { 12, 40, 150, 400 };
    auto &c = ops::cfg();
    const auto b = static_cast<int>(t.pick({ 40, 40, 17, 3 }));
    c.elements = budgets[b < maxBudget ? b : maxBudget];
    c.sharing = sharing;
    c.nonFinite = true;
    c.bulk = 0;
    if (bulk) c.planBulk(t);
    if constexpr (std::is_default_constructible_v<T> && ops::cat<T> == ops::Cat::Struct) {
        T v;
        ops::genInto(t, v);
        return v;
    } else
        return ops::gen<T>(t);
}

/// Values of arbitrary types.
struct Holder {
    virtual ~Holder() = default;
    virtual void write(br::BinarySerializer &s) const = 0;
    virtual void writeOwn(std::ostream &s, bool viaMember) const = 0;
    virtual std::unique_ptr<Holder> read(br::BinaryDeserializer &d) const = 0; // into a fresh object
    virtual std::unique_ptr<Holder> readOwn(std::istream &s, unsigned how) const = 0;
    virtual void canon(std::string &out, ops::CanonCtx &ctx) const = 0;
    virtual std::size_t substance() const = 0;
};
template <class T, class Info> struct HolderOf : public Holder {
    T v;
    HolderOf() : v() {}
    explicit HolderOf(T &&o) : v(std::move(o)) {}
    void write(br::BinarySerializer &s) const override { s.write(v); }
    void writeOwn(std::ostream &s, bool viaMember) const override { writeBin<T, Info>(s, v, viaMember); }
    std::unique_ptr<Holder> read(br::BinaryDeserializer &d) const override { auto r = std::make_unique<HolderOf>(); d.read(r->v); return r; }
    std::unique_ptr<Holder> readOwn(std::istream &s, unsigned how) const override
    {
        if constexpr (Info::crtp) { if (how == 2) return std::make_unique<HolderOf>(rr::BinarySerializable<T>::fromBinary(s)); }
        auto r = std::make_unique<HolderOf>();
        readBin<T, Info>(s, r->v, how == 1);
        return r;
    }
    void canon(std::string &out, ops::CanonCtx &ctx) const override { ops::canon(v, out, ctx); }
    std::size_t substance() const override { return ops::substance(v); }
};
#endif
