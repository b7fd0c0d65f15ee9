// Models of the date/time types of the C++ utilities.
#ifndef CHRONO_TYPES_H
#define CHRONO_TYPES_H
#include <reflective_rapidjson/binary/reflector-chronoutilities.h>
#include <reflective_rapidjson/json/reflector-chronoutilities.h>

#include "ops.h"

#include <cinttypes>
#include <cstdio>

namespace chrono_types {
using CppUtilities::DateTime;
using CppUtilities::TimeSpan;
inline std::string isoText(std::uint64_t ticks) // milliseconds
{
    auto days = static_cast<std::int64_t>(ticks / 864000000000ull) + 306; // days since 0000-03-01
    const auto era = days / 146097, doe = days % 146097;
    const auto yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    const auto d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9, y = yoe + era * 400 + (m <= 2);
    const auto s = ticks / 10000000 % 86400;
    char b[100];
    std::snprintf(b, sizeof b, "%04" PRId64 "-%02" PRId64 "-%02" PRId64 "T%02u:%02u:%02u", y, m, d, static_cast<unsigned>(s / 3600), static_cast<unsigned>(s / 60 % 60), static_cast<unsigned>(s % 60));
    std::string r = b;
    if (const auto ms = ticks / 10000 % 1000) {
        std::snprintf(b, sizeof b, ".%03u", static_cast<unsigned>(ms));
        r += b;
    }
    return r;
}
inline std::string spanText(std::int64_t ticks) // non-negative, seconds
{
    char b[80];
    const auto s = ticks / 10000000;
    std::snprintf(b, sizeof b, "%02" PRId64 ":%02u:%02u", s / 3600, static_cast<unsigned>(s / 60 % 60), static_cast<unsigned>(s % 60));
    return b;
}
/// What a string denotes is up to the C++ utilities.
inline bool parse(const std::string &s, DateTime &out)
{
    if (s.find('\0') != s.npos) return false;
    try { out = DateTime::fromIsoStringGmt(s.c_str()); return true; } catch (const CppUtilities::ConversionException &) { return false; }
}
inline bool parse(const std::string &s, TimeSpan &out)
{
    if (s.find('\0') != s.npos) return false;
    try { out = TimeSpan::fromString(std::string(s)); return true; } catch (const CppUtilities::ConversionException &) { return false; }
}
} // namespace chrono_types

namespace ops {
template <class D> struct ChronoOps {
    using T = D;
    static constexpr bool is = true, date = std::is_same_v<D, CppUtilities::DateTime>;
    static T gen(Tape &t)
    {
        if (t.chance(1, 4)) return T();
        if constexpr (date) {
            // years 1 to 9999, milliseconds
            return T(t.below(3652059) * 864000000000ull + t.below(86400) * 10000000ull + (t.chance(1, 2) ? t.below(1000) * 10000ull : 0));
        } else {
            return T(static_cast<std::int64_t>(t.below(t.chance(1, 2) ? 200000 : 360000000)) * 10000000);
        }
    }
    static std::string canon(const T &v) { return (date ? "date:" : "span:") + std::to_string(v.totalTicks()); }
    static std::size_t substance(const T &v) { return v.totalTicks() != 0; }
    static JV json(const T &v)
    {
        if constexpr (date) return JV::str(chrono_types::isoText(v.totalTicks()));
        else return JV::str(chrono_types::spanText(v.totalTicks()));
    }
    static void pull(T &out, const JV &j, Errs &e)
    {
        if (j.kind != JV::Str) e.add(EK::TypeMismatch, JT::String, jt(j));
        else if (!chrono_types::parse(j.s, out)) e.add(EK::ConversionError, JT::String, JT::String);
    }
    static void write(const T &v, BinOut &o) { o.be(static_cast<std::uint64_t>(v.totalTicks()), 8); }
    static void read(T &v, ReadCtx &r)
    {
        if constexpr (date) v = T(r.in.be(8));
        else v = T(static_cast<std::int64_t>(r.in.be(8)));
    }
};
template <> struct CustomOps<CppUtilities::DateTime> : ChronoOps<CppUtilities::DateTime> {};
template <> struct CustomOps<CppUtilities::TimeSpan> : ChronoOps<CppUtilities::TimeSpan> {};
} // namespace ops
#endif
