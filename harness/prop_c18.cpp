// C18: date/time values survive JSON and binary (de)serialization
#include <reflective_rapidjson/binary/reflector-chronoutilities.h>
#include <reflective_rapidjson/binary/serializable.h>
#include <reflective_rapidjson/json/reflector-chronoutilities.h>
#include <reflective_rapidjson/json/serializable.h>

#include "model.h"
#include "pbt.h"

#include <array>
#include <cinttypes>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <tuple>
#include <unistd.h>
#include <unordered_map>
#include <variant>
#include <vector>

namespace rr = ReflectiveRapidJSON;
namespace jr = ReflectiveRapidJSON::JsonReflector;
namespace br = ReflectiveRapidJSON::BinaryReflector;
namespace rj = RAPIDJSON_NAMESPACE;
using CppUtilities::DateTime;
using CppUtilities::TimeSpan;
using model::JV;
using pbt::Ctx;
using pbt::Tape;

namespace chr {
struct Times : public rr::JsonSerializable<Times>, public rr::BinarySerializable<Times> {
    DateTime when;
    TimeSpan howLong;
    std::vector<DateTime> dates;
    std::list<TimeSpan> spans;
    std::map<std::string, DateTime> byName;
    std::optional<TimeSpan> maybe;
    std::unique_ptr<DateTime> own;
    std::shared_ptr<TimeSpan> shared;
    std::set<DateTime> sorted;
    std::variant<std::monostate, TimeSpan, DateTime> var;
    std::pair<std::int32_t, TimeSpan> pr;
    std::tuple<DateTime, TimeSpan> tup; // JSON only
    template <class S, class F> static void eachBin(S &s, F &&f)
    {
        f("when", s.when); f("howLong", s.howLong); f("dates", s.dates); f("spans", s.spans); f("byName", s.byName); f("maybe", s.maybe);
        f("own", s.own); f("shared", s.shared); f("sorted", s.sorted); f("var", s.var); f("pr", s.pr);
    }
    template <class S, class F> static void eachJson(S &s, F &&f) { eachBin(s, f); f("tup", s.tup); }
};
} // namespace chr
namespace ReflectiveRapidJSON {
namespace JsonReflector {
template <> inline void push<::chr::Times>(const ::chr::Times &o, rj::Value::Object &value, rj::Document::AllocatorType &allocator)
{
    ::chr::Times::eachJson(o, [&](const char *name, const auto &m) { push(m, name, value, allocator); });
}
template <> inline void pull<::chr::Times>(::chr::Times &o, const rj::GenericValue<rj::UTF8<char>>::ConstObject &value, JsonDeserializationErrors *errors)
{
    const char *previousRecord = nullptr;
    if (errors) { previousRecord = errors->currentRecord; errors->currentRecord = "chr::Times"; }
    ::chr::Times::eachJson(o, [&](const char *name, auto &m) { pull(m, name, value, errors); });
    if (errors) errors->currentRecord = previousRecord;
}
} // namespace JsonReflector
namespace BinaryReflector {
template <> inline void writeCustomType<::chr::Times>(BinarySerializer &s, const ::chr::Times &o, BinaryVersion version)
{
    ::chr::Times::eachBin(o, [&](const char *, const auto &m) { s.write(m, version); });
}
template <> inline BinaryVersion readCustomType<::chr::Times>(BinaryDeserializer &s, ::chr::Times &o, BinaryVersion version)
{
    ::chr::Times::eachBin(o, [&](const char *, auto &m) { s.read(m, version); });
    return version;
}
} // namespace BinaryReflector
} // namespace ReflectiveRapidJSON

namespace {
using chr::Times;
constexpr std::uint64_t maxDate = 3155378975999999999ull; // end of the year 9999
constexpr std::int64_t maxSpan = 36000000000ll * 100000 - 1;

std::string subSeconds(std::uint64_t t)
{ // as documented: milliseconds, microseconds and further digits if not zero
    char b[16];
    std::snprintf(b, sizeof b, ".%07u", static_cast<unsigned>(t));
    std::string s = b;
    if (!t) return "";
    if (t % 10) return s;
    return t % 10000 ? s.substr(0, 7) : s.substr(0, 4);
}
std::string isoText(std::uint64_t ticks)
{
    auto days = static_cast<std::int64_t>(ticks / 864000000000ull) + 306; // days since 0000-03-01
    const auto era = days / 146097, doe = days % 146097;
    const auto yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    const auto d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9, y = yoe + era * 400 + (m <= 2);
    const auto s = ticks / 10000000 % 86400;
    char b[80];
    std::snprintf(b, sizeof b, "%04" PRId64 "-%02" PRId64 "-%02" PRId64 "T%02u:%02u:%02u", y, m, d, static_cast<unsigned>(s / 3600), static_cast<unsigned>(s / 60 % 60), static_cast<unsigned>(s % 60));
    return b + subSeconds(ticks % 10000000);
}
std::string spanText(std::int64_t ticks)
{ // non-negative ones only
    char b[80];
    const auto s = ticks / 10000000;
    std::snprintf(b, sizeof b, "%02" PRId64 ":%02u:%02u", s / 3600, static_cast<unsigned>(s / 60 % 60), static_cast<unsigned>(s % 60));
    return b + subSeconds(static_cast<std::uint64_t>(ticks % 10000000));
}
/// Whether the parser of the C++ utilities writes beyond an array when parsing the string (known finding).
bool outOfBounds(const std::string &s)
{
    const auto begin = s.find('T');
    if (begin == s.npos) return false;
    int zone = -1; // separators within the time zone
    for (auto i = begin; i < s.size() && s[i]; ++i) {
        if (zone == 99) return true;
        if (s[i] == '+' || s[i] == '-') zone = 0;
        else if (s[i] == 'Z') zone = 99; // nothing may follow
        else if (s[i] == ':' && zone >= 0 && ++zone > 1) return true;
    }
    return false;
}
/// What a string denotes; nothing if none.
std::optional<DateTime> parsed(const std::string &s, DateTime *)
{
    if (s.find('\0') != s.npos) return std::nullopt;
    try { return DateTime::fromIsoStringGmt(s.c_str()); } catch (const CppUtilities::ConversionException &) { return std::nullopt; }
}
std::optional<TimeSpan> parsed(const std::string &s, TimeSpan *)
{
    if (s.find('\0') != s.npos) return std::nullopt;
    try { return TimeSpan::fromString(std::string(s)); } catch (const CppUtilities::ConversionException &) { return std::nullopt; }
}
std::string textOf(DateTime d) { return isoText(d.totalTicks()); }
std::string textOf(TimeSpan d) { return spanText(d.totalTicks()); }

std::uint64_t genTicks(Tape &t, std::uint64_t max)
{
    switch (t.below(6)) {
    case 0: return t.below(20000) * 10000000 % (max + 1); // seconds
    case 1: return t.below(max / 10000 + 1) * 10000; // milliseconds
    case 2: return t.below(max + 1);
    case 3: return max - t.below(100000);
    case 4: { const auto day = t.below(max / 864000000000ull + 1) * 864000000000ull; return std::min<std::uint64_t>(max, day + (t.below(2) ? 863999990000ull : 0)); } // midnight or just before
    default: { const auto p = 1ull << t.below(60); return std::min<std::uint64_t>(max, p + t.below(3) - 1); }
    }
}
void gen(Tape &t, DateTime &d, bool any) { d = DateTime(any && t.below(2) ? t.below(0) : genTicks(t, maxDate)); }
void gen(Tape &t, TimeSpan &d, bool any) { d = TimeSpan(any && t.below(2) ? static_cast<std::int64_t>(t.below(0)) : static_cast<std::int64_t>(genTicks(t, static_cast<std::uint64_t>(maxSpan)))); }
template <class T> T make(Tape &t, bool any) { T v; gen(t, v, any); return v; }
void gen(Tape &t, Times &v, bool any)
{
    gen(t, v.when, any);
    gen(t, v.howLong, any);
    for (auto n = t.below(4); n; --n) v.dates.push_back(make<DateTime>(t, any));
    for (auto n = t.below(3); n; --n) v.spans.push_back(make<TimeSpan>(t, any));
    for (auto n = t.below(3); n; --n) v.byName[std::string(1, static_cast<char>('a' + t.below(4)))] = make<DateTime>(t, any);
    if (t.below(2)) v.maybe = make<TimeSpan>(t, any);
    if (t.below(2)) v.own = std::make_unique<DateTime>(make<DateTime>(t, any));
    if (t.below(2)) v.shared = std::make_shared<TimeSpan>(make<TimeSpan>(t, any));
    for (auto n = t.below(4); n; --n) v.sorted.insert(any ? make<DateTime>(t, any) : DateTime(make<DateTime>(t, any).totalTicks() / 10000 * 10000)); // values must stay distinct
    switch (t.below(3)) {
    case 1: v.var = make<TimeSpan>(t, any); break;
    case 2: v.var = make<DateTime>(t, any); break;
    default:;
    }
    v.pr = { static_cast<std::int32_t>(t.below(100)), make<TimeSpan>(t, any) };
    v.tup = { make<DateTime>(t, any), make<TimeSpan>(t, any) };
}

// collects all date/time values in order
struct Flat {
    std::vector<std::int64_t> ticks;
    std::vector<std::string> texts;
    std::string shape;
    void add(std::int32_t v) { shape += std::to_string(v); }
    void add(std::monostate) { shape += "m"; }
    void add(const std::string &s) { shape += s; }
    void add(DateTime d) { shape += "D"; ticks.push_back(static_cast<std::int64_t>(d.totalTicks())); }
    void add(TimeSpan d) { shape += "S"; ticks.push_back(d.totalTicks()); }
    template <class X, class Y> void add(const std::pair<X, Y> &p) { add(p.first); add(p.second); }
    template <class T> void add(const std::optional<T> &p) { shape += p ? "!" : "?"; if (p) add(*p); }
    template <class T> void add(const std::unique_ptr<T> &p) { shape += p ? "!" : "?"; if (p) add(*p); }
    template <class T> void add(const std::shared_ptr<T> &p) { shape += p ? "!" : "?"; if (p) add(*p); }
    template <class... T> void add(const std::variant<T...> &p) { shape += std::to_string(p.index()); std::visit([this](const auto &x) { add(x); }, p); }
    template <class X, class Y> void add(const std::tuple<X, Y> &p) { add(std::get<0>(p)); add(std::get<1>(p)); }
    template <class T> auto add(const T &c) -> decltype(c.begin(), std::enable_if_t<!std::is_same_v<T, std::string>>()) { shape += "["; for (const auto &e : c) add(e); shape += "]"; }
    std::string str() const { auto s = shape; for (auto t : ticks) s += " " + std::to_string(t); return s; }
};
Flat flat(const Times &v, bool json)
{
    Flat f;
    const auto add = [&f](const char *, const auto &m) { f.add(m); };
    if (json) Times::eachJson(v, add); else Times::eachBin(v, add);
    return f;
}
std::string be(std::uint64_t v)
{
    std::string s;
    for (int i = 56; i >= 0; i -= 8) s += static_cast<char>(v >> i);
    return s;
}

void binary(Tape &t, Ctx &c)
{
    Times v;
    gen(t, v, true);
    const auto before = flat(v, false);
    c.identify(before.str());
    c.describe(before.str());
    c.label("binary round trip");
    c.nontrivial = before.ticks.size() > 3;
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    const bool two = t.below(2);
    v.toBinary(s);
    if (two) br::BinarySerializer(&s).write(v.when), br::BinarySerializer(&s).write(v.howLong);
    const auto bytes = s.str();
    PBT_CHECK(bytes.substr(0, 16) == be(v.when.totalTicks()) + be(static_cast<std::uint64_t>(v.howLong.totalTicks())), "bytes", "bytes are not the ticks");
    Times r;
    r.when = DateTime(5);
    r.restoreFromBinary(s);
    const auto after = flat(r, false);
    PBT_CHECK(before.str() == after.str(), "binary-value", after.str());
    if (two) {
        DateTime d(1); TimeSpan p(1);
        br::BinaryDeserializer(&s).read(d);
        br::BinaryDeserializer(&s).read(p);
        PBT_CHECK(d == v.when && p == v.howLong, "binary-value", "single values differ");
    }
    PBT_CHECK(static_cast<std::size_t>(s.tellg()) == bytes.size(), "position", "data not read completely");
}

void checkTexts(const JV &j, const std::vector<std::string> &texts, std::size_t &i)
{
    if (j.kind == JV::Str) { PBT_CHECK(i < texts.size() && texts[i] == j.s, "text", j.s + " instead of " + (i < texts.size() ? texts[i] : "nothing")); ++i; }
    for (const auto &e : j.a) checkTexts(e, texts, i);
    for (const auto &e : j.o) checkTexts(e.second, texts, i);
}
void json(Tape &t, Ctx &c)
{
    Times v;
    gen(t, v, false);
    const auto before = flat(v, true);
    c.identify(before.str());
    c.describe(before.str());
    c.label("JSON round trip");
    c.nontrivial = before.ticks.size() > 3;
    const auto buffer = v.toJson();
    const std::string text(buffer.GetString(), buffer.GetSize());
    struct Texts {
        std::vector<std::string> texts;
    } expected;
    std::size_t n = 0;
    std::string kinds;
    for (char ch : before.shape) if (ch == 'D' || ch == 'S') kinds += ch;
    for (char ch : kinds) { expected.texts.push_back(ch == 'D' ? isoText(static_cast<std::uint64_t>(before.ticks[n])) : spanText(before.ticks[n])); ++n; }
    const auto doc = model::Parser(text).parse();
    PBT_CHECK(doc, "malformed", text);
    std::size_t i = 0;
    checkTexts(*doc, expected.texts, i);
    PBT_CHECK(i == expected.texts.size(), "text", "not all values written as strings: " + text);
    rr::JsonDeserializationErrors errors;
    const auto r = Times::fromJson(text, &errors);
    PBT_CHECK(errors.empty(), "errors", "errors reading own output");
    const auto after = flat(r, true);
    PBT_CHECK(before.shape == after.shape, "json-shape", after.str());
    for (n = 0; n < before.ticks.size(); ++n) {
        const auto diff = after.ticks[n] - before.ticks[n];
        PBT_CHECK(diff == 0 || (before.ticks[n] % (kinds[n] == 'D' ? 10000 : 10000000) && diff >= -1 && diff <= 1), "json-value", std::to_string(after.ticks[n]) + " instead of " + std::to_string(before.ticks[n]));
    }
}

std::string genText(Tape &t)
{
    std::string s;
    switch (t.below(7)) {
    case 0: s = isoText(genTicks(t, maxDate)); break;
    case 1: s = spanText(static_cast<std::int64_t>(genTicks(t, static_cast<std::uint64_t>(maxSpan)))); break;
    case 2: s = isoText(genTicks(t, maxDate)); { static const char *const z[] = { "Z", "+00:00", "-14:00", "+02:30", "+2", "-", "+99:99", "ZZ", "Z+1" }; s += z[t.below(9)]; } break;
    case 3: {
        static const char chars[] = "0123456789-:T.+Z xe";
        for (auto n = t.below(14); n; --n) s += chars[t.below(19)];
        break;
    }
    case 4: for (auto n = t.below(6); n; --n) s += static_cast<char>(t.below(256)); break;
    case 5: s = isoText(genTicks(t, maxDate)).substr(0, t.below(20)); break;
    default: { static const char *const w[] = { "", "1", "-5", "1:2", "1:2:3:4", "nan", "inf", "1e9", "2020-02-30", "2020-02-29", "2019-02-29", "2020-13-01", "24:00:00", "2020-01-01T24:00:00", "2020-01-01T23:60:00", "0000-01-01", "-00:00:01", "::", "1.5:0", "1:", "9999-12-31T23:59:59.99999999" }; s = w[t.below(21)]; }
    }
    if (t.chance(1, 4) && !s.empty()) {
        static const char chars[] = { '0', '9', '-', ':', 'T', '.', 'Z', 'x', ' ', '\0' };
        const auto pos = t.below(s.size() + 1);
        switch (t.below(3)) {
        case 0: s.insert(pos, 1, chars[t.below(10)]); break;
        case 1: if (pos < s.size()) s[pos] = chars[t.below(10)]; break;
        default: if (pos < s.size()) s.erase(pos, 1);
        }
    }
    return outOfBounds(s) ? "out of bounds" : s;
}
JV genAny(Tape &t, int depth = 0)
{
    switch (t.below(depth > 1 ? 6 : 8)) {
    case 0: return JV();
    case 1: return JV::boolean(t.below(2));
    case 2: return JV::integer(static_cast<std::int64_t>(t.below(0)));
    case 3: return JV::dbl(0.5 * static_cast<double>(t.range(-100, 100)));
    case 4: case 5: return JV::str(genText(t));
    case 6: { auto a = JV::arr(); for (auto n = t.below(3); n; --n) a.a.push_back(genAny(t, depth + 1)); return a; }
    default: { auto a = JV::obj(); for (auto n = t.below(3); n; --n) a.o.emplace_back(std::string(1, static_cast<char>('a' + t.below(3))), genAny(t, depth + 1)); return a; }
    }
}
rr::JsonType typeOf(const rj::Value &v)
{
    switch (v.GetType()) {
    case rj::kNullType: return rr::JsonType::Null;
    case rj::kFalseType: case rj::kTrueType: return rr::JsonType::Bool;
    case rj::kObjectType: return rr::JsonType::Object;
    case rj::kArrayType: return rr::JsonType::Array;
    case rj::kStringType: return rr::JsonType::String;
    default: return rr::JsonType::Number;
    }
}
void toRj(const JV &j, rj::Value &v, rj::Document::AllocatorType &a)
{
    switch (j.kind) {
    case JV::Null: v.SetNull(); break;
    case JV::Bool: v.SetBool(j.b); break;
    case JV::Str: v.SetString(j.s.data(), static_cast<rj::SizeType>(j.s.size()), a); break;
    case JV::Arr: v.SetArray(); for (const auto &e : j.a) { rj::Value x; toRj(e, x, a); v.PushBack(x, a); } break;
    case JV::Obj: v.SetObject(); for (const auto &e : j.o) { rj::Value k, x; k.SetString(e.first.data(), static_cast<rj::SizeType>(e.first.size()), a); toRj(e.second, x, a); v.AddMember(k, x, a); } break;
    default: v.SetInt(42);
    }
}
template <class T> void deviating(Tape &t, Ctx &c)
{
    const auto j = t.chance(1, 2) ? JV::str(genText(t)) : genAny(t);
    rj::Document doc;
    toRj(j, doc, doc.GetAllocator());
    const T previous(static_cast<decltype(T().totalTicks())>(t.below(1000)));
    const auto expectation = j.kind == JV::Str ? parsed(j.s, static_cast<T *>(nullptr)) : std::nullopt;
    c.describe((std::is_same_v<T, DateTime> ? "DateTime from " : "TimeSpan from ") + pbt::escape(model::dump(j)));
    c.identify(c.show);
    c.nontrivial = j.kind == JV::Str && !j.s.empty();
    c.label(j.kind != JV::Str ? "other type" : expectation ? "valid string" : "invalid string");
    const unsigned how = static_cast<unsigned>(t.below(4));
    auto errors = std::make_unique<rr::JsonDeserializationErrors>();
    errors->currentRecord = "rec";
    errors->currentMember = "mem";
    errors->currentIndex = 5;
    T v = previous;
    std::size_t index = 5;
    if (how == 0) {
        jr::pull(v, doc, errors.get());
    } else if (how == 1) { // as member
        rj::Document obj(rj::kObjectType);
        rj::Value copy(doc, obj.GetAllocator());
        obj.AddMember("mem", copy, obj.GetAllocator());
        jr::pull(v, "mem", static_cast<const rj::Value &>(obj).GetObject(), errors.get());
    } else if (how == 2) { // within a sequence
        rj::Document arr(rj::kArrayType);
        rj::Value copy(doc, arr.GetAllocator());
        arr.PushBack(rj::Value(rj::kStringType).SetString("1", arr.GetAllocator()), arr.GetAllocator());
        arr.PushBack(copy, arr.GetAllocator());
        errors->currentIndex = rr::JsonDeserializationError::noIndex;
        std::vector<T> seq;
        jr::pull(seq, static_cast<const rj::Value &>(arr), errors.get());
        PBT_CHECK(seq.size() == 2, "elements", "sequence has " + std::to_string(seq.size()) + " elements");
        PBT_CHECK(errors->size() == !expectation, "errors", std::to_string(errors->size()) + " errors");
        v = seq[1];
        if (!expectation) PBT_CHECK(v == T(), "value", "element is not default");
        if (!expectation) v = previous;
        index = 1;
        PBT_CHECK(errors->currentIndex == rr::JsonDeserializationError::noIndex, "context", "index not restored");
    } else { // errors not collected
        jr::pull(v, doc, nullptr);
    }
    if (expectation) {
        PBT_CHECK(v == *expectation, "value", "got " + std::to_string(v.totalTicks()) + " instead of " + std::to_string(expectation->totalTicks()));
        PBT_CHECK(errors->empty(), "errors", "unexpected error");
        return;
    }
    PBT_CHECK(v == previous, "previous-value", "previous value not left untouched");
    if (how == 3) return;
    PBT_CHECK(errors->size() == 1, "errors", std::to_string(errors->size()) + " errors instead of one");
    const auto &e = errors->front();
    PBT_CHECK(e.kind == (j.kind == JV::Str ? rr::JsonDeserializationErrorKind::ConversionError : rr::JsonDeserializationErrorKind::TypeMismatch), "error-kind", "kind " + std::to_string(static_cast<int>(e.kind)));
    PBT_CHECK(e.expectedType == rr::JsonType::String && e.actualType == typeOf(doc), "error-types", "types " + std::to_string(static_cast<int>(e.expectedType)) + " " + std::to_string(static_cast<int>(e.actualType)));
    PBT_CHECK(std::string(e.record) == "rec" && std::string(e.member) == "mem" && e.index == index, "error-context", "wrong context");
    // the same error can be made fatal
    rr::JsonDeserializationErrors fatal;
    fatal.throwOn = j.kind == JV::Str ? rr::JsonDeserializationErrors::ThrowOn::ConversionError : rr::JsonDeserializationErrors::ThrowOn::TypeMismatch;
    bool thrown = false;
    try { jr::pull(v, doc, &fatal); } catch (const rr::JsonDeserializationError &) { thrown = true; }
    PBT_CHECK(thrown && v == previous, "fatal", "error is not fatal");
}
const pbt::Register r1("binary", 10, &binary), r2("json", 10, &json), r3("date", 10, &deviating<DateTime>), r4("span", 10, &deviating<TimeSpan>);
const pbt::RegisterProbe p1("negative-time-span", [] {
    const TimeSpan v = TimeSpan::fromSeconds(-3661);
    rj::Document doc;
    jr::push(v, static_cast<rj::Value &>(doc), doc.GetAllocator());
    TimeSpan r;
    jr::pull(r, doc, nullptr);
    if (r != v) pbt::fail("value", "restored " + std::to_string(r.totalTicks()) + " instead of " + std::to_string(v.totalTicks()));
});
const pbt::RegisterProbe p2("time-zone-overflow", [] {
    const auto pid = fork();
    if (!pid) {
        rj::Document doc;
        doc.SetString("2019-01-01T12:00:00+1:2:3:4:5:6:7:8:9:10:11:12:13:14:15:16");
        DateTime r;
        jr::pull(r, doc, nullptr);
        _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (WIFSIGNALED(status) || WEXITSTATUS(status)) pbt::fail("crash", "process does not survive parsing the string");
});
} // namespace
