// C19: formatted error messages state all relevant information
#include <reflective_rapidjson/json/errorformatting.h>
#include <reflective_rapidjson/json/reflector.h>
#include <reflective_rapidjson/json/serializable.h>

#include "pbt.h"

#include <algorithm>
#include <memory>
#include <set>
#include <vector>

namespace rr = ReflectiveRapidJSON;
namespace jr = ReflectiveRapidJSON::JsonReflector;
namespace rj = RAPIDJSON_NAMESPACE;
using pbt::Ctx;
using pbt::Tape;
using Kind = rr::JsonDeserializationErrorKind;
using Type = rr::JsonType;

namespace {
const char *const typeNames[] = { "null", "number", "bool", "string", "array", "object" };

/// A NUL-terminated copy of a string in memory of its exact size.
struct Copy {
    std::unique_ptr<char[]> mem;
    explicit Copy(const std::string *s)
    {
        if (!s) return;
        mem.reset(new char[s->size() + 1]);
        std::copy(s->c_str(), s->c_str() + s->size() + 1, mem.get());
    }
    const char *get() const { return mem.get(); }
};
std::string name(Tape &t)
{
    static const char alphabet[] = "XYZQ_:\"%<>\\ 0123456789\xc3\xa4";
    std::string s;
    static const std::uint64_t lengths[] = { 8, 1, 30, 600 };
    for (auto n = t.below(lengths[t.pick({ 8, 2, 3, 1 })] + 1); n; --n) s += alphabet[t.below(sizeof(alphabet) - 1)];
    return s;
}
std::string message(Kind k, Type e, Type a, const std::string *record, const std::string *member, std::size_t index)
{
    Copy r(record), m(member);
    auto error = std::make_unique<rr::JsonDeserializationError>(k, e, a, r.get(), m.get(), index);
    auto text = rr::formatJsonDeserializationError(*error);
    error.reset();
    return text;
}
bool has(const std::string &s, const std::string &part) { return s.find(part) != s.npos; }
std::set<std::string> wordsOf(const std::string &s)
{
    std::set<std::string> res;
    std::string w;
    for (const char c : s + ' ') {
        if (std::isalpha(static_cast<unsigned char>(c))) w += static_cast<char>(std::tolower(c));
        else if (!w.empty()) { res.insert(w); w.clear(); }
    }
    return res;
}

void context(Tape &t, Ctx &c)
{
    const auto rec = name(t), mem = name(t);
    const std::string *const record = t.chance(3, 4) ? &rec : nullptr;
    const std::string *const member = t.chance(1, 2) ? &mem : nullptr;
    std::size_t index = rr::JsonDeserializationError::noIndex;
    if (t.chance(2, 3)) switch (t.below(3)) {
    case 0: index = t.below(20); break;
    case 1: index = t.below(0); break;
    default: index -= 1 + t.below(5);
    }
    const auto e = static_cast<Type>(t.below(6)), a = static_cast<Type>(t.below(6));
    c.describe((record ? "record '" + *record + "'" : "no record") + (member ? " member '" + *member + "'" : " no member") + " index " + (index == rr::JsonDeserializationError::noIndex ? "none" : std::to_string(index)) + " expected " + typeNames[static_cast<int>(e)] + " actual " + typeNames[static_cast<int>(a)]);
    c.identify(c.show);
    c.nontrivial = record != nullptr;
    c.label(record ? member ? "record and member" : index == rr::JsonDeserializationError::noIndex ? "record" : "record and index" : "no record");
    std::set<std::string> perKind;
    // words naming the kind: present in the message but not in the ones of all kinds
    std::vector<std::set<std::string>> words;
    for (int k = 0; k < 6; ++k) {
        const auto text = message(static_cast<Kind>(k), e, a, nullptr, nullptr, rr::JsonDeserializationError::noIndex);
        words.push_back(wordsOf(text.substr(0, text.rfind(":"))));
    }
    for (int k = 0; k < 6; ++k) {
        bool named = false;
        for (const auto &w : words[k]) named = named || !std::all_of(words.begin(), words.end(), [&](const auto &o) { return o.count(w) > 0; });
        PBT_CHECK(named, "kind", "kind " + std::to_string(k) + " is not named: " + message(static_cast<Kind>(k), e, a, nullptr, nullptr, rr::JsonDeserializationError::noIndex));
    }
    for (int k = 0; k < 6; ++k) {
        const auto kind = static_cast<Kind>(k);
        const auto text = message(kind, e, a, record, member, index);
        PBT_CHECK(perKind.insert(text).second, "kind", "kind " + std::to_string(k) + " is not distinguishable: " + text);
        PBT_CHECK(!text.empty() && !has(text, "(null)"), "text", text);
        PBT_CHECK(text.find('\0') == text.npos, "text", "message contains NUL: " + text);
        if (record) PBT_CHECK(has(text, *record), "record", "record is missing: " + text);
        if (record && member) PBT_CHECK(has(text, *member), "member", "member is missing: " + text);
        const auto stripped = [&](std::string s) { // remove names so only what is stated otherwise remains
            if (record && member) { const auto p = s.rfind(*member); if (p != s.npos && !member->empty()) s.erase(p, member->size()); }
            if (record && !record->empty()) { const auto p = s.find(*record); if (p != s.npos) s.erase(p, record->size()); }
            return s;
        }(text);
        if (record && !member && index != rr::JsonDeserializationError::noIndex) PBT_CHECK(has(stripped, std::to_string(index)), "index", "index is missing: " + text);
        if (!record || index == rr::JsonDeserializationError::noIndex) PBT_CHECK(!has(stripped, std::to_string(rr::JsonDeserializationError::noIndex)), "no-index", "absent index is stated: " + text);
        // every known part makes a difference
        if (record) PBT_CHECK(text != message(kind, e, a, nullptr, member, index), "record", "record makes no difference: " + text);
        if (record && member) {
            const auto other = *member + "X";
            PBT_CHECK(text != message(kind, e, a, record, &other, index) && text != message(kind, e, a, record, nullptr, index), "member", "member makes no difference: " + text);
        }
        if (record && !member) PBT_CHECK(text != message(kind, e, a, record, nullptr, index + 1), "index", "index makes no difference: " + text);
        if (kind == Kind::TypeMismatch) {
            std::set<std::string> perType;
            for (int e2 = 0; e2 < 6; ++e2)
                for (int a2 = 0; a2 < 6; ++a2) {
                    const auto text2 = message(kind, static_cast<Type>(e2), static_cast<Type>(a2), record, member, index);
                    PBT_CHECK(perType.insert(text2).second, "types", "types are not distinguishable: " + text2);
                    const auto pos = text2.rfind("expected");
                    PBT_CHECK(pos != text2.npos, "types", "expected type is missing: " + text2);
                    const auto pe = text2.find(typeNames[e2], pos);
                    const auto pa = pe == text2.npos ? pe : text2.find(typeNames[a2], pe + 1);
                    PBT_CHECK(pa != text2.npos, "types", "types are missing: " + text2);
                    int mentioned = 0;
                    for (const auto *n : typeNames) for (auto p = text2.find(n, pos); p != text2.npos; p = text2.find(n, p + 1)) ++mentioned;
                    PBT_CHECK(mentioned == 2, "types", "other types are mentioned: " + text2);
                }
        }
    }
    std::set<std::string> names;
    for (int k = 0; k < 6; ++k) {
        PBT_CHECK(rr::jsonTypeToString(static_cast<Type>(k)) == typeNames[k], "type-name", std::string(rr::jsonTypeToString(static_cast<Type>(k))));
    }
    // unknown kinds do not yield an empty message either
    PBT_CHECK(!message(static_cast<Kind>(6 + t.below(250)), e, a, record, member, index).empty(), "unknown-kind", "empty message");
    PBT_CHECK(!rr::jsonTypeToString(static_cast<Type>(6 + t.below(250))).empty(), "unknown-type", "empty type");
}

/// Errors as reported by the collector are formatted according to its context.
void collected(Tape &t, Ctx &c)
{
    rr::JsonDeserializationErrors errors;
    const auto rec = name(t), mem = name(t);
    const bool document = t.chance(1, 3), member = t.below(2);
    Copy r(&rec), m(&mem);
    if (!document) errors.currentRecord = r.get();
    if (member) errors.currentMember = m.get();
    const bool hasIndex = t.below(2);
    if (hasIndex) errors.currentIndex = t.below(1000);
    const auto present = static_cast<rj::Type>(t.below(7));
    static const Type types[] = { Type::Null, Type::Bool, Type::Bool, Type::Object, Type::Array, Type::String, Type::Number };
    const auto actual = types[present];
    struct { const char *phrase; Type expected; } expectation{ nullptr, Type::Null };
    const auto which = t.below(13);
    bool types2 = true;
    switch (which) {
    case 0: errors.reportTypeMismatch<int>(present); expectation.expected = Type::Number; break;
    case 1: errors.reportTypeMismatch<bool>(present); expectation.expected = Type::Bool; break;
    case 2: errors.reportTypeMismatch<std::string>(present); expectation.expected = Type::String; break;
    case 3: errors.reportTypeMismatch<std::vector<int>>(present); expectation.expected = Type::Array; break;
    case 4: errors.reportTypeMismatch<std::tuple<int>>(present); expectation.expected = Type::Array; break;
    case 5: errors.reportTypeMismatch<std::map<std::string, int>>(present); expectation.expected = Type::Object; break;
    case 6: errors.reportTypeMismatch<rj::kNullType>(present); expectation.expected = Type::Null; break;
    case 7: errors.reportTypeMismatch<rj::kTrueType>(present); expectation.expected = Type::Bool; break;
    case 8: errors.reportArraySizeMismatch(); types2 = false; break;
    case 9: errors.reportConversionError(actual); types2 = false; break;
    case 10: errors.reportUnexpectedDuplicate(actual); types2 = false; break;
    case 11: errors.reportInvalidVariantObject(); types2 = false; break;
    default: errors.reportInvalidVariantIndex(actual); types2 = false; break;
    }
    static const Kind kinds[] = { Kind::TypeMismatch, Kind::TypeMismatch, Kind::TypeMismatch, Kind::TypeMismatch, Kind::TypeMismatch, Kind::TypeMismatch, Kind::TypeMismatch, Kind::TypeMismatch, Kind::ArraySizeMismatch, Kind::ConversionError, Kind::UnexpectedDuplicate, Kind::InvalidVariantObject, Kind::InvalidVariantIndex };
    c.describe("report " + std::to_string(which) + " in " + (document ? "document" : rec) + (member ? " member " + mem : "") + (hasIndex ? " index " + std::to_string(errors.currentIndex) : "") + " present type " + std::to_string(present));
    c.identify(c.show);
    c.nontrivial = true;
    c.label("reported error");
    PBT_CHECK(errors.size() == 1, "reported", std::to_string(errors.size()) + " errors");
    const auto text = rr::formatJsonDeserializationError(errors.front());
    // the same as if all known parts were passed explicitly
    const std::string doc = "document";
    PBT_CHECK(has(text, document ? doc : rec), "record", "record is missing: " + text);
    if (member) PBT_CHECK(has(text, mem), "member", "member is missing: " + text);
    if (!member && hasIndex) PBT_CHECK(has(text, std::to_string(errors.currentIndex)), "index", "index is missing: " + text);
    if (types2) {
        const auto pos = text.rfind("expected");
        PBT_CHECK(pos != text.npos, "types", text);
        const auto pe = text.find(typeNames[static_cast<int>(expectation.expected)], pos);
        PBT_CHECK(pe != text.npos && text.find(typeNames[static_cast<int>(actual)], pe + 1) != text.npos, "types", text);
    }
    // the kind is the one which has been reported
    const std::string *const rp = document ? nullptr : &rec;
    std::string recName = errors.front().record;
    int matches = 0;
    for (int k = 0; k < 6; ++k)
        if (text == message(static_cast<Kind>(k), errors.front().expectedType, errors.front().actualType, &recName, member ? &mem : nullptr, errors.front().index)) {
            ++matches;
            PBT_CHECK(static_cast<Kind>(k) == kinds[which], "kind", text);
        }
    (void)rp;
    PBT_CHECK(matches == 1, "kind", text);
}
const pbt::Register r1("context", 10, &context), r2("collected", 10, &collected);
} // namespace
