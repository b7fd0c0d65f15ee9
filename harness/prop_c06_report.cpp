// C06: errors reported by custom deserialization code via the functions of the collector are fatal exactly if marked so
#include <reflective_rapidjson/json/reflector.h>

#include "pbt.h"

#include <map>
#include <optional>
#include <string>
#include <tuple>
#include <vector>

namespace rr = ReflectiveRapidJSON;
namespace rj = RAPIDJSON_NAMESPACE;
using pbt::Ctx;
using pbt::Tape;
using Kind = rr::JsonDeserializationErrorKind;
using On = rr::JsonDeserializationErrors::ThrowOn;
using Type = rr::JsonType;

namespace {
const On flags[] = { On::TypeMismatch, On::ArraySizeMismatch, On::ConversionError, On::UnexpectedDuplicate, On::InvalidVariantObject, On::InvalidVariantIndex };
const Type types[] = { Type::Null, Type::Bool, Type::Bool, Type::Object, Type::Array, Type::String, Type::Number };

struct Report {
    unsigned which;
    rj::Type present;
    const char *record, *member;
    std::size_t index;

    static Kind kind(unsigned which)
    {
        return which < 14 ? Kind::TypeMismatch : which == 14 ? Kind::ArraySizeMismatch : which == 15 ? Kind::ConversionError : which == 16 ? Kind::UnexpectedDuplicate : which == 17 ? Kind::InvalidVariantObject : Kind::InvalidVariantIndex;
    }
    void operator()(rr::JsonDeserializationErrors &e) const
    {
        e.currentRecord = record;
        e.currentMember = member;
        e.currentIndex = index;
        const auto type = types[present];
        switch (which) {
        case 0: return e.reportTypeMismatch<int>(present);
        case 1: return e.reportTypeMismatch<bool>(present);
        case 2: return e.reportTypeMismatch<std::string>(present);
        case 3: return e.reportTypeMismatch<std::vector<int>>(present);
        case 4: return e.reportTypeMismatch<std::tuple<int>>(present);
        case 5: return e.reportTypeMismatch<std::map<std::string, int>>(present);
        case 6: return e.reportTypeMismatch<double>(present);
        case 7: return e.reportTypeMismatch<rj::kNullType>(present);
        case 8: return e.reportTypeMismatch<rj::kTrueType>(present);
        case 9: return e.reportTypeMismatch<rj::kFalseType>(present);
        case 10: return e.reportTypeMismatch<rj::kObjectType>(present);
        case 11: return e.reportTypeMismatch<rj::kArrayType>(present);
        case 12: return e.reportTypeMismatch<rj::kStringType>(present);
        case 13: return e.reportTypeMismatch<rj::kNumberType>(present);
        case 14: return e.reportArraySizeMismatch();
        case 15: return e.reportConversionError(type);
        case 16: return e.reportUnexpectedDuplicate(type);
        case 17: return e.reportInvalidVariantObject();
        default: return e.reportInvalidVariantIndex(type);
        }
    }
    void check(const rr::JsonDeserializationError &e) const
    {
        static const Type expected[] = { Type::Number, Type::Bool, Type::String, Type::Array, Type::Array, Type::Object, Type::Number, Type::Null, Type::Bool, Type::Bool, Type::Object, Type::Array, Type::String, Type::Number };
        PBT_CHECK(e.kind == kind(which), "kind", "kind " + std::to_string(static_cast<int>(e.kind)) + " of report " + std::to_string(which));
        PBT_CHECK(e.record == record && e.member == member && e.index == index, "context", "context of report " + std::to_string(which));
        if (which < 14) PBT_CHECK(e.expectedType == expected[which] && e.actualType == types[present], "types", "types of report " + std::to_string(which));
        if (which == 15 || which == 16 || which == 18) PBT_CHECK(e.actualType == types[present], "types", "type of report " + std::to_string(which));
    }
};

void reported(Tape &t, Ctx &c)
{
    static const char *const names[] = { nullptr, "a::Record", "member", "other" };
    std::vector<Report> reports;
    std::string show;
    for (auto n = 1 + t.below(6); n; --n) {
        Report r{ static_cast<unsigned>(t.below(19)), static_cast<rj::Type>(t.below(7)), names[t.below(4)], names[t.below(4)], t.below(2) ? t.below(100) : rr::JsonDeserializationError::noIndex };
        show += std::to_string(r.which) + "/" + std::to_string(r.present) + (r.record ? r.record : "-") + (r.member ? r.member : "-") + " ";
        reports.push_back(r);
    }
    const auto mask = t.chance(1, 8) ? 63 : t.below(64);
    c.describe("mask " + std::to_string(mask) + " reports " + show);
    c.identify(c.show);
    c.label("reported by custom code");
    rr::JsonDeserializationErrors errors;
    PBT_CHECK(errors.throwOn == On::None, "default", "errors are fatal by default");
    for (unsigned i = 0; i < 6; ++i) if (mask & (1u << i)) errors.throwOn = t.below(2) ? errors.throwOn | flags[i] : flags[i] | errors.throwOn;
    if (mask == 63 && t.below(2)) errors.throwOn = On::All;
    std::size_t count = 0;
    for (const auto &r : reports) {
        const bool fatal = mask & (1u << static_cast<unsigned>(Report::kind(r.which)));
        std::optional<rr::JsonDeserializationError> thrown;
        try {
            r(errors);
        } catch (const rr::JsonDeserializationError &e) {
            thrown = e;
        }
        PBT_CHECK(thrown.has_value() == fatal, "thrown", "report " + std::to_string(r.which) + (thrown ? " is" : " is not") + " fatal");
        PBT_CHECK(errors.size() == ++count, "count", std::to_string(errors.size()) + " errors");
        r.check(errors.back());
        if (thrown) r.check(*thrown);
        c.nontrivial |= fatal;
    }
    for (std::size_t i = 0; i < count; ++i) reports[i].check(errors[i]);
}
const pbt::Register r("reported", 2, &reported);
} // namespace
