// C02: JSON output is valid and follows the documented type mapping
#include "json_common.h"

template <class T, class Info> void c02(Tape &t, Ctx &c, const char *name)
{
    const T v = genValue<T>(t, false, true);
    const auto before = ops::canon(v);
    auto expected = ops::refJson(v);
    const auto how = t.below(6);
    c.nontrivial = weight(expected) >= 3 || ops::cat<T> != ops::Cat::Struct;
    c.identify(name);
    c.identify(before);
    c.label("way " + std::to_string(how));
    c.describe(std::string(name) + " way " + std::to_string(how) + ": " + quote(before));
    std::string text, again;
    for (int round = 0; round < 2; ++round) {
        auto &out = round ? again : text;
        if (how < 4)
            out = serializeSomehow<T, Info>(v, how);
        else if (how == 4) { // as element after another element
            rj::Document doc(rj::kArrayType);
            rj::Value::Array arr(doc.GetArray());
            jr::push(true, arr, doc.GetAllocator());
            jr::push(v, arr, doc.GetAllocator());
            out = textOf(jr::serializeJsonDocToString(doc));
        } else { // as member
            rj::Document doc(rj::kObjectType);
            rj::Value::Object obj(doc.GetObject());
            jr::push(std::string("x"), "before", obj, doc.GetAllocator());
            jr::push(v, "the value", obj, doc.GetAllocator());
            out = textOf(jr::serializeJsonDocToString(doc));
        }
    }
    if (how == 4) { JV a = JV::arr(); a.a = { JV::boolean(true), expected }; expected = a; }
    if (how == 5) { JV o = JV::obj(); o.o.emplace_back("before", JV::str("x")); o.o.emplace_back("the value", expected); expected = o; }
    PBT_CHECK(ops::canon(v) == before, "modified", "serializing modified the value: " + quote(ops::canon(v)));
    PBT_CHECK(again == text, "again", "serializing again differs: " + quote(text) + " vs. " + quote(again));
    PBT_CHECK(model::validUtf8(text), "utf8", "invalid UTF-8: " + quote(text));
    model::Parser p(text);
    const auto parsed = p.parse();
    PBT_CHECK(parsed.has_value(), "malformed", p.error + ": " + quote(text));
    PBT_CHECK(model::same(*parsed, expected), "mapping", "text: " + quote(text) + "\nexpected: " + quote(model::dump(expected)));
}
REGISTER_ALL(c02, Info::json)

static pbt::RegisterProbe nonFinite("nonfinite", [] {
    for (const double d : { std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN() }) {
        const auto text = textOf(jr::toJson(std::vector<double>{ d }));
        model::Parser p(text);
        if (!p.parse()) pbt::fail("malformed", "non-finite numbers are serialized as " + text);
    }
});
