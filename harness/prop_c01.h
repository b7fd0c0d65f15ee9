// C01: JSON round trip restores every supported value
#include "json_common.h"

template <class T, class Info> void c01(Tape &t, Ctx &c, const char *name)
{
    const auto exact = !t.chance(1, 4); // RapidJSON parses some doubles imprecisely (known finding)
    auto v = genValue<T>(t, exact, true);
    const auto equal = [exact](const std::string &x, const std::string &y) { return x == y || (!exact && ops::closeCanon(x, y)); };
    const auto before = ops::canon(v);
    const auto route = t.below(8);
    c.nontrivial = ops::substance(v) >= 2 || ops::cat<T> != ops::Cat::Struct;
    c.identify(name);
    c.identify(before);
    c.label("route " + std::to_string(route));
    c.describe(std::string(name) + " route " + std::to_string(route) + ": " + quote(before));
    rr::JsonDeserializationErrors errors;
    std::string text, after;
    bool noCollector = false;
    switch (route) {
    default: // free functions, pointer and size (no terminating NUL)
        text = textOf(jr::toJson(v));
        {
            const auto size = text.size();
            std::unique_ptr<char[]> buf(new char[size ? size : 1]);
            std::memcpy(buf.get(), text.data(), size);
            after = ops::canon(jr::fromJson<T>(buf.get(), size, &errors));
        }
        break;
    case 1: // free functions, std::string
        text = textOf(jr::toJson(v));
        after = ops::canon(jr::fromJson<T>(text, &errors));
        break;
    case 2: { // free functions, C-string
        const auto buf = jr::toJson(v);
        text = textOf(buf);
        after = ops::canon(jr::fromJson<T>(buf.GetString(), &errors));
        break;
    }
    case 3: { // going through a document
        auto doc = jr::toJsonDocument<T>(v);
        text = textOf(jr::serializeJsonDocToString(doc));
        const auto parsed = jr::parseJsonDocFromString(text.data(), text.size());
        T out = T();
        jr::pull(out, static_cast<const rj::Value &>(parsed), &errors);
        after = ops::canon(out);
        break;
    }
    case 4: // document without text in between
    {
        const auto doc = jr::toJsonDocument<T>(v);
        T out = T();
        jr::pull(out, static_cast<const rj::Value &>(doc), &errors);
        after = ops::canon(out);
        break;
    }
    case 5: // without error collector
        text = textOf(jr::toJson(v));
        after = ops::canon(jr::fromJson<T>(text));
        noCollector = true;
        break;
    case 6: // members
        if constexpr (ops::cat<T> == ops::Cat::Struct) {
            if constexpr (ops::StructInfo<T>::crtp) {
                const auto &s = static_cast<const rr::JsonSerializable<T> &>(v);
                using S = rr::JsonSerializable<T>;
                switch (t.below(4)) {
                case 0: { const auto b = s.toJson(); text = textOf(b); after = ops::canon(S::fromJson(b.GetString(), &errors)); break; }
                case 1: text = textOf(s.toJson()); after = ops::canon(S::fromJson(text, &errors)); break;
                case 2: text = textOf(rr::as(v).toJson()); after = ops::canon(S::fromJson(text.data(), text.size(), &errors)); break;
                default: { auto d = s.toJsonDocument(); text = textOf(jr::serializeJsonDocToString(d)); after = ops::canon(S::fromJson(text.data(), text.size(), &errors)); break; }
                }
                break;
            }
        }
        [[fallthrough]];
    case 7: { // as element of an array and as member of an object
        rj::Document doc(rj::kArrayType);
        rj::Value::Array arr(doc.GetArray());
        jr::push(v, arr, doc.GetAllocator());
        rj::Value objv(rj::kObjectType);
        rj::Value::Object obj(objv.GetObject());
        jr::push(v, "item", obj, doc.GetAllocator());
        arr.PushBack(objv, doc.GetAllocator());
        text = textOf(jr::serializeJsonDocToString(doc));
        const auto parsed = jr::parseJsonDocFromString(text.data(), text.size());
        PBT_CHECK(parsed.IsArray() && parsed.GetArray().Size() == 2, "shape", "not an array with two elements: " + quote(text));
        T out = T();
        jr::pull(out, parsed.GetArray()[0], &errors);
        after = ops::canon(out);
        T out2 = T();
        jr::pull(out2, "item", parsed.GetArray()[1].GetObject(), &errors);
        PBT_CHECK(equal(ops::canon(out2), before), "member", "member differs: " + quote(ops::canon(out2)) + " text: " + quote(text));
    }
    }
    PBT_CHECK(noCollector || errors.empty(), "errors", "errors for data just written: " + errList(errors) + " text: " + quote(text));
    PBT_CHECK(equal(after, before), "value", "restored: " + quote(after) + "\ntext: " + quote(text));
}
REGISTER_ALL(c01, Info::json && Info::pull && !Info::hasConst && !Info::serOnly)

static pbt::RegisterProbe precision("double-precision", [] {
    const double d = 2.3415751315075087e-198;
    const auto v = jr::fromJson<std::vector<double>>(textOf(jr::toJson(std::vector<double>{ d })));
    if (v.size() != 1 || v[0] != d) pbt::fail("value", "restored imprecisely");
});
