// C03: JSON documents and deserialized objects own all their data
#include "json_common.h"

template <class T, class Info> void c03(Tape &t, Ctx &c, const char *name)
{
    using namespace ops;
    const auto part = Info::pull && !Info::hasConst && !Info::serOnly ? t.below(4) : t.below(2);
    auto v = std::make_unique<T>(genValue<T>(t));
    const auto before = canon(*v);
    const auto expected = refJson(*v);
    c.nontrivial = substance(*v) >= 1;
    c.identify(name);
    c.identify(before);
    c.label("part " + std::to_string(part));
    c.describe(std::string(name) + " part " + std::to_string(part) + ": " + quote(before));
    const auto dispose = [&] { // gets rid of the original value
        switch (t.below(3)) {
        case 0: break;
        case 1: { cfg().elements = 20; const auto keep = cfg().viewStorage; genInto(t, *v); break; }
        default: { T moved(std::move(*v)); (void)moved; }
        }
        v.reset();
        cfg().viewStorage.clear();
    };
    if (part == 0) { // document of a single value
        rj::Document doc = [&] {
            if constexpr (Info::crtp) { if (t.below(2)) return static_cast<const rr::JsonSerializable<T> &>(*v).toJsonDocument(); }
            return jr::toJsonDocument<T>(*v);
        }();
        dispose();
        if (t.below(2)) { rj::Document other(std::move(doc)); doc = std::move(other); }
        const auto jv = toJv(doc);
        PBT_CHECK(model::same(jv, expected), "document", "document: " + quote(model::dump(jv)) + " expected: " + quote(model::dump(expected)));
        const auto text = textOf(jr::serializeJsonDocToString(doc));
        model::Parser p(text);
        const auto parsed = p.parse();
        PBT_CHECK(parsed && model::same(*parsed, expected), "text", "text: " + quote(text) + " expected: " + quote(model::dump(expected)));
    } else if (part == 1) { // document assembled from several values
        rj::Document doc(rj::kArrayType);
        rj::Value::Array arr(doc.GetArray());
        jr::push(*v, arr, doc.GetAllocator());
        rj::Value objv(rj::kObjectType);
        rj::Value::Object obj(objv.GetObject());
        jr::push(*v, "member", obj, doc.GetAllocator());
        arr.PushBack(objv, doc.GetAllocator());
        dispose();
        {
            auto other = std::make_unique<T>(genValue<T>(t));
            rj::Value otherv(rj::kObjectType);
            rj::Value::Object oobj(otherv.GetObject());
            jr::push(*other, "other", oobj, doc.GetAllocator());
            other.reset();
            cfg().viewStorage.clear();
        }
        const auto jv = toJv(doc);
        JV e = JV::arr(), m = JV::obj();
        m.o.emplace_back("member", expected);
        e.a = { expected, m };
        PBT_CHECK(model::same(jv, e), "document", "document: " + quote(model::dump(jv)) + " expected: " + quote(model::dump(e)));
        textOf(jr::serializeJsonDocToString(doc));
    } else if constexpr (Info::pull && !Info::hasConst && !Info::serOnly) {
        std::string text;
        dumpStyled(expected, text, t);
        HeapText heap(text);
        rr::JsonDeserializationErrors errors;
        if (part == 2) { // from text
            T out = [&] {
                if constexpr (Info::crtp) { if (t.below(2)) return rr::JsonSerializable<T>::fromJson(heap.buf.get(), heap.size, &errors); }
                return jr::fromJson<T>(heap.buf.get(), heap.size, &errors);
            }();
            heap.destroy();
            PBT_CHECK(canon(out) == before, "value", "value: " + quote(canon(out)) + " text: " + quote(text));
        } else { // from a document
            T out = T();
            {
                auto doc = std::make_unique<rj::Document>(jr::parseJsonDocFromString(heap.buf.get(), heap.size));
                heap.destroy();
                jr::pull(out, static_cast<const rj::Value &>(*doc), &errors);
                for (auto &m : std::vector<int>(1)) (void)m, doc->SetNull();
            }
            PBT_CHECK(canon(out) == before, "value", "value: " + quote(canon(out)) + " text: " + quote(text));
        }
        PBT_CHECK(errors.empty(), "errors", errList(errors) + " text: " + quote(text));
    }
}
REGISTER_ALL(c03, Info::json)
