// C05: deviating JSON data is reported exactly and everything else populated
#include "json_common.h"

template <class T, class Info> void c05(Tape &t, Ctx &c, const char *name)
{
    using namespace ops;
    JV j = refJson(genValue<T>(t));
    std::string what;
    for (auto n = t.below(6); n; --n) what += deviate(j, t) + "; ";
    std::string text;
    dumpStyled(j, text, t);
    const auto route = t.below(5);
    c.identify(name);
    c.identify(text);
    c.label("route " + std::to_string(route));
    c.describe(std::string(name) + " route " + std::to_string(route) + " " + what + " text: " + quote(text));
    Errs expectedErrors;
    rr::JsonDeserializationErrors errors;
    std::string expected, actual, noCollector;
    HeapText heap(text);
    if (route < 3) { // fresh object from text
        T e = T();
        refPull(e, j, expectedErrors);
        expected = canon(e);
        if constexpr (Info::crtp) { if (route == 1) actual = canon(rr::JsonSerializable<T>::fromJson(heap.buf.get(), heap.size, &errors)); }
        if (actual.empty()) actual = canon(jr::fromJson<T>(heap.buf.get(), heap.size, &errors));
        noCollector = canon(jr::fromJson<T>(heap.buf.get(), heap.size));
    } else if constexpr (!Info::hasConst) { // object with previous contents
        const auto doc = jr::parseJsonDocFromString(heap.buf.get(), heap.size);
        T previous = genValue<T>(t), e = T(), n = T();
        CloneCtx c1, c2;
        cloneInto(e, previous, c1);
        cloneInto(n, previous, c2);
        if (route == 4) { // as member
            rj::Document outer(rj::kObjectType);
            rj::Value copy(static_cast<const rj::Value &>(doc), outer.GetAllocator());
            outer.AddMember("theMember", copy, outer.GetAllocator());
            JV o = JV::obj();
            o.o.emplace_back("theMember", j);
            expectedErrors.member = "theMember";
            expectedErrors.hasMember = true;
            refPull(e, j, expectedErrors);
            const auto &co = static_cast<const rj::Value &>(outer);
            jr::pull(previous, "theMember", co.GetObject(), &errors);
            jr::pull(n, "theMember", co.GetObject(), nullptr);
        } else {
            refPull(e, j, expectedErrors);
            jr::pull(previous, static_cast<const rj::Value &>(doc), &errors);
            jr::pull(n, static_cast<const rj::Value &>(doc), nullptr);
        }
        expected = canon(e);
        actual = canon(previous);
        noCollector = canon(n);
    } else {
        return;
    }
    c.nontrivial = !expectedErrors.list.empty();
    for (const auto &e : expectedErrors.list) c.label(ekName(e.kind));
    PBT_CHECK(errList(errors) == errList(expectedErrors.list), "errors", "errors:   " + errList(errors) + "\nexpected: " + errList(expectedErrors.list));
    PBT_CHECK(actual == expected, "value", "value:    " + quote(actual) + "\nexpected: " + quote(expected));
    PBT_CHECK(noCollector == expected, "no-collector", "value:    " + quote(noCollector) + "\nexpected: " + quote(expected));
    PBT_CHECK(errors.currentMember == nullptr && errors.currentIndex == rr::JsonDeserializationError::noIndex && std::string(errors.currentRecord) == "[document]", "context", "context not restored afterwards");
}
REGISTER_ALL(c05, Info::json && Info::pull && !Info::serOnly)
