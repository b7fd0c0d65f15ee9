// C06: error kinds marked fatal stop deserialization with exactly that error
#include "json_common.h"

template <class T, class Info> void c06(Tape &t, Ctx &c, const char *name)
{
    using namespace ops;
    using K = rr::JsonDeserializationErrors::ThrowOn;
    static const K flags[] = { K::TypeMismatch, K::ArraySizeMismatch, K::ConversionError, K::UnexpectedDuplicate, K::InvalidVariantObject, K::InvalidVariantIndex };
    JV j = refJson(genValue<T>(t));
    for (auto n = t.below(6); n; --n) deviate(j, t);
    const auto mask = t.chance(1, 8) ? 63 : t.below(64);
    std::string text;
    dumpStyled(j, text, t);
    c.identify(name);
    c.identify(text + static_cast<char>(mask));
    c.describe(std::string(name) + " mask " + std::to_string(mask) + " text: " + quote(text));
    T e = T();
    Errs all;
    refPull(e, j, all);
    std::vector<Err> expected;
    bool fatal = false;
    for (const auto &x : all.list) {
        expected.push_back(x);
        if (mask & (1u << static_cast<unsigned>(x.kind))) { fatal = true; c.label(std::string("fatal ") + ekName(x.kind)); break; }
    }
    c.nontrivial = fatal;
    rr::JsonDeserializationErrors errors;
    errors.throwOn = K::None;
    for (unsigned i = 0; i < 6; ++i) if (mask & (1u << i)) errors.throwOn = errors.throwOn | flags[i];
    if (mask == 63 && t.below(2)) errors.throwOn = K::All;
    bool thrown = false;
    std::string what, value;
    HeapText heap(text);
    try {
        if constexpr (Info::crtp) { if (t.below(2)) value = canon(rr::JsonSerializable<T>::fromJson(heap.buf.get(), heap.size, &errors)); }
        if (value.empty()) value = canon(jr::fromJson<T>(heap.buf.get(), heap.size, &errors));
    } catch (const rr::JsonDeserializationError &err) {
        thrown = true;
        what = errText(err);
    }
    PBT_CHECK(thrown == fatal, "thrown", thrown ? "thrown: " + what + " expected: " + errList(expected) : "nothing thrown, errors: " + errList(errors) + " expected: " + errList(expected));
    PBT_CHECK(errList(errors) == errList(expected), "errors", "errors:   " + errList(errors) + "\nexpected: " + errList(expected));
    if (thrown) PBT_CHECK(what == errText(expected.back()), "error", "thrown: " + what + " expected: " + errText(expected.back()));
    else PBT_CHECK(value == canon(e), "value", "value: " + quote(value) + " expected: " + quote(canon(e)));
}
REGISTER_ALL(c06, Info::json && Info::pull && !Info::serOnly)
