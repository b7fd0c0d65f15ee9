// C07: missing, additional and reordered members are tolerated
#include "perturb.h"

template <class T, class Info> void c07(Tape &t, Ctx &c, const char *name)
{
    using namespace ops;
    const auto source = genValue<T>(t);
    JV j = refJson(source);
    std::size_t changes = 0;
    perturbAs<T>(j, t, changes);
    std::string text;
    dumpStyled(j, text, t);
    c.nontrivial = changes > 0;
    c.identify(name);
    c.identify(text);
    rr::JsonDeserializationErrors errors;
    HeapText heap(text);
    std::string expected, actual;
    if constexpr (Info::hasConst || Info::serOnly) { // members not deserialized keep the values given by the class
        c.describe(std::string(name) + " text: " + quote(text));
        c.label("fresh object with constant members");
        T e = T();
        Errs ignored;
        refPull(e, j, ignored);
        expected = canon(e);
        actual = canon(jr::fromJson<T>(heap.buf.get(), heap.size, Info::serOnly ? nullptr : &errors));
    } else {
        cfg().viewStorage.clear();
        T previous = t.below(3) ? genValue<T>(t) : T();
        T e = T();
        CloneCtx cc;
        cloneInto(e, previous, cc);
        c.describe(std::string(name) + " previous contents: " + quote(canon(previous)) + " text: " + quote(text));
        Errs none;
        refPull(e, j, none);
        PBT_CHECK(none.list.empty(), "harness", "model reports errors: " + errList(none.list));
        expected = canon(e);
        const auto doc = jr::parseJsonDocFromString(heap.buf.get(), heap.size);
        if (t.below(4)) jr::pull(previous, static_cast<const rj::Value &>(doc), &errors);
        else jr::pull(previous, static_cast<const rj::Value &>(doc), nullptr);
        actual = canon(previous);
    }
    PBT_CHECK(errors.empty(), "errors", "errors: " + errList(errors));
    PBT_CHECK(actual == expected, "value", "value:    " + quote(actual) + "\nexpected: " + quote(expected));
}
REGISTER_ALL(c07, Info::json && Info::pull)
