// C21: deserializing into a used object replaces its previous contents
#include "bin_common.h"
#include "perturb.h"

template <class T, class Info> void c21(Tape &t, Ctx &c, const char *name)
{
    using namespace ops;
    cfg().sharing = t.below(2);
    const auto v = genValue<T>(t);
    auto expected = canon(v);
    auto json = ops::refJson(v);
    T used = genValue<T>(t);
    const auto previous = canon(used);
    std::vector<Alias> aliases;
    if (t.chance(2, 3)) collectShared(used, aliases); // otherwise the used object is the only owner of its objects
    const auto route = t.below(4);
    std::size_t changes = 0;
    if (route < 2 && t.below(2)) { // leave members away
        perturbAs<T>(json, t, changes);
        T partial = T();
        CloneCtx clone;
        cloneInto(partial, used, clone);
        Errs none;
        refPull(partial, json, none);
        PBT_CHECK(none.list.empty(), "harness", "data is supposed to be valid");
        expected = canon(partial);
        c.label("members missing");
    }
    c.nontrivial = substance(used) >= 1 && previous != expected;
    c.identify(name);
    c.identify(previous);
    c.identify(expected);
    c.label(route < 2 ? "JSON" : "binary");
    c.label(aliases.empty() ? "no aliases" : "aliases");
    c.describe(std::string(name) + " route " + std::to_string(route) + " previous: " + quote(previous) + " expected: " + quote(expected));
    if (route < 2) {
        std::string text;
        dumpStyled(json, text, t);
        if (changes) c.identify(text);
        rr::JsonDeserializationErrors errors;
        const auto doc = jr::parseJsonDocFromString(text.data(), text.size());
        if (route == 0) jr::pull(used, static_cast<const rj::Value &>(doc), &errors);
        else {
            rj::Document outer(rj::kObjectType);
            rj::Value copy(static_cast<const rj::Value &>(doc), outer.GetAllocator());
            outer.AddMember("m", copy, outer.GetAllocator());
            jr::pull(used, "m", static_cast<const rj::Value &>(outer).GetObject(), &errors);
        }
        PBT_CHECK(errors.empty(), "errors", errList(errors));
    } else {
        std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
        s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        writeBin<T, Info>(s, v, t.below(2));
        readBin<T, Info>(s, used, route == 3);
    }
    PBT_CHECK(canon(used) == expected, "value", "value:    " + quote(canon(used)) + "\nexpected: " + quote(expected));
    for (const auto &a : aliases) PBT_CHECK(a.now() == a.before, "alias", "object referenced from elsewhere changed from " + quote(a.before) + " to " + quote(a.now()));
}
REGISTER_ALL(c21, Info::json && Info::bin && Info::pull && !Info::hasConst && !Info::serOnly)
