// C13: generated JSON code covers exactly the documented members
#include "json_common.h"

template <class T> std::string canonOthers(const T &v)
{
    std::string s;
    ops::CanonCtx ctx;
    ops::StructInfo<T>::others([&](const char *, const char *name, auto mp) { s += name; s += '='; ops::canon(v.*mp, s, ctx); s += ';'; });
    return s;
}
template <class T> void genAll(Tape &t, T &v, bool exact) // incl. members which are not (de)serialized
{
    static const int budgets[] = { 12, 40, 150, 400 };
    ops::cfg().exact = exact;
    ops::cfg().restorable = &restorable;
    ops::cfg().reset(budgets[t.pick({ 40, 40, 17, 3 })]);
    ops::genInto(t, v);
    ops::StructInfo<T>::others([&](const char *, const char *, auto mp) {
        using M = typename ops::MemberOf<decltype(mp)>::Type;
        if constexpr (!std::is_const_v<M>) ops::genInto(t, v.*mp);
    });
}
template <class T, class Info> std::string ways(const T &v, std::uint64_t how)
{
    if constexpr (Info::crtp) if (how == 4) return textOf(rr::as(v).toJson());
    return serializeSomehow<T, Info>(v, how);
}
template <class T, class Info> void c13(Tape &t, Ctx &c, const char *name)
{
    using namespace ops;
    T v = Info::make();
    const auto deviations = t.below(3) ? 0 : 1 + t.below(4);
    genAll(t, v, true);
    const auto before = canon(v), othersBefore = canonOthers(v);
    const auto expected = refJson(v);
    const auto how = t.below(5);
    c.identify(name);
    c.identify(before);
    c.nontrivial = weight(expected) >= 3;
    c.describe(std::string(name) + " way " + std::to_string(how) + ": " + quote(before) + " others: " + quote(othersBefore));
    const auto text = ways<T, Info>(v, how);
    PBT_CHECK(canon(v) == before && canonOthers(v) == othersBefore, "modified", "serializing modified the value: " + quote(canon(v)));
    model::Parser p(text);
    const auto parsed = p.parse();
    PBT_CHECK(parsed.has_value(), "malformed", p.error + ": " + quote(text));
    PBT_CHECK(model::same(*parsed, expected), "members", "text: " + quote(text) + "\nexpected: " + quote(model::dump(expected)));
    if constexpr (Info::pull) {
        JV j = expected;
        std::string what;
        for (auto n = deviations; n; --n) what += deviate(j, t) + "; ";
        std::string in;
        dumpStyled(j, in, t);
        c.identify(in);
        c.label("deviations " + std::to_string(deviations));
        c.describe(std::string(name) + " " + what + " text: " + quote(in));
        T target = Info::make(), e = Info::make(), scratch = Info::make();
        rr::JsonDeserializationErrors errors;
        Errs expectedErrors;
        HeapText heap(in);
        std::string actualOthers, expectedOthers;
        if (t.below(2)) { // object with previous contents
            std::vector<std::uint64_t> choices(t.range(10, 300));
            for (auto &x : choices) x = t.chance(1, 2) ? t.below(1u << 16) : t.below(0);
            Tape t1(choices, nullptr), t2(choices, nullptr); // the same contents for both objects
            genAll(t1, target, true);
            genAll(t2, e, true);
            if (canon(target) != canon(e)) { std::fprintf(stderr, "harness: values differ\n"); std::abort(); }
            expectedOthers = canonOthers(target);
            const auto doc = jr::parseJsonDocFromString(heap.buf.get(), heap.size);
            refPull(e, j, expectedErrors);
            jr::pull(target, static_cast<const rj::Value &>(doc), &errors);
            c.label("used object");
            PBT_CHECK(canon(target) == canon(e), "value", "value:    " + quote(canon(target)) + "\nexpected: " + quote(canon(e)));
            actualOthers = canonOthers(target);
        } else {
            expectedOthers = canonOthers(target);
            refPull(e, j, expectedErrors);
            bool done = false;
            if constexpr (Info::crtp) {
                if (t.below(2)) {
                    const T r = rr::JsonSerializable<T>::fromJson(heap.buf.get(), heap.size, &errors);
                    PBT_CHECK(canon(r) == canon(e), "value", "value:    " + quote(canon(r)) + "\nexpected: " + quote(canon(e)));
                    actualOthers = canonOthers(r);
                    done = true;
                }
            }
            if (!done) {
                const T r = jr::fromJson<T>(heap.buf.get(), heap.size, &errors);
                PBT_CHECK(canon(r) == canon(e), "value", "value:    " + quote(canon(r)) + "\nexpected: " + quote(canon(e)));
                actualOthers = canonOthers(r);
            }
        }
        PBT_CHECK(actualOthers == expectedOthers, "others", "members not covered: " + quote(actualOthers) + "\nexpected: " + quote(expectedOthers));
        for (const auto &x : expectedErrors.list) c.label(ekName(x.kind));
        PBT_CHECK(errList(errors) == errList(expectedErrors.list), "errors", "errors:   " + errList(errors) + "\nexpected: " + errList(expectedErrors.list));
    }
}
REGISTER_ALL(c13, Info::json)
