// C17: Boost.Hana based reflection behaves like generated code
#include <reflective_rapidjson/binary/reflector-boosthana.h>
#include <reflective_rapidjson/json/reflector-boosthana.h>

#include "bin_common.h"
#include "json_common.h"
#include "perturb.h"

/// Adds members of the same name as present ones (with the same or another value).
inline void duplicateMembers(JV &j, Tape &t)
{
    for (auto &e : j.a) duplicateMembers(e, t);
    for (auto &m : j.o) duplicateMembers(m.second, t);
    if (j.o.empty() || !t.chance(1, 3)) return;
    for (auto n = 1 + t.below(2); n; --n) {
        auto m = j.o[t.below(j.o.size())];
        const auto &o = j.o[t.below(j.o.size())];
        switch (t.below(4)) {
        case 0: m.second = junk(t, 1); break;
        case 1: m.second = JV(o.second); break;
        case 2: deviate(m.second, t); break;
        default:;
        }
        j.o.insert(j.o.begin() + static_cast<std::ptrdiff_t>(t.below(j.o.size() + 1)), m);
    }
}
struct PullResult {
    std::string canon, errors, thrown;
    std::string str() const { return "value " + canon + "\nerrors " + errors + "\nthrown " + thrown; }
};
inline std::string anonymous(const rr::JsonDeserializationError &e) // without record as it is not available when using Boost.Hana
{
    return errText(toEk(e.kind), toJt(e.expectedType), toJt(e.actualType), "", e.member != nullptr, e.member ? e.member : "", e.index);
}
template <class T, class Info> PullResult pullSomehow(T &out, const std::string &text, unsigned route, unsigned mask, bool hana)
{
    using K = rr::JsonDeserializationErrors::ThrowOn;
    PullResult r;
    rr::JsonDeserializationErrors errors;
    errors.throwOn = static_cast<K>(mask);
    HeapText heap(text);
    T fresh = T();
    bool useFresh = false;
    try {
        switch (route) {
        case 0: fresh = jr::fromJson<T>(heap.buf.get(), heap.size, &errors); useFresh = true; break;
        case 1:
            if constexpr (Info::crtp) { fresh = rr::JsonSerializable<T>::fromJson(heap.buf.get(), heap.size, &errors); useFresh = true; break; }
            [[fallthrough]];
        case 2: {
            const auto doc = jr::parseJsonDocFromString(heap.buf.get(), heap.size);
            jr::pull(out, static_cast<const rj::Value &>(doc), &errors);
            break;
        }
        case 3: {
            const auto doc = jr::parseJsonDocFromString(heap.buf.get(), heap.size);
            rj::Document outer(rj::kObjectType);
            rj::Value copy(static_cast<const rj::Value &>(doc), outer.GetAllocator());
            outer.AddMember("m", copy, outer.GetAllocator());
            jr::pull(out, "m", static_cast<const rj::Value &>(outer).GetObject(), &errors);
            break;
        }
        default: {
            const auto doc = jr::parseJsonDocFromString(heap.buf.get(), heap.size);
            jr::pull(out, static_cast<const rj::Value &>(doc), nullptr);
        }
        }
    } catch (const rr::JsonDeserializationError &e) {
        r.thrown = anonymous(e);
    } catch (const rj::ParseResult &e) {
        r.thrown = "parse error " + std::to_string(e.Code()) + " at " + std::to_string(e.Offset());
    }
    r.canon = ops::canon(useFresh ? fresh : out);
    for (const auto &e : errors) {
        r.errors += anonymous(e) + "; ";
        if (hana) PBT_CHECK(e.record && std::string(e.record) == "[document]", "record", "record made up");
    }
    if (r.thrown.empty()) PBT_CHECK(errors.currentMember == nullptr && errors.currentIndex == rr::JsonDeserializationError::noIndex, "context", "context not restored");
    return r;
}
template <class T> T genAny(Tape &t, bool json, bool sharing)
{
    if (json) { ops::cfg().sharing = sharing; return genValue<T>(t, false); }
    ops::cfg().reset(0);
    return genBinValue<T>(t, sharing);
}
struct ReadResult {
    std::string what, canon;
    std::streamoff consumed = 0;
    std::string str() const { return what + " value " + canon + " consumed " + std::to_string(consumed); }
};
template <class T, class Info> ReadResult readSomehow(const std::string &bytes, bool viaMember)
{
    ReadResult r;
    BinStream in(bytes);
    try {
        auto out = std::make_unique<T>();
        {
            pbt::AllocCap cap(8u << 20);
            readBin<T, Info>(in, *out, viaMember);
        }
        r.canon = ops::canon(*out, true);
        r.consumed = in.tellg();
    } catch (const std::ios_base::failure &) {
        r.what = "I/O failure";
    } catch (const CppUtilities::ConversionException &) {
        r.what = "conversion error";
    } catch (const std::bad_alloc &) {
        r.what = "out of memory";
    } catch (const std::length_error &) {
        r.what = "out of memory";
    }
    return r;
}
template <class O, class OI, class H, class HI> void c17(Tape &t, Ctx &c, const char *name)
{
    using namespace ops;
    // the same choices yield corresponding values of both types
    std::vector<std::uint64_t> choices(t.range(20, 400));
    for (auto &x : choices) x = t.chance(1, 2) ? t.below(1u << 16) : t.below(0);
    const bool json = OI::json && (!OI::bin || t.below(2)), sharing = t.below(2);
    Tape to(choices, nullptr), th(choices, nullptr);
    const O o = genAny<O>(to, json, sharing);
    const H h = genAny<H>(th, json, sharing);
    if (canon(o, true) != canon(h, true)) { std::fprintf(stderr, "harness: values differ\n"); std::abort(); }
    c.identify(name);
    c.label(json ? "JSON" : "binary");
    if constexpr (OI::json) if (json) {
        const auto how = t.below(4);
        const auto textO = serializeSomehow<O, OI>(o, how), textH = serializeSomehow<H, HI>(h, how);
        PBT_CHECK(textO == textH, "text", "Boost.Hana: " + quote(textH) + "\nordinary: " + quote(textO));
        if constexpr (OI::pull && !OI::serOnly) {
            JV j = refJson(o);
            std::size_t changes = 0;
            if (t.below(2)) perturbAs<O>(j, t, changes);
            if (changes) c.label("members removed, added or in other order");
            if (t.chance(1, 4)) { duplicateMembers(j, t); c.label("possibly duplicated members"); }
            const auto deviations = t.below(5);
            for (auto n = deviations; n; --n) deviate(j, t);
            std::string text;
            dumpStyled(j, text, t);
            if (t.chance(1, 10) && !text.empty()) text.resize(t.below(text.size()));
            const auto route = static_cast<unsigned>(t.below(5)), mask = static_cast<unsigned>(t.chance(1, 3) ? t.below(64) : 0);
            Tape po(choices, nullptr), ph(choices, nullptr);
            for (auto n = t.below(4); n; --n) { po.below(2); ph.below(2); } // make the previous value a different one
            O previousO = genAny<O>(po, true, sharing);
            H previousH = genAny<H>(ph, true, sharing);
            c.identify(text + static_cast<char>(mask) + canon(previousO));
            c.describe(std::string(name) + " route " + std::to_string(route) + " mask " + std::to_string(mask) + " text " + quote(text) + " previous " + quote(canon(previousO)));
            c.label("deviations " + std::to_string(deviations));
            c.nontrivial = substance(o) >= 2 || deviations || changes;
            const auto ro = pullSomehow<O, OI>(previousO, text, route, mask, false);
            const auto rh = pullSomehow<H, HI>(previousH, text, route, mask, true);
            if (!ro.errors.empty()) c.label("errors");
            PBT_CHECK(ro.str() == rh.str(), "pull", "Boost.Hana: " + quote(rh.str()) + "\nordinary: " + quote(ro.str()));
        }
        return;
    }
    if constexpr (OI::bin) {
        std::stringstream so, sh;
        const bool viaMember = t.below(2), readViaMember = t.below(2);
        writeBin<O, OI>(so, o, viaMember);
        writeBin<H, HI>(sh, h, viaMember);
        auto bo = so.str(), bh = sh.str();
        std::vector<Alias> aliases;
        collectShared(o, aliases);
        c.describe(std::string(name) + " bytes " + hex(bo));
        c.nontrivial = bo.size() > 3;
        if (aliases.empty()) PBT_CHECK(bo == bh, "bytes", "Boost.Hana: " + hex(bh) + "\nordinary: " + hex(bo));
        // read each others data (it only differs by the ids of shared objects)
        for (const auto &b : { bo, bh }) {
            const auto ro = readSomehow<O, OI>(b, readViaMember), rh = readSomehow<H, HI>(b, readViaMember);
            PBT_CHECK(ro.str() == rh.str(), "read", "Boost.Hana: " + quoteBin(rh.str()) + "\nordinary: " + quoteBin(ro.str()));
            PBT_CHECK(rh.canon == canon(h, true), "value", "Boost.Hana: " + quoteBin(rh.str()) + "\nexpected: " + quoteBin(canon(h, true)));
        }
        if (const auto mutations = t.below(4)) {
            for (auto n = mutations; n && !bo.empty(); --n) {
                const auto pos = t.below(bo.size());
                switch (t.below(5)) {
                case 0: bo[pos] = static_cast<char>(t.below(256)); break;
                case 1: bo.erase(pos, 1 + t.below(3)); break;
                case 2: bo.insert(pos, 1, static_cast<char>(t.below(256))); break;
                case 3: bo.resize(pos); break;
                default: bo[pos] = static_cast<char>(t.below(4));
                }
            }
            c.label("corrupted");
            const auto ro = readSomehow<O, OI>(bo, readViaMember), rh = readSomehow<H, HI>(bo, readViaMember);
            c.label(ro.what.empty() ? "still valid" : ro.what);
            PBT_CHECK(ro.str() == rh.str(), "read", "data: " + hex(bo) + "\nBoost.Hana: " + quoteBin(rh.str()) + "\nordinary: " + quoteBin(ro.str()));
        }
        c.identify(bo);
    }
}
template <class O, class H> void registerPair(const char *name)
{
    using OI = ops::StructInfo<O>;
    using HI = ops::StructInfo<H>;
    pbt::entries().push_back({ name, 4, [name](Tape &t, Ctx &c) { c17<O, OI, H, HI>(t, c, name); } });
}
