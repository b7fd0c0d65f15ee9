// C09: the binary representation is fixed and platform independent
#include "bin_common.h"

template <class T, class Info> void c09(Tape &t, Ctx &c, const char *name)
{
    using namespace ops;
    cfg().reset(0);
    const auto v = genBinValue<T>(t, t.below(2), 3, true);
    const auto expected = canon(v, true);
    c.nontrivial = substance(v) >= 1;
    c.identify(name);
    c.identify(expected);
    c.describe(std::string(name) + ": " + quoteBin(expected));
    // bytes written: the ids of shared objects are up to the writer, everything else is fixed
    BinStream s;
    writeBin<T, Info>(s, v, t.below(2));
    const auto bytes = s.str();
    {
        ReadCtx r(bytes);
        try {
            T ignored = T();
            refRead(ignored, r);
        } catch (const model::BadBinary &) {
        } catch (const model::AmbiguousBinary &) {
        }
        model::BinOut o;
        std::size_t next = 0;
        o.newId = [&]() -> std::uint64_t { return next < r.idOrder.size() ? r.idOrder[next++] : 1000000 + next++; };
        refWrite(v, o);
        PBT_CHECK(o.bytes == bytes, "bytes", "written:  " + hex(bytes) + "\nexpected: " + hex(o.bytes) + "\nvalue: " + quoteBin(expected));
        std::set<std::uint64_t> ids(r.idOrder.begin(), r.idOrder.end());
        PBT_CHECK(ids.size() == r.idOrder.size(), "ids", "ids of shared objects are not unique: " + hex(bytes));
        if (!r.idOrder.empty()) c.label("shared objects");
    }
    // bytes read: any encoding following the format
    model::BinOut o;
    std::set<std::uint64_t> used;
    o.newId = [&] {
        for (;;) {
            const std::uint64_t id = [&]() -> std::uint64_t {
                switch (t.below(5)) {
                case 0: return 1 + t.below(200);
                case 1: return (1ull << 55) - 3 + t.below(6);
                case 2: return ~0ull - t.below(4);
                case 3: return (1ull << t.below(64)) + t.below(3);
                default: return 1 + t.below(1u << 20) * 0x100000001ull;
                }
            }();
            if (used.insert(id).second) return id;
            const auto alternative = 5000 + used.size();
            if (used.insert(alternative).second) return static_cast<std::uint64_t>(alternative);
        }
    };
    refWrite(v, o);
    BinStream in(o.bytes);
    T out = T();
    readBin<T, Info>(in, out, t.below(2));
    PBT_CHECK(canon(out, true) == expected, "value", "read: " + quoteBin(canon(out, true)) + "\nexpected: " + quoteBin(expected) + "\nbytes: " + hex(o.bytes));
    PBT_CHECK(static_cast<std::size_t>(in.tellg()) == o.bytes.size(), "position", "position " + std::to_string(in.tellg()) + " of " + std::to_string(o.bytes.size()));
}
REGISTER_ALL(c09, Info::bin && !Info::hasConst)
