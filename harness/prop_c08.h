// C08: binary round trip restores every value and consumes exactly its bytes
#include "bin_common.h"

struct BinType {
    std::string name;
    std::unique_ptr<Holder> (*make)(Tape &);
};
inline std::vector<BinType> &binTypes() { static std::vector<BinType> t; return t; }
template <class T, class Info> std::unique_ptr<Holder> makeHolder(Tape &t) { return std::make_unique<HolderOf<T, Info>>(genBinValue<T>(t, true, 3, true)); }
template <class T, class Info> int addBinType(const char *name)
{
    binTypes().push_back({ name, &makeHolder<T, Info> });
    return 0;
}
inline const std::vector<BinType> &sortedBinTypes()
{
    static const bool sorted = (std::sort(binTypes().begin(), binTypes().end(), [](const auto &a, const auto &b) { return a.name < b.name; }), true);
    (void)sorted;
    return binTypes();
}

template <class T, class Info> void c08(Tape &t, Ctx &c, const char *name)
{
    ops::cfg().reset(0);
    const auto &types = sortedBinTypes();
    std::vector<std::unique_ptr<Holder>> values;
    std::string names = name;
    values.push_back(makeHolder<T, Info>(t));
    for (auto n = t.below(4); n; --n) {
        const auto &ty = types[t.below(types.size())];
        names += ", " + ty.name;
        values.push_back(ty.make(t));
    }
    // partition the values into groups written by the same serializer
    std::vector<std::size_t> groupEnd;
    for (std::size_t i = 0; i < values.size(); ++i) if (i + 1 == values.size() || t.below(2)) groupEnd.push_back(i + 1);
    std::vector<std::string> expected;
    BinStream s;
    const std::string junkBefore(t.below(4), '\x7e');
    s << junkBefore;
    std::vector<std::streamoff> ends;
    std::size_t i = 0, substance = 0;
    std::string shown;
    for (const auto end : groupEnd) {
        ops::CanonCtx identity;
        identity.identity = true;
        const bool single = end == i + 1;
        br::BinarySerializer serializer(&s);
        for (; i < end; ++i) {
            expected.emplace_back();
            values[i]->canon(expected.back(), identity);
            shown += expected.back() + (i + 1 == end ? " || " : " | ");
            substance += values[i]->substance();
            if (single && t.below(2)) values[i]->writeOwn(s, t.below(2)); else values[i]->write(serializer);
            ends.push_back(s.tellp());
        }
    }
    const auto bytes = s.str();
    c.nontrivial = substance >= 2;
    c.identify(name);
    c.identify(shown);
    c.label(std::to_string(values.size()) + " values");
    c.label(std::to_string(groupEnd.size()) + " serializers");
    c.describe(names + ": " + quoteBin(shown));
    s << "\x81trailing data";
    s.seekg(static_cast<std::streamoff>(junkBefore.size()));
    i = 0;
    for (const auto end : groupEnd) {
        ops::CanonCtx identity;
        identity.identity = true;
        const bool single = end == i + 1;
        br::BinaryDeserializer deserializer(&s);
        std::vector<std::unique_ptr<Holder>> keep;
        for (; i < end; ++i) {
            keep.push_back(single && t.below(2) ? values[i]->readOwn(s, static_cast<unsigned>(t.below(3))) : values[i]->read(deserializer));
            std::string actual;
            keep.back()->canon(actual, identity);
            PBT_CHECK(s.tellg() == ends[i], "position", "value " + std::to_string(i) + ": stream at " + std::to_string(s.tellg()) + " instead of " + std::to_string(ends[i]));
            PBT_CHECK(actual == expected[i], "value", "value " + std::to_string(i) + ": " + quoteBin(actual) + "\nexpected: " + quoteBin(expected[i]) + "\nbytes: " + hex(bytes));
        }
    }
}
template <class T> void registerStruct(const char *name)
{
    using Info = ops::StructInfo<T>;
    if constexpr (Info::bin && !Info::hasConst) {
        addBinType<T, Info>(name);
        pbt::entries().push_back({ name, 4, [name](Tape &t, Ctx &c) { c08<T, Info>(t, c, name); } });
    }
}
template <class T, class Info> void registerRoot(const char *name)
{
    if constexpr (Info::bin) {
        addBinType<T, Info>(name);
        pbt::entries().push_back({ name, 3, [name](Tape &t, Ctx &c) { c08<T, Info>(t, c, name); } });
    }
}
