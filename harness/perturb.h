#pragma once
#include "json_common.h"

/// Removes, permutes and adds members of the objects representing classes as present in \a value.
template <class T> void perturbAs(JV &j, Tape &t, std::size_t &changes); // follows the type to tell classes from maps and variants
template <class T, std::size_t... I> void perturbVariant(JV &data, std::uint64_t idx, Tape &t, std::size_t &changes, std::index_sequence<I...>)
{
    (void)((idx == I ? (perturbAs<std::variant_alternative_t<I, T>>(data, t, changes), true) : false) || ...);
}
template <class T, std::size_t... I> void perturbTuple(JV &j, Tape &t, std::size_t &changes, std::index_sequence<I...>)
{
    (perturbAs<std::tuple_element_t<I, T>>(j.a[I], t, changes), ...);
}
inline void shuffle(JV &j, Tape &t, std::size_t &changes)
{
    for (std::size_t i = j.o.size(); i > 1; --i) { const auto k = t.below(i); if (k != i - 1) { std::swap(j.o[i - 1], j.o[k]); ++changes; } }
}
template <class T> void perturbAs(JV &j, Tape &t, std::size_t &changes)
{
    using namespace ops;
    constexpr Cat c = cat<T>;
    if constexpr (c == Cat::Seq) { for (auto &e : j.a) perturbAs<typename T::value_type>(e, t, changes); }
    else if constexpr (c == Cat::Map) { for (auto &m : j.o) perturbAs<typename T::mapped_type>(m.second, t, changes); }
    else if constexpr (c == Cat::MMap) { for (auto &m : j.o) for (auto &e : m.second.a) perturbAs<typename T::mapped_type>(e, t, changes); }
    else if constexpr (c == Cat::Pair || c == Cat::Tuple) perturbTuple<T>(j, t, changes, std::make_index_sequence<std::tuple_size_v<T>>());
    else if constexpr (c == Cat::Uniq || c == Cat::Shared) { if (j.kind != JV::Null) perturbAs<typename T::element_type>(j, t, changes); }
    else if constexpr (c == Cat::Opt) { if (j.kind != JV::Null) perturbAs<typename T::value_type>(j, t, changes); }
    else if constexpr (c == Cat::Variant) {
        perturbVariant<T>(j.o[1].second, static_cast<std::uint64_t>(j.o[0].second.i), t, changes, std::make_index_sequence<std::variant_size_v<T>>());
        if (t.chance(1, 3)) shuffle(j, t, changes);
        if (t.chance(1, 4)) { j.o.insert(j.o.begin() + static_cast<std::ptrdiff_t>(t.below(j.o.size() + 1)), { t.below(2) ? "Index" : "dat", junk(t, 1) }); ++changes; }
    } else if constexpr (c == Cat::Struct) {
        std::vector<std::string> names;
        StructInfo<T>::each([&](const char *, const char *name, auto mp) {
            names.push_back(name);
            for (auto &m : j.o) if (m.first == name) { perturbAs<std::remove_cv_t<typename MemberOf<decltype(mp)>::Type>>(m.second, t, changes); break; }
        });
        // remove
        if (t.chance(1, 2))
            for (std::size_t i = 0; i < j.o.size();) { if (t.chance(1, 3)) { j.o.erase(j.o.begin() + static_cast<std::ptrdiff_t>(i)); ++changes; } else ++i; }
        if (t.chance(1, 2)) shuffle(j, t, changes);
        // add members of similar or unrelated names
        for (auto n = t.chance(1, 2) ? t.below(4) : 0; n; --n) {
            std::string name;
            if (names.empty() || t.chance(1, 4)) name = ops::genString(t, true);
            else {
                name = names[t.below(names.size())];
                switch (t.below(6)) {
                case 0: name.pop_back(); break;
                case 1: name += 'x'; break;
                case 2: name += std::string("\0x", 2); break;
                case 3: name[0] = static_cast<char>(name[0] ^ 0x20); break;
                case 4: name = ' ' + name; break;
                default: name += '\0';
                }
            }
            if (std::find(names.begin(), names.end(), name) != names.end()) continue;
            j.o.insert(j.o.begin() + static_cast<std::ptrdiff_t>(t.below(j.o.size() + 1)), { name, junk(t, 2) });
            ++changes;
        }
    }
}
