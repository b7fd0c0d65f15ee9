// C25: types with custom (de)serialization take part in everything like built-in ones
#include "bin_common.h"
#include "json_common.h"
#undef REGISTER_ALL
#define REGISTER_ALL(FN, COND)
#include "prop_c01.h"
#include "prop_c02.h"
#include "prop_c05.h"
#include "prop_c06.h"
#include "prop_c07.h"
#include "prop_c09.h"
#include "prop_c10.h"
#include "prop_c21.h"
#undef REGISTER_ALL
#define REGISTER_ALL(FN, COND)                                                                                                                       \
    template <class T> void registerStruct(const char *name)                                                                                         \
    {                                                                                                                                                \
        pbt::entries().push_back({ name, 4, [name](pbt::Tape &t, pbt::Ctx &c) { FN<T, ops::StructInfo<T>>(t, c, name); } });                         \
    }                                                                                                                                                \
    template <class T, class Info> void registerRoot(const char *name)                                                                               \
    {                                                                                                                                                \
        pbt::entries().push_back({ name, 3, [name](pbt::Tape &t, pbt::Ctx &c) { FN<T, Info>(t, c, name); } });                                       \
    }

template <class T, class Info> void c25(Tape &t, Ctx &c, const char *name)
{
    const auto what = t.below(2);
    constexpr bool pullable = Info::pull && !Info::hasConst && !Info::serOnly;
    if constexpr (Info::json && pullable) {
        if (!Info::bin || what == 0) switch (t.below(5)) {
        case 0: c.label("JSON round trip"); return c01<T, Info>(t, c, name);
        case 1: c.label("JSON mapping"); return c02<T, Info>(t, c, name);
        case 2: c.label("JSON deviations"); return c05<T, Info>(t, c, name);
        case 3: c.label("JSON fatal errors"); return c06<T, Info>(t, c, name);
        default: c.label("JSON missing members"); return c07<T, Info>(t, c, name);
        }
    }
    if constexpr (Info::bin && !Info::hasConst) {
        switch (t.below(3)) {
        case 0: c.label("binary format"); return c09<T, Info>(t, c, name);
        case 1: c.label("binary corruption"); return c10<T, Info>(t, c, name);
        default:
            if constexpr (Info::json && pullable) { c.label("used objects"); return c21<T, Info>(t, c, name); }
            c.label("binary format");
            return c09<T, Info>(t, c, name);
        }
    }
}
REGISTER_ALL(c25, true)
