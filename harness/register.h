// Called by the generated shards. REGISTER_ALL(fn, COND) registers fn<T, Info>(tape, ctx, name) for all types meeting COND.
#ifndef REGISTER_H
#define REGISTER_H
#include "ops.h"
#define REGISTER_ALL(FN, COND)                                                                                                                       \
    template <class T> void registerStruct(const char *name)                                                                                         \
    {                                                                                                                                                \
        using Info = ops::StructInfo<T>;                                                                                                             \
        if constexpr (COND)                                                                                                                          \
            pbt::entries().push_back({ name, 4, [name](pbt::Tape &t, pbt::Ctx &c) { FN<T, Info>(t, c, name); } });                                   \
    }                                                                                                                                                \
    template <class T, class Info> void registerRoot(const char *name)                                                                               \
    {                                                                                                                                                \
        if constexpr (COND)                                                                                                                          \
            pbt::entries().push_back({ name, 3, [name](pbt::Tape &t, pbt::Ctx &c) { FN<T, Info>(t, c, name); } });                                   \
    }
#endif
