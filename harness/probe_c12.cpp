// known finding: data of classes with base classes depending on the version which has been written with an explicit version
#include "probe_c12_input.h"
#include "probe_c12_input.gen.h"

#include "pbt.h"

#include <sstream>

static pbt::RegisterProbe probeBase("explicit-version-base", [] {
    probe::Versioned v, r;
    v.a = 1, v.b = 2, v.c = 3;
    std::stringstream s;
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    static_cast<ReflectiveRapidJSON::BinarySerializable<probe::Versioned, 3> &>(v).toBinary(s, 3);
    try {
        static_cast<ReflectiveRapidJSON::BinarySerializable<probe::Versioned, 3> &>(r).restoreFromBinary(s);
    } catch (const std::exception &e) {
        pbt::fail("read", e.what());
    } catch (const ReflectiveRapidJSON::BinaryVersionNotSupported &e) {
        pbt::fail("read", "version " + std::to_string(e.presentVersion) + " not supported");
    }
    if (r.a != 1 || r.b != 2 || r.c != 3) pbt::fail("read", "wrong values");
});
