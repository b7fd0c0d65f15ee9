// input of the generator for the probe of a known finding
#pragma once
#define REFLECTIVE_RAPIDJSON_SHORT_MACROS
#include <reflective_rapidjson/binary/serializable.h>
namespace probe {
struct Base : public ReflectiveRapidJSON::BinarySerializable<Base> { // not versioned but with members depending on the version
    int a = 0;
as_of_version(2):
    int b = 0;
};
struct Versioned : public Base, public ReflectiveRapidJSON::BinarySerializable<Versioned, 3> {
    int c = 0;
};
} // namespace probe
