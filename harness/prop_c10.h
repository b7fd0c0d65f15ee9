// C10: truncated or corrupted binary data never leads to undefined behaviour
#include "bin_common.h"

#include <stdexcept>

struct ReadResult {
    bool ok = false;
    std::string canon, what;
    std::size_t consumed = 0;
};
template <class T, class Info> ReadResult readBytes(const std::string &bytes, bool viaMember)
{
    ReadResult r;
    BinStream in(bytes);
    try {
        auto out = std::make_unique<T>();
        {
            pbt::AllocCap cap(8u << 20);
            readBin<T, Info>(in, *out, viaMember);
        }
        r.ok = true;
        r.canon = ops::canon(*out, false);
        r.consumed = static_cast<std::size_t>(in.tellg());
    } catch (const std::ios_base::failure &) {
        r.what = "I/O failure";
    } catch (const CppUtilities::ConversionException &) {
        r.what = "conversion error";
    } catch (const rr::BinaryVersionNotSupported &) {
        r.what = "version not supported";
    } catch (const std::bad_alloc &) {
        r.what = "out of memory";
    } catch (const std::length_error &) {
        r.what = "length error";
    }
    return r;
}
/// Breaks reference cycles which corrupted data may form is not required: canon() only follows them once via ids.
template <class T, class Info> void c10(Tape &t, Ctx &c, const char *name)
{
    using namespace ops;
    cfg().reset(0);
    const auto v = genBinValue<T>(t, true, 2);
    model::BinOut o;
    std::uint64_t nextId = 0;
    const auto idStep = t.below(3) ? 1 : (1ull << 55) + 7;
    o.newId = [&] { return nextId += idStep; };
    refWrite(v, o);
    auto bytes = o.bytes;
    const auto viaMember = t.below(2) != 0;
    c.identify(name);
    if (t.chance(1, 5)) { // truncation
        c.nontrivial = bytes.size() > 1;
        c.identify("truncation" + bytes);
        c.label("truncation");
        c.describe(std::string(name) + " truncations of " + hex(bytes));
        const std::size_t step = bytes.size() > 120 ? 1 + t.below(bytes.size() / 40) : 1;
        for (std::size_t n = 0; n < bytes.size(); n += step) {
            const auto r = readBytes<T, Info>(bytes.substr(0, n), viaMember);
            PBT_CHECK(!r.ok, "truncation", "first " + std::to_string(n) + " bytes of " + hex(bytes) + " read as " + quoteBin(r.canon));
        }
        const auto r = readBytes<T, Info>(bytes, viaMember);
        PBT_CHECK(r.ok && r.consumed == bytes.size(), "intact", r.what + ", bytes: " + hex(bytes));
        return;
    }
    const auto mutate = [&] {
        const auto pos = bytes.empty() ? 0 : t.below(bytes.size());
        if (bytes.empty()) { bytes += static_cast<char>(t.below(256)); return; }
        switch (t.below(8)) {
        case 0: bytes[pos] = static_cast<char>(t.below(256)); break;
        case 1: bytes[pos] = static_cast<char>(bytes[pos] ^ (1 << t.below(8))); break;
        case 2: { static const unsigned char e[] = { 0, 1, 2, 3, 4, 5, 6, 7, 0x7f, 0x80, 0x81, 0xff, 0x40, 0x01 }; bytes[pos] = static_cast<char>(e[t.below(sizeof e)]); break; }
        case 3: bytes.erase(pos, 1 + t.below(3)); break;
        case 4: bytes.insert(pos, 1, static_cast<char>(t.below(256))); break;
        case 5: bytes.resize(pos); break;
        case 6: bytes.insert(pos, bytes.substr(t.below(bytes.size()), t.below(12))); break;
        default: { // a size denoting plenty of elements
            static const char *const big[] = { "\xff", "\x7f\xff", "\x3f\xff\xff", "\x1f\xff\xff\xff", "\x0f\xff\xff\xff\xff", "\x07\xff\xff\xff\xff\xff", "\x03\xff\xff\xff\xff\xff\xff", "\x01\xff\xff\xff\xff\xff\xff\xff" };
            bytes.replace(pos, 1, big[t.below(8)]);
        }
        }
    };
    if (t.chance(1, 10)) {
        bytes.clear();
        for (auto n = t.below(40); n; --n) bytes += static_cast<char>(t.chance(1, 3) ? t.below(8) : t.below(256));
        c.label("arbitrary bytes");
    } else {
        for (auto n = 1 + t.below(3); n; --n) mutate();
        c.label("corruption");
    }
    c.identify(bytes);
    c.describe(std::string(name) + " bytes " + hex(bytes));
    c.nontrivial = bytes != o.bytes && !bytes.empty();
    enum { Bad, Ambiguous, Value } kind = Value;
    std::string expected;
    std::size_t consumed = 0;
    const char *why = "";
    try {
        ReadCtx r(bytes);
        auto e = std::make_unique<T>();
        refRead(*e, r);
        consumed = r.in.pos;
        expected = canon(*e, false);
    } catch (const model::BadBinary &e) {
        kind = Bad;
        why = e.why;
    } catch (const model::AmbiguousBinary &) {
        kind = Ambiguous;
    }
    const auto r = readBytes<T, Info>(bytes, viaMember);
    c.label(kind == Bad ? std::string("invalid: ") + why : kind == Value ? "still valid" : "undefined by the format");
    c.label(r.ok ? "accepted" : "rejected: " + r.what);
    if (kind == Bad) PBT_CHECK(!r.ok, "accepted", std::string("invalid data (") + why + ") read as " + quoteBin(r.canon) + " bytes: " + hex(bytes));
    if (kind == Value) {
        PBT_CHECK(r.ok, "rejected", r.what + " for valid data " + hex(bytes) + " denoting " + quoteBin(expected));
        PBT_CHECK(r.canon == expected, "value", "read: " + quoteBin(r.canon) + "\nexpected: " + quoteBin(expected) + "\nbytes: " + hex(bytes));
        PBT_CHECK(r.consumed == consumed, "position", std::to_string(r.consumed) + " instead of " + std::to_string(consumed) + " bytes consumed");
    }
}
REGISTER_ALL(c10, Info::bin && !Info::hasConst)
