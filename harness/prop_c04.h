// C04: any JSON text is either rejected with a parse error or read cleanly
#include "json_common.h"

inline std::string tokenSoup(Tape &t)
{
    static const char *const tokens[] = { "{", "}", "[", "]", ",", ":", "\"", "\"a\"", "null", "true", "false", "1", "-", "0", "1e5", "-1.5", "\\", "\\u00e4", "\\ud83d\\ude00", "\\ud800", "\"index\":", "\"data\":", "\"index\":0,", " ", "\n", "/*c*/", "//", "nul", "NaN", "Infinity", "'a'", "01", "1.", ".5", "+1", "1e", "18446744073709551615", "18446744073709551616", "1e309", "-9223372036854775808", "1e-400", "\t", "\x7f", "\xc3\xa4", "\xff", "\xef\xbb\xbf", "{}", "[]", "[[", "]]" };
    std::string s;
    for (auto n = t.below(14); n; --n) s += tokens[t.below(sizeof tokens / sizeof *tokens)];
    return s;
}
inline std::string arbitraryText(const JV &base, Tape &t, std::string &how)
{
    std::string s;
    switch (t.pick({ 10, 55, 15, 5, 5, 10 })) {
    case 0: { how = "fitting"; dumpStyled(base, s, t); return s; }
    case 1: {
        how = "mutated";
        dumpStyled(base, s, t);
        for (auto n = 1 + t.below(3); n; --n) {
            const auto pos = t.below(s.size() + 1);
            switch (t.below(8)) {
            case 0: s.resize(pos); break;
            case 1: if (pos < s.size()) s.erase(pos, 1 + t.below(4)); break;
            case 2: s.insert(pos, 1, static_cast<char>(t.below(256))); break;
            case 3: if (pos < s.size()) s[pos] = static_cast<char>(t.below(256)); break;
            case 4: if (pos < s.size()) s[pos] = static_cast<char>(s[pos] ^ (1 << t.below(8))); break;
            case 5: { const auto from = t.below(s.size() + 1); s.insert(pos, s.substr(from, t.below(20))); break; }
            case 6: { static const char p[] = "{}[],:\"\\-0123456789eE.ntf "; if (pos < s.size()) s[pos] = p[t.below(sizeof p - 1)]; break; }
            default: s.insert(pos, tokenSoup(t).substr(0, 6)); break;
            }
        }
        return s;
    }
    case 2: {
        how = "deviating";
        JV j = base;
        for (auto n = 1 + t.below(4); n; --n) deviate(j, t);
        dumpStyled(j, s, t);
        return s;
    }
    case 3: how = "bytes"; for (auto n = t.below(40); n; --n) s += static_cast<char>(t.below(256)); return s;
    case 4: {
        how = "nested";
        const auto depth = 1 + t.below(300);
        const bool arr = t.below(2), closed = t.below(4);
        const std::string open = arr ? "[" : "{\"" + std::string(t.below(2) ? "data" : base.o.empty() ? "x" : base.o[t.below(base.o.size())].first) + "\":";
        for (std::size_t n = 0; n < depth; ++n) s += open;
        if (!arr) s += "null";
        if (closed) for (std::size_t n = 0; n < depth; ++n) s += arr ? ']' : '}';
        return s;
    }
    default: how = "tokens"; return tokenSoup(t);
    }
}

/// Whether any string satisfies a predicate.
template <class F> bool anyString(const JV &j, F f)
{
    if (j.kind == JV::Str && f(j.s)) return true;
    for (const auto &e : j.a) if (anyString(e, f)) return true;
    for (const auto &e : j.o) if (anyString(e.second, f)) return true;
    return false;
}
/// Whether the parser of the C++ utilities may write beyond an array when parsing the string (known finding of C18).
inline bool badTimeZone(const std::string &s)
{
    const auto begin = s.find('T');
    if (begin == s.npos) return false;
    int separators = -1; // within the time zone
    for (auto i = begin; i < s.size(); ++i) {
        if (separators == 99) return true;
        if (s[i] == '+' || s[i] == '-') separators = 0;
        else if (s[i] == 'Z') separators = 99; // nothing may follow
        else if (s[i] == ':' && separators >= 0 && ++separators > 1) return true;
    }
    return false;
}

/// Replaces floating-point numbers by what RapidJSON's imprecise parser yields for them (known finding of C01), which only matters
/// where those are converted to integers; the numbers may not be off by more than that.
inline void usualNumbers(JV &j, const rj::Value &v)
{
    if (j.kind == JV::Num && j.nk == JV::Dbl && v.IsDouble()) {
        std::int64_t m, n;
        const auto d = v.GetDouble();
        std::memcpy(&m, &j.d, 8);
        std::memcpy(&n, &d, 8);
        if ((m < 0) == (n < 0) && std::llabs(m - n) <= 3) j.d = d;
    } else if (j.kind == JV::Arr && v.IsArray() && v.Size() == j.a.size()) {
        for (std::size_t i = 0; i < j.a.size(); ++i) usualNumbers(j.a[i], v[static_cast<rj::SizeType>(i)]);
    } else if (j.kind == JV::Obj && v.IsObject() && v.MemberCount() == j.o.size()) {
        auto m = v.MemberBegin();
        for (auto &o : j.o) usualNumbers(o.second, (m++)->value);
    }
}

template <class T, class Info> void c04(Tape &t, Ctx &c, const char *name)
{
    using namespace ops;
    const auto base = refJson(genValue<T>(t));
    std::string how;
    const auto text = arbitraryText(base, t, how);
    c.identify(name);
    c.identify(text);
    c.describe(std::string(name) + " " + how + " text: " + quote(text));
    c.label(how);
    c.nontrivial = text.size() > 1;
    model::Parser p(text);
    const auto parsed = p.parse();
    const bool lenient = p.huge || p.surrogate || text.find('\0') != text.npos || !model::validUtf8(text) || text.find("\xef\xbb\xbf") != text.npos;
    if (anyString(base, [](const std::string &x) { return x.find('T') != x.npos; }) // date and time; other strings contain no "T"
        && (parsed ? lenient || anyString(*parsed, badTimeZone) : lenient)) {
        c.label("skipped time zone");
        c.nontrivial = false;
        return;
    }
    struct Result { bool ok = false; std::string canon; bool parseError = false; };
    const auto attempt = [&](auto &&read) {
        Result r;
        try {
            r.canon = canon(read());
            r.ok = true;
        } catch (const rj::ParseResult &e) {
            PBT_CHECK(e.IsError(), "no-error", "exception thrown without parse error");
            PBT_CHECK(e.Offset() <= text.size(), "offset", "offset of parse error exceeds text: " + std::to_string(e.Offset()));
            r.parseError = true;
        } catch (const rr::JsonDeserializationError &e) {
            pbt::fail("thrown", "error thrown though nothing is marked as fatal: " + errText(e));
        }
        return r;
    };
    HeapText heap(text);
    rr::JsonDeserializationErrors errors;
    const auto with = attempt([&] { return jr::fromJson<T>(heap.buf.get(), heap.size, &errors); });
    const auto without = attempt([&] { return jr::fromJson<T>(heap.buf.get(), heap.size); });
    PBT_CHECK(with.ok == without.ok && with.canon == without.canon, "collector", "result depends on error collector: " + quote(with.canon) + " vs. " + quote(without.canon));
    const auto asString = attempt([&] {
        if constexpr (Info::crtp) { if (t.below(2)) return rr::JsonSerializable<T>::fromJson(text, t.below(2) ? &errors : nullptr); }
        return jr::fromJson<T>(text);
    });
    PBT_CHECK(with.ok == asString.ok && with.canon == asString.canon, "string", "result depends on how the text is passed: " + quote(with.canon) + " vs. " + quote(asString.canon));
    if (text.find('\0') == text.npos) {
        const auto asCString = attempt([&] {
            if constexpr (Info::crtp) { if (t.below(2)) return rr::JsonSerializable<T>::fromJson(text.c_str()); }
            return jr::fromJson<T>(text.c_str());
        });
        PBT_CHECK(with.ok == asCString.ok && with.canon == asCString.canon, "cstring", "result depends on how the text is passed: " + quote(with.canon) + " vs. " + quote(asCString.canon));
    }
    c.label(with.ok ? "accepted" : "rejected");
    if (lenient) { c.label("lenient"); return; }
    PBT_CHECK(with.ok == parsed.has_value(), "well-formedness", with.ok ? "accepted malformed text (" + p.error + ")" : "rejected well-formed text");
    if (!with.ok) return;
    T expected = T();
    Errs e;
    JV denoted = *parsed;
    rj::Document document;
    document.Parse(text.data(), text.size());
    if (!document.HasParseError()) usualNumbers(denoted, document);
    refPull(expected, denoted, e);
    PBT_CHECK(closeCanon(canon(expected), with.canon), "value", "value: " + quote(with.canon) + " expected: " + quote(canon(expected)));
    PBT_CHECK(e.list.empty() == errors.empty(), "errors", "errors: " + errList(errors) + " expected: " + errList(e.list));
}
REGISTER_ALL(c04, Info::json && Info::pull)

static pbt::RegisterProbe deepNesting("deep-nesting", [] {
    rr::JsonDeserializationErrors errors;
    const std::string text(1000000, '[');
    try { jr::fromJson<std::vector<int>>(text, &errors); } catch (const rj::ParseResult &) { return; }
});
