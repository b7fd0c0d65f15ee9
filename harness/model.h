// Independent reference models: a JSON value tree with a strict RFC 8259 parser, and the binary format.
// Nothing in here uses the code under test (or RapidJSON or c++utilities).
#ifndef MODEL_H
#define MODEL_H
#include <algorithm>
#include <charconv>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <optional>
#include <string>
#include <utility>
#include <vector>

namespace model {

/// JSON value. Numbers are kept the way a JSON reader classifies them: integral literals within 64 bits stay exact integers.
struct JV {
    enum Kind { Null, Bool, Num, Str, Arr, Obj } kind = Null;
    bool b = false;
    enum NumKind { I64, U64, Dbl } nk = I64; // I64: negative or <= INT64_MAX; U64: above INT64_MAX
    std::int64_t i = 0;
    std::uint64_t u = 0;
    double d = 0; // value as double in any case
    std::string s;
    std::vector<JV> a;
    std::vector<std::pair<std::string, JV>> o;

    static JV boolean(bool v) { JV r; r.kind = Bool; r.b = v; return r; }
    static JV str(std::string v) { JV r; r.kind = Str; r.s = std::move(v); return r; }
    static JV arr() { JV r; r.kind = Arr; return r; }
    static JV obj() { JV r; r.kind = Obj; return r; }
    static JV integer(std::int64_t v) { JV r; r.kind = Num; r.nk = I64; r.i = v; r.d = static_cast<double>(v); return r; }
    static JV uinteger(std::uint64_t v)
    {
        if (v <= static_cast<std::uint64_t>(std::numeric_limits<std::int64_t>::max())) return integer(static_cast<std::int64_t>(v));
        JV r; r.kind = Num; r.nk = U64; r.u = v; r.d = static_cast<double>(v); return r;
    }
    static JV dbl(double v) { JV r; r.kind = Num; r.nk = Dbl; r.d = v; return r; }
    const JV *find(const std::string &name) const
    {
        for (const auto &m : o) if (m.first == name) return &m.second;
        return nullptr;
    }
};

/// Equality of JSON values; \a intDoubleEqual: 5 and 5.0 are the same number
inline bool same(const JV &x, const JV &y)
{
    if (x.kind != y.kind) return false;
    switch (x.kind) {
    case JV::Null: return true;
    case JV::Bool: return x.b == y.b;
    case JV::Num:
        if (x.nk != y.nk) return false;
        if (x.nk == JV::I64) return x.i == y.i;
        if (x.nk == JV::U64) return x.u == y.u;
        return std::memcmp(&x.d, &y.d, sizeof(double)) == 0;
    case JV::Str: return x.s == y.s;
    case JV::Arr:
        if (x.a.size() != y.a.size()) return false;
        for (std::size_t n = 0; n < x.a.size(); ++n) if (!same(x.a[n], y.a[n])) return false;
        return true;
    case JV::Obj: // order of members is significant: it is part of what the caller compares
        if (x.o.size() != y.o.size()) return false;
        for (std::size_t n = 0; n < x.o.size(); ++n) if (x.o[n].first != y.o[n].first || !same(x.o[n].second, y.o[n].second)) return false;
        return true;
    }
    return false;
}

inline void dumpString(const std::string &s, std::string &out)
{
    out += '"';
    char buf[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { out += '\\'; out += static_cast<char>(c); }
        else if (c < 0x20) { std::snprintf(buf, sizeof buf, "\\u%04x", c); out += buf; }
        else out += static_cast<char>(c);
    }
    out += '"';
}
inline std::string dblText(double d) // shortest text which is read as the same number
{
    char buf[64];
    std::string s(buf, std::to_chars(buf, buf + sizeof buf, d).ptr);
    if (s.find_first_of(".e") == s.npos) s += ".0";
    return s;
}
/// Serializes a JSON value; the formatting of numbers/whitespace is up to this model.
inline void dump(const JV &v, std::string &out)
{
    switch (v.kind) {
    case JV::Null: out += "null"; break;
    case JV::Bool: out += v.b ? "true" : "false"; break;
    case JV::Num: out += v.nk == JV::I64 ? std::to_string(v.i) : v.nk == JV::U64 ? std::to_string(v.u) : dblText(v.d); break;
    case JV::Str: dumpString(v.s, out); break;
    case JV::Arr: {
        out += '[';
        bool sep = false;
        for (const auto &e : v.a) { if (sep) out += ','; sep = true; dump(e, out); }
        out += ']';
        break;
    }
    case JV::Obj: {
        out += '{';
        bool sep = false;
        for (const auto &e : v.o) { if (sep) out += ','; sep = true; dumpString(e.first, out); out += ':'; dump(e.second, out); }
        out += '}';
        break;
    }
    }
}
inline std::string dump(const JV &v) { std::string s; dump(v, s); return s; }

/// Strict RFC 8259 parser.
class Parser {
public:
    explicit Parser(const std::string &t) : m_t(t) {}
    std::string error;
    bool huge = false; // a number literal near or beyond the range of double is present: acceptance is implementation specific
    std::size_t maxDepth = 0;
    std::optional<JV> parse()
    {
        JV v;
        ws();
        if (!value(v, 1)) return std::nullopt;
        ws();
        if (m_p != m_t.size()) { error = "trailing data"; return std::nullopt; }
        return v;
    }

private:
    int peek() const { return m_p < m_t.size() ? static_cast<unsigned char>(m_t[m_p]) : -1; }
    void ws() { while (peek() == ' ' || peek() == '\t' || peek() == '\n' || peek() == '\r') ++m_p; }
    bool err(const char *e) { if (error.empty()) error = e; return false; }
    bool lit(const char *w)
    {
        const auto n = std::strlen(w);
        if (m_t.compare(m_p, n, w) != 0) return err("bad literal");
        m_p += n;
        return true;
    }
    bool value(JV &v, std::size_t depth)
    {
        if (depth > maxDepth) maxDepth = depth;
        switch (peek()) {
        case 'n': v.kind = JV::Null; return lit("null");
        case 't': v = JV::boolean(true); return lit("true");
        case 'f': v = JV::boolean(false); return lit("false");
        case '"': v.kind = JV::Str; return string(v.s);
        case '[': {
            v.kind = JV::Arr;
            ++m_p; ws();
            if (peek() == ']') { ++m_p; return true; }
            for (;;) {
                v.a.emplace_back();
                if (!value(v.a.back(), depth + 1)) return false;
                ws();
                if (peek() == ',') { ++m_p; ws(); continue; }
                if (peek() == ']') { ++m_p; return true; }
                return err("array: , or ] expected");
            }
        }
        case '{': {
            v.kind = JV::Obj;
            ++m_p; ws();
            if (peek() == '}') { ++m_p; return true; }
            for (;;) {
                if (peek() != '"') return err("member name expected");
                v.o.emplace_back();
                if (!string(v.o.back().first)) return false;
                ws();
                if (peek() != ':') return err(": expected");
                ++m_p; ws();
                if (!value(v.o.back().second, depth + 1)) return false;
                ws();
                if (peek() == ',') { ++m_p; ws(); continue; }
                if (peek() == '}') { ++m_p; return true; }
                return err("object: , or } expected");
            }
        }
        default: return number(v);
        }
    }
    static bool digit(int c) { return c >= '0' && c <= '9'; }
    bool number(JV &v)
    {
        const auto start = m_p;
        bool neg = false, integral = true;
        if (peek() == '-') { neg = true; ++m_p; }
        if (!digit(peek())) return err("value expected");
        if (peek() == '0') ++m_p;
        else while (digit(peek())) ++m_p;
        if (peek() == '.') {
            integral = false;
            ++m_p;
            if (!digit(peek())) return err("digit expected");
            while (digit(peek())) ++m_p;
        }
        if (peek() == 'e' || peek() == 'E') {
            integral = false;
            ++m_p;
            if (peek() == '+' || peek() == '-') ++m_p;
            if (!digit(peek())) return err("digit expected");
            const auto exponent = m_p;
            while (digit(peek())) ++m_p;
            if (std::atol(m_t.substr(exponent, std::min<std::size_t>(m_p - exponent, 9)).c_str()) > 290) huge = true;
        }
        const std::string text = m_t.substr(start, m_p - start);
        v.kind = JV::Num;
        v.d = std::strtod(text.c_str(), nullptr);
        if (!(std::fabs(v.d) < 1.7e308)) huge = true;
        v.nk = JV::Dbl;
        if (integral) {
            std::uint64_t n = 0;
            bool over = false;
            for (std::size_t k = neg ? 1 : 0; k < text.size(); ++k) {
                const std::uint64_t dg = static_cast<std::uint64_t>(text[k] - '0');
                if (n > (std::numeric_limits<std::uint64_t>::max() - dg) / 10) { over = true; break; }
                n = n * 10 + dg;
            }
            if (!over) {
                if (!neg && n <= static_cast<std::uint64_t>(std::numeric_limits<std::int64_t>::max())) v = JV::integer(static_cast<std::int64_t>(n));
                else if (!neg) v = JV::uinteger(n);
                else if (n <= (1ull << 63)) v = JV::integer(n == (1ull << 63) ? std::numeric_limits<std::int64_t>::min() : -static_cast<std::int64_t>(n));
            }
        }
        return true;
    }
    bool hex4(unsigned &r)
    {
        r = 0;
        for (int k = 0; k < 4; ++k) {
            const int c = peek();
            unsigned x;
            if (c >= '0' && c <= '9') x = static_cast<unsigned>(c - '0');
            else if (c >= 'a' && c <= 'f') x = static_cast<unsigned>(c - 'a' + 10);
            else if (c >= 'A' && c <= 'F') x = static_cast<unsigned>(c - 'A' + 10);
            else return err("bad \\u escape");
            r = r * 16 + x;
            ++m_p;
        }
        return true;
    }
    static void utf8(unsigned c, std::string &s)
    {
        if (c < 0x80) s += static_cast<char>(c);
        else if (c < 0x800) { s += static_cast<char>(0xC0 | (c >> 6)); s += static_cast<char>(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += static_cast<char>(0xE0 | (c >> 12)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
        else { s += static_cast<char>(0xF0 | (c >> 18)); s += static_cast<char>(0x80 | ((c >> 12) & 63)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
    }
    bool string(std::string &s)
    {
        ++m_p;
        for (;;) {
            const int c = peek();
            if (c < 0) return err("unterminated string");
            ++m_p;
            if (c == '"') return true;
            if (c < 0x20) return err("control character in string");
            if (c != '\\') { s += static_cast<char>(c); continue; }
            const int e = peek();
            ++m_p;
            switch (e) {
            case '"': s += '"'; break;
            case '\\': s += '\\'; break;
            case '/': s += '/'; break;
            case 'b': s += '\b'; break;
            case 'f': s += '\f'; break;
            case 'n': s += '\n'; break;
            case 'r': s += '\r'; break;
            case 't': s += '\t'; break;
            case 'u': {
                unsigned u;
                if (!hex4(u)) return false;
                if (u >= 0xD800 && u <= 0xDFFF) {
                    surrogate = true;
                    if (u >= 0xDC00) return err("lone low surrogate");
                    if (peek() != '\\') return err("lone high surrogate");
                    ++m_p;
                    if (peek() != 'u') return err("lone high surrogate");
                    ++m_p;
                    unsigned l;
                    if (!hex4(l)) return false;
                    if (l < 0xDC00 || l > 0xDFFF) return err("lone high surrogate");
                    u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                }
                utf8(u, s);
                break;
            }
            default: return err("bad escape");
            }
        }
    }
    const std::string &m_t;
    std::size_t m_p = 0;

public:
    bool surrogate = false; // an escaped surrogate is present: rejection of lone ones is implementation specific
};

inline bool validUtf8(const std::string &s)
{
    for (std::size_t i = 0; i < s.size();) {
        const auto c = static_cast<unsigned char>(s[i]);
        std::size_t n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : 9;
        if (n == 9 || i + n >= s.size() + (n ? 0 : 1)) return false;
        for (std::size_t k = 1; k <= n; ++k) if ((static_cast<unsigned char>(s[i + k]) & 0xC0) != 0x80) return false;
        i += n + 1;
    }
    return true;
}

// --- binary format ---------------------------------------------------------------------------------------------------
struct BinOut {
    std::string bytes;
    std::vector<const void *> seen; // shared objects written so far
    std::map<const void *, std::uint64_t> ids; // ids assigned to shared objects (instead of their address)
    std::uint64_t version = 0; // of the class being written
    std::size_t omitted = 0; // members not present in the version
    std::function<std::uint64_t(std::uint64_t version, std::uint64_t own)> chooseVersion; // deviates from the version a class would be written with
    std::function<std::uint64_t()> newId; // chooses an unused id, the address is used if not set
    void byte(unsigned v) { bytes += static_cast<char>(v); }
    void be(std::uint64_t v, int n) { for (int k = n - 1; k >= 0; --k) byte((v >> (8 * k)) & 0xff); }
    /// Variable-length unsigned: n leading zero bits before the first one bit denote n further bytes.
    void var(std::uint64_t v)
    {
        int extra = 0;
        while (extra < 7 && (v >> (7 * (extra + 1)))) ++extra;
        be(v | (1ull << (7 * (extra + 1))), extra + 1);
    }
    void str(const std::string &s) { var(s.size()); bytes += s; }
};
struct BadBinary { // input is no valid encoding and must be rejected
    const char *why;
};
struct AmbiguousBinary { // the format does not define the meaning of that input
};
struct BinIn {
    const std::string &bytes;
    std::size_t pos = 0;
    std::size_t allocLimit = 1u << 20; // reject sizes whose elements cannot be represented anyway
    explicit BinIn(const std::string &b) : bytes(b) {}
    unsigned byte() { if (pos >= bytes.size()) throw BadBinary{ "end of data" }; return static_cast<unsigned char>(bytes[pos++]); }
    std::uint64_t be(int n) { std::uint64_t v = 0; while (n--) v = (v << 8) | byte(); return v; }
    std::uint64_t var()
    {
        const auto first = byte();
        if (!first) throw BadBinary{ "length denotation exceeds maximum" };
        int extra = 0;
        while (!(first & (0x80u >> extra))) ++extra;
        std::uint64_t v = first & (0x7fu >> extra);
        for (int k = 0; k < extra; ++k) v = (v << 8) | byte();
        return v;
    }
    std::string str()
    {
        const auto n = var();
        if (n > bytes.size() - pos) { pos = bytes.size(); throw BadBinary{ "end of data" }; }
        std::string s = bytes.substr(pos, n);
        pos += n;
        return s;
    }
};
} // namespace model
#endif
