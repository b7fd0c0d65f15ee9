// A small property-based testing engine built on choice sequences ("tapes").
//
// A property is a function drawing all its random choices from a Tape. Every choice is a bounded integer where 0 is the
// "simplest" one. Hence a case is fully described by its list of choices, can be replayed from it and can be shrunk by
// deleting, zeroing and decreasing choices (integrated shrinking), independently of what the property generates from it.
// Cases run in forked workers, so crashes, sanitizer reports and hangs are failures of the case like any other.
#ifndef PBT_H
#define PBT_H
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace pbt {

struct Violation {
    std::string kind; // short category, kept stable while shrinking
    std::string msg;
};
[[noreturn]] inline void fail(const std::string &kind, const std::string &msg) { throw Violation{ kind, msg }; }
#define PBT_CHECK(cond, kind, msg)                                                                                                                   \
    do {                                                                                                                                             \
        if (!(cond))                                                                                                                                 \
            ::pbt::fail(kind, msg);                                                                                                                  \
    } while (0)

constexpr std::size_t maxTape = 1u << 16;
struct Shared { // lives in memory shared between worker and supervisor
    volatile std::uint64_t caseIndex;
    volatile std::uint64_t heartbeat;
    volatile std::uint32_t len;
    volatile std::uint32_t state; // 0: running, 1: case failed with violation, 2: finished
    std::uint64_t data[maxTape];
    char kind[64];
    char msg[8192];
    char show[16384];
};

class Tape {
public:
    Tape(std::uint64_t seed, Shared *mirror) : m_state(seed), m_mirror(mirror) { if (mirror) mirror->len = 0; }
    Tape(const std::vector<std::uint64_t> &replay, Shared *mirror) : m_replay(&replay), m_mirror(mirror) { if (mirror) mirror->len = 0; }
    /// Returns a value in [0, n); n == 0 means the full 64-bit range.
    std::uint64_t below(std::uint64_t n)
    {
        std::uint64_t v = 0;
        if (m_pos < maxTape) {
            v = m_replay ? (m_pos < m_replay->size() ? (*m_replay)[m_pos] : 0) : next();
            if (n)
                v %= n;
            if (m_mirror) {
                m_mirror->data[m_pos] = v;
                m_mirror->len = static_cast<std::uint32_t>(m_pos + 1);
            }
            ++m_pos;
        }
        return v;
    }
    /// True with a chance of num/den; shrinks to false.
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    /// Returns a value within [lo, hi]; shrinks to lo.
    std::int64_t range(std::int64_t lo, std::int64_t hi)
    {
        return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo) + 1));
    }
    /// Returns an index according to \a weights; shrinks to 0.
    std::size_t pick(std::initializer_list<unsigned> weights)
    {
        unsigned sum = 0;
        for (auto w : weights) sum += w;
        auto v = below(sum);
        std::size_t i = 0;
        for (auto w : weights) {
            if (v < w) return i;
            v -= w;
            ++i;
        }
        return 0;
    }
    std::size_t used() const { return m_pos; }

private:
    std::uint64_t next() // splitmix64
    {
        std::uint64_t z = (m_state += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    std::uint64_t m_state = 0;
    const std::vector<std::uint64_t> *m_replay = nullptr;
    Shared *m_mirror;
    std::size_t m_pos = 0;
};

/// What a property tells about the case it ran.
struct Ctx {
    bool nontrivial = false;
    std::uint64_t key = 0; // identifies the case for counting distinct ones
    std::string show; // human readable description
    std::map<std::string, std::uint64_t> labels;
    Shared *mirror = nullptr;
    void describe(const std::string &s)
    {
        show = s;
        if (mirror) {
            std::strncpy(mirror->show, s.data(), sizeof(mirror->show) - 1);
            mirror->show[std::min(s.size(), sizeof(mirror->show) - 1)] = 0;
            for (std::size_t i = 0; i + 1 < sizeof(mirror->show) && i < s.size(); ++i) mirror->show[i] = s[i] ? s[i] : '.';
        }
    }
    void identify(const std::string &bytes)
    {
        std::uint64_t h = key ? key : 0xcbf29ce484222325ull;
        for (unsigned char c : bytes) h = (h ^ c) * 0x100000001b3ull;
        key = h;
    }
    void label(const std::string &name) { ++labels[name]; }
};

using Property = std::function<void(Tape &, Ctx &)>;
struct Entry {
    std::string name; // e.g. the type the property is instantiated for
    unsigned weight;
    Property fn;
};
/// Entries the cases are spread over; the first choice of a case selects the entry.
std::vector<Entry> &entries();
struct Register {
    Register(const char *name, unsigned weight, Property fn) { entries().push_back({ name, weight, std::move(fn) }); }
};
/// Deterministic probes for known findings: they throw a Violation if the finding is (still) present.
std::map<std::string, std::function<void()>> &probes();
struct RegisterProbe {
    RegisterProbe(const char *name, std::function<void()> fn) { probes()[name] = std::move(fn); }
};
std::string escape(const std::string &);
/// Makes operator new fail if more than \a bytes are allocated (while the object exists).
struct AllocCap {
    explicit AllocCap(std::size_t bytes);
    ~AllocCap();
};
/// Makes the \a k-th call of operator new fail (0: none), and all following ones if \a persistent (while the object exists).
struct AllocFault {
    explicit AllocFault(std::size_t k, bool persistent = false);
    ~AllocFault();
    std::size_t count() const; // calls so far
    bool fired() const;
};
} // namespace pbt
#endif
