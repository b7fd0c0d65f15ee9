#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <new>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
std::vector<Entry> &entries()
{
    static std::vector<Entry> e;
    return e;
}
std::map<std::string, std::function<void()>> &probes()
{
    static std::map<std::string, std::function<void()>> p;
    return p;
}
std::string escape(const std::string &s)
{
    std::string r;
    char buf[8];
    for (unsigned char c : s) {
        if (c == '\n') r += "\\n";
        else if (c < 0x20 || c == 0x7f || c >= 0x80) { std::snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; }
        else r += static_cast<char>(c);
    }
    return r;
}
static thread_local bool capActive = false;
static thread_local std::size_t capLeft = 0;
AllocCap::AllocCap(std::size_t bytes)
{
    capLeft = bytes;
    capActive = true;
}
AllocCap::~AllocCap() { capActive = false; }
static thread_local bool faultActive = false, faultPersistent = false;
static thread_local std::size_t faultAt = 0, faultCount = 0;
AllocFault::AllocFault(std::size_t k, bool persistent)
{
    faultAt = k;
    faultCount = 0;
    faultPersistent = persistent;
    faultActive = true;
}
AllocFault::~AllocFault() { faultActive = false; }
std::size_t AllocFault::count() const { return faultCount; }
bool AllocFault::fired() const { return faultAt && faultCount >= faultAt; }
static void *allocate(std::size_t n)
{
    if (faultActive) {
        ++faultCount;
        if (faultAt && (faultPersistent ? faultCount >= faultAt : faultCount == faultAt)) throw std::bad_alloc();
    }
    if (capActive) {
        if (n > capLeft) throw std::bad_alloc();
        capLeft -= n;
    }
    if (void *const p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
} // namespace pbt
#ifndef PBT_NO_ALLOC
void *operator new(std::size_t n) { return pbt::allocate(n); }
void *operator new[](std::size_t n) { return pbt::allocate(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { try { return pbt::allocate(n); } catch (const std::bad_alloc &) { return nullptr; } }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { try { return pbt::allocate(n); } catch (const std::bad_alloc &) { return nullptr; } }
void operator delete(void *p, const std::nothrow_t &) noexcept { std::free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { std::free(p); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
#endif
using namespace pbt;

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
    std::uint64_t z = a * 0x9e3779b97f4a7c15ull + b * 0xd1342543de82ef95ull + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : escape(s)) {
        if (c == '"' || c == '\\') r += '\\';
        r += static_cast<char>(c);
    }
    return r + "\"";
}

static std::vector<std::size_t> entryWheel; // entry indexes repeated by weight
static void runCase(Tape &tape, Ctx &ctx)
{
    const auto idx = entryWheel[tape.below(entryWheel.size())];
    const auto &entry = entries()[idx];
    ctx.identify(entry.name + "\n");
    try {
        entry.fn(tape, ctx);
    } catch (Violation &v) {
        v.msg = "[" + entry.name + "] " + v.msg;
        throw;
    } catch (const std::exception &e) {
        throw Violation{ "unexpected-exception", "[" + entry.name + "] unexpected exception " + typeid(e).name() + ": " + e.what() };
    } catch (...) {
        throw Violation{ "unexpected-exception", "[" + entry.name + "] unexpected exception of unknown type" };
    }
}

static Shared *mapShared()
{
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); std::exit(3); }
    return static_cast<Shared *>(p);
}
static void note(Shared *s, const Violation &v)
{
    std::snprintf(s->kind, sizeof s->kind, "%s", v.kind.data());
    std::snprintf(s->msg, sizeof s->msg, "%s", escape(v.msg).data());
    s->state = 1;
}
static void quiet(const std::string &path)
{
    int fd = open(path.empty() ? "/dev/null" : path.data(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
}

struct Outcome {
    bool failed = false;
    std::string kind, msg, show;
    std::vector<std::uint64_t> tape;
};
static double caseTimeout = 30;

/// Quotes the first lines of the report of a sanitizer.
static std::string excerpt(const std::string &errFile)
{
    std::string r, line;
    if (errFile.empty()) return r;
    std::ifstream f(errFile);
    for (int n = 0; n < 12 && std::getline(f, line);)
        if (line.find("ERROR") != line.npos || line.find("runtime error") != line.npos || line.find("    #") == 0 || line.find("Assert") != line.npos || line.find("WARNING") != line.npos) { r += " | " + line.substr(0, 220); ++n; }
    return r;
}

/// Runs a single tape in a child process of its own.
static Outcome runIsolated(const std::vector<std::uint64_t> &choices, Shared *shm, const std::string &errFile)
{
    shm->state = 0; shm->len = 0; shm->kind[0] = shm->msg[0] = shm->show[0] = 0;
    std::fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0) {
        quiet(errFile);
        rlimit rl{ 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        Tape tape(choices, shm);
        Ctx ctx;
        ctx.mirror = shm;
        try {
            runCase(tape, ctx);
        } catch (const Violation &v) {
            note(shm, v);
            _exit(10);
        }
        shm->state = 2;
        _exit(0);
    }
    Outcome o;
    int status = 0;
    const double start = now();
    for (useconds_t nap = 200;;) {
        const auto r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        if (now() - start > caseTimeout) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            o.failed = true; o.kind = "hang"; o.msg = "case does not terminate";
            break;
        }
        usleep(nap);
        if (nap < 20000) nap *= 2;
    }
    o.tape.assign(shm->data, shm->data + shm->len);
    o.show = shm->show;
    if (o.failed) return o;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && shm->state == 2) return o;
    o.failed = true;
    if (shm->state == 1) { o.kind = shm->kind; o.msg = shm->msg; return o; }
    o.kind = "crash";
    std::ostringstream m;
    if (WIFSIGNALED(status)) m << "process killed by signal " << WTERMSIG(status); else m << "process exited with " << WEXITSTATUS(status);
    m << excerpt(errFile);
    o.msg = m.str();
    return o;
}

static Outcome shrink(Outcome best, Shared *shm, double budget)
{
    const double end = now() + budget;
    const std::string kind = best.kind;
    auto tryTape = [&](const std::vector<std::uint64_t> &c) {
        if (now() > end) return false;
        auto o = runIsolated(c, shm, "");
        if (!o.failed || o.kind != kind) return false;
        if (o.tape.size() > best.tape.size() || (o.tape.size() == best.tape.size() && !(o.tape < best.tape))) return false;
        best = o;
        return true;
    };
    if (kind == "hang") return best; // too slow to shrink
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (std::size_t block = std::max<std::size_t>(1, best.tape.size() / 2); block >= 1 && now() < end; block /= 2) {
            for (std::size_t i = 0; i + block <= best.tape.size() && now() < end;) { // deletion (not of the entry choice)
                auto c = best.tape;
                if (i == 0) { ++i; continue; }
                c.erase(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(i + block));
                if (tryTape(c)) progress = true; else i += std::max<std::size_t>(1, block / 2);
            }
            for (std::size_t i = 1; i + block <= best.tape.size() && now() < end; i += block) { // zeroing
                auto c = best.tape;
                if (std::all_of(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(i + block), [](auto v) { return v == 0; })) continue;
                std::fill(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(i + block), 0);
                if (tryTape(c)) progress = true;
            }
        }
        for (std::size_t i = 0; i < best.tape.size() && now() < end; ++i) { // decreasing single choices
            std::uint64_t lo = 0, hi = best.tape[i];
            if (!hi) continue;
            while (lo < hi && now() < end) {
                auto c = best.tape;
                const auto mid = lo + (hi - lo) / 2;
                c[i] = mid;
                if (tryTape(c)) { progress = true; if (i >= best.tape.size()) break; hi = best.tape[i]; } else lo = mid + 1;
            }
        }
    }
    return best;
}

int main(int argc, char **argv)
{
    std::map<std::string, std::string> opt;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0 && i + 1 < argc) opt[a.substr(2)] = argv[++i]; else opt["mode"] = a;
    }
    std::sort(entries().begin(), entries().end(), [](const Entry &a, const Entry &b) { return a.name < b.name; });
    for (std::size_t i = 0; i < entries().size(); ++i) for (unsigned w = 0; w < entries()[i].weight; ++w) entryWheel.push_back(i);
    if (opt.count("timeout")) caseTimeout = std::stod(opt["timeout"]);
    const auto mode = opt["mode"];

    if (mode == "probe") { // prints "present"/"absent"; crash: present
        const auto it = probes().find(opt["name"]);
        if (it == probes().end()) { std::cerr << "no such probe\n"; return 3; }
        std::cout.flush();
        const pid_t pid = fork();
        if (pid == 0) {
            quiet("");
            try { it->second(); } catch (const Violation &v) { std::cout << "present " << escape(v.msg) << std::endl; _exit(0); } catch (const std::exception &e) { std::cout << "present unexpected exception: " << escape(e.what()) << std::endl; _exit(0); } catch (...) { std::cout << "present unexpected exception" << std::endl; _exit(0); }
            std::cout << "absent" << std::endl;
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (!WIFEXITED(status) || WEXITSTATUS(status)) std::cout << "present crash" << std::endl;
        return 0;
    }
    if (entryWheel.empty()) { std::cerr << "no entries\n"; return 3; }
    Shared *shm = mapShared();

    if (mode == "replay") {
        std::ifstream f(opt["tape"]);
        std::vector<std::uint64_t> c;
        std::uint64_t v;
        while (f >> v) c.push_back(v);
        const auto o = runIsolated(c, shm, opt["err"]);
        std::cout << "case: " << o.show << "\n";
        if (o.failed) { std::cout << "FAILED " << o.kind << ": " << o.msg << "\n"; return 1; }
        std::cout << "PASSED\n";
        return 0;
    }
    if (mode != "run") { std::cerr << "usage: run|replay|probe\n"; return 3; }

    const std::uint64_t seed = std::stoull(opt["seed"]);
    const std::uint64_t cases = std::stoull(opt["cases"]);
    const double secs = std::stod(opt["secs"]);
    const unsigned workers = opt.count("workers") ? static_cast<unsigned>(std::stoul(opt["workers"])) : 8;
    const std::string out = opt["out"];
    const double start = now();
    std::vector<Shared *> shms(workers);
    std::vector<pid_t> pids(workers);
    std::fflush(stdout);
    for (unsigned w = 0; w < workers; ++w) {
        shms[w] = mapShared();
        pids[w] = fork();
        if (pids[w] == 0) {
            Shared *s = shms[w];
            quiet(out + ".err" + std::to_string(w));
            rlimit rl{ 0, 0 };
            setrlimit(RLIMIT_CORE, &rl);
            std::uint64_t evals = 0, nontrivial = 0;
            std::unordered_set<std::uint64_t> distinct;
            std::map<std::string, std::uint64_t> labels;
            std::vector<std::string> samples;
            for (std::uint64_t i = w; i < cases && now() - start < secs; i += workers) {
                s->caseIndex = i;
                Tape tape(mix(seed, i), s);
                Ctx ctx;
                ctx.mirror = s;
                s->show[0] = 0;
                try {
                    runCase(tape, ctx);
                } catch (const Violation &v) {
                    note(s, v);
                    _exit(10);
                }
                ++s->heartbeat;
                ++evals;
                if (ctx.nontrivial) {
                    ++nontrivial;
                    distinct.insert(ctx.key);
                    if (samples.size() < 2 || (samples.size() < 4 && mix(i, 77) % 50 == 0)) samples.push_back(ctx.show.substr(0, 700));
                }
                for (const auto &l : ctx.labels) labels[l.first] += l.second;
            }
            std::ofstream f(out + ".w" + std::to_string(w));
            f << evals << ' ' << nontrivial << '\n' << distinct.size() << '\n';
            for (auto h : distinct) f << h << ' ';
            f << '\n' << labels.size() << '\n';
            for (const auto &l : labels) f << l.second << ' ' << l.first << '\n';
            f << samples.size() << '\n';
            for (const auto &x : samples) f << escape(x) << '\n';
            f.close();
            s->state = 2;
            _exit(0);
        }
    }
    // supervise
    std::vector<std::uint64_t> lastBeat(workers, 0);
    std::vector<double> lastChange(workers, now());
    std::vector<bool> done(workers, false);
    int failedWorker = -1;
    bool hung = false;
    unsigned left = workers;
    while (left && failedWorker < 0) {
        usleep(5000);
        for (unsigned w = 0; w < workers; ++w) {
            if (done[w]) continue;
            int status;
            if (waitpid(pids[w], &status, WNOHANG) == pids[w]) {
                done[w] = true; --left;
                if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0 && shms[w]->state == 2)) { failedWorker = static_cast<int>(w); break; }
                continue;
            }
            const std::uint64_t b = shms[w]->heartbeat;
            if (b != lastBeat[w]) { lastBeat[w] = b; lastChange[w] = now(); }
            else if (now() - lastChange[w] > caseTimeout * 1.5) { failedWorker = static_cast<int>(w); hung = true; break; }
        }
    }
    Outcome bad;
    unsigned confirmed = 0;
    if (failedWorker >= 0) {
        for (unsigned w = 0; w < workers; ++w) if (!done[w]) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }
        Shared *s = shms[static_cast<unsigned>(failedWorker)];
        std::vector<std::uint64_t> c(s->data, s->data + s->len);
        bad.failed = true; bad.kind = hung ? "hang" : s->state == 1 ? s->kind : "crash";
        bad.msg = s->state == 1 ? std::string(s->msg) : excerpt(out + ".err" + std::to_string(failedWorker)); bad.show = s->show; bad.tape = c;
        auto first = runIsolated(c, shm, out + ".err");
        for (int i = 0; i < 6 && !first.failed; ++i) first = runIsolated(c, shm, out + ".err"); // schedule dependent failures need not show every time
        if (first.failed) {
            bad = shrink(first, shm, opt.count("shrink") ? std::stod(opt["shrink"]) : 20);
            for (int i = 0; i < 15 && confirmed < 3; ++i) {
                auto o = runIsolated(bad.tape, shm, out + ".err");
                if (o.failed) { ++confirmed; bad.msg = o.msg; bad.kind = o.kind; bad.show = o.show; }
            }
        }
    }
    // merge and report
    std::uint64_t evals = 0, nontrivial = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> labels;
    std::vector<std::string> samples;
    for (unsigned w = 0; w < workers; ++w) {
        std::ifstream f(out + ".w" + std::to_string(w));
        if (!f) continue;
        std::uint64_t e = 0, n = 0, k = 0; // the file might be incomplete
        if (!(f >> e >> n >> k)) e = n = k = 0;
        evals += e; nontrivial += n;
        for (std::uint64_t h; k-- && f >> h;) distinct.insert(h);
        if (!(f >> k)) k = 0;
        for (std::uint64_t c; k-- && f >> c;) { std::string l; f.get(); std::getline(f, l); labels[l] += c; }
        std::string line;
        if (!(f >> k)) k = 0;
        std::getline(f, line);
        while (k-- && std::getline(f, line)) samples.push_back(line);
        f.close();
        std::remove((out + ".w" + std::to_string(w)).data());
        std::remove((out + ".err" + std::to_string(w)).data());
    }
    std::ofstream o(out);
    o << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nontrivial << ",\"distinct_nontrivial\":" << distinct.size() << ",\"entries\":" << entries().size() << ",\"wall_s\":" << now() - start << ",\"labels\":{";
    bool sep = false;
    for (const auto &l : labels) { o << (sep ? "," : "") << jstr(l.first) << ":" << l.second; sep = true; }
    o << "},\"samples\":[";
    sep = false;
    for (std::size_t i = 0; i < samples.size() && i < 12; ++i) { o << (sep ? "," : "") << jstr(samples[i]); sep = true; }
    o << "]";
    if (failedWorker >= 0) {
        o << ",\"failure\":{\"kind\":" << jstr(bad.kind) << ",\"msg\":" << jstr(bad.msg) << ",\"show\":" << jstr(bad.show) << ",\"confirmed\":" << confirmed << ",\"tape\":[";
        for (std::size_t i = 0; i < bad.tape.size(); ++i) o << (i ? "," : "") << bad.tape[i];
        o << "]}";
    }
    o << "}\n";
    return failedWorker >= 0 ? (confirmed == 3 ? 1 : 4) : 0;
}
