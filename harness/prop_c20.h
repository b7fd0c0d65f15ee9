// C20: threads working on distinct objects (or serializing the same unmodified one) do not affect each other
#include "bin_common.h"
#include "json_common.h"

#include <atomic>
#include <thread>

/// Something a thread does; only run() is invoked concurrently.
struct Job {
    virtual ~Job() = default;
    virtual void run() = 0;
    virtual std::string result() = 0; // of the last run
    const char *kind = "";
    std::string about;
    bool substantial = false;
};
using Jobs = std::vector<std::unique_ptr<Job>>;
/// Makes jobs for one value of the type; the jobs serializing it may run concurrently with each other
using MakeJobs = void (*)(Tape &t, Jobs &jobs, std::size_t count);
inline std::vector<std::pair<std::string, MakeJobs>> &jobTypes() { static std::vector<std::pair<std::string, MakeJobs>> t; return t; }

template <class T, class Info> struct ToJsonJob : public Job {
    std::shared_ptr<const T> v;
    std::uint64_t how;
    std::string text;
    void run() override { text = serializeSomehow<T, Info>(*v, how); }
    std::string result() override { return text; }
};
template <class T, class Info> struct FromJsonJob : public Job {
    std::string text, error;
    std::unique_ptr<T> v;
    rr::JsonDeserializationErrors errors;
    bool crtp = false, parse = false;
    unsigned mask = 0;
    void run() override
    {
        v.reset();
        error.clear();
        errors = rr::JsonDeserializationErrors();
        errors.throwOn = static_cast<rr::JsonDeserializationErrors::ThrowOn>(mask);
        try {
            if constexpr (Info::crtp) {
                if (crtp) { v = std::make_unique<T>(rr::JsonSerializable<T>::fromJson(text.data(), text.size(), &errors)); return; }
            }
            v = std::make_unique<T>(jr::fromJson<T>(text.data(), text.size(), &errors));
        } catch (const rr::JsonDeserializationError &e) {
            error = "thrown: " + errText(e);
        } catch (const RAPIDJSON_NAMESPACE::ParseResult &r) {
            error = "parse error " + std::to_string(r.Code()) + " at " + std::to_string(r.Offset());
        }
    }
    std::string result() override { return error + " " + errList(errors) + (v ? ops::canon(*v) : std::string()); }
};
template <class T, class Info> struct ToBinaryJob : public Job {
    std::shared_ptr<const T> v;
    bool member = false;
    std::string bytes;
    void run() override
    {
        BinStream s;
        writeBin<T, Info>(s, *v, member);
        bytes = s.str();
    }
    std::string result() override { return bytes; }
};
template <class T, class Info> struct FromBinaryJob : public Job {
    std::string bytes, error;
    std::unique_ptr<T> v;
    bool member = false;
    void run() override
    {
        BinStream s(bytes);
        v = std::make_unique<T>();
        error.clear();
        try {
            readBin<T, Info>(s, *v, member);
        } catch (const std::ios_base::failure &) {
            error = "stream error";
        } catch (const CppUtilities::ConversionException &e) {
            error = std::string("conversion error ") + e.what();
        }
    }
    std::string result() override { ops::CanonCtx x; x.identity = true; std::string r = error; ops::canon(*v, r, x); return r; }
};

template <class T, class Info> void makeJobs(Tape &t, Jobs &jobs, std::size_t count)
{
    ops::cfg().sharing = Info::bin && !Info::json;
    const auto v = std::make_shared<const T>(genValue<T>(t));
    const auto shown = ops::canon(*v);
    const bool substantial = ops::substance(*v) >= 2;
    const auto add = [&](auto &&job, const char *kind) {
        job->kind = kind;
        job->substantial = substantial;
        job->about = std::string(kind) + " " + quote(shown.substr(0, 300));
        jobs.emplace_back(std::move(job));
    };
    while (count--) {
        switch (t.below(4)) {
        case 0:
            if constexpr (Info::json) {
                auto j = std::make_unique<ToJsonJob<T, Info>>();
                j->v = v;
                j->how = t.below(4);
                add(std::move(j), "to JSON");
                continue;
            }
            break;
        case 1:
            if constexpr (Info::json && Info::pull && !Info::serOnly) {
                auto j = std::make_unique<FromJsonJob<T, Info>>();
                auto json = ops::refJson(*v);
                for (auto n = t.below(4); n; --n) deviate(json, t);
                dumpStyled(json, j->text, t);
                if (t.chance(1, 10)) j->text.resize(t.below(j->text.size() + 1));
                j->crtp = t.below(2);
                j->mask = static_cast<unsigned>(t.chance(1, 4) ? t.below(64) : 0);
                add(std::move(j), "from JSON");
                continue;
            }
            break;
        case 2:
            if constexpr (Info::bin && Info::pull && !Info::hasConst && !Info::serOnly) {
                auto j = std::make_unique<FromBinaryJob<T, Info>>();
                // use own code so it is still the threads which use the library first
                model::BinOut o;
                std::uint64_t nextId = 0;
                o.newId = [&] { return ++nextId; };
                ops::refWrite(*v, o);
                j->bytes = o.bytes;
                if (t.chance(1, 10)) j->bytes.resize(t.below(j->bytes.size() + 1));
                j->member = t.below(2);
                add(std::move(j), "from binary");
                continue;
            }
            break;
        default:
            if constexpr (Info::bin) {
                auto j = std::make_unique<ToBinaryJob<T, Info>>();
                j->v = v;
                j->member = t.below(2);
                add(std::move(j), "to binary");
                continue;
            }
        }
        if constexpr (Info::json) {
            auto j = std::make_unique<ToJsonJob<T, Info>>();
            j->v = v;
            j->how = t.below(4);
            add(std::move(j), "to JSON");
        } else {
            auto j = std::make_unique<ToBinaryJob<T, Info>>();
            j->v = v;
            j->member = t.below(2);
            add(std::move(j), "to binary");
        }
    }
}

template <class T, class Info> void c20(Tape &t, Ctx &c, const char *name)
{
    static const bool sorted = (std::sort(jobTypes().begin(), jobTypes().end()), true);
    (void)sorted;
    ops::cfg().keepViews = false;
    ops::cfg().reset(0);
    ops::cfg().keepViews = true;
    Jobs jobs;
    const std::size_t threads = 2 + t.below(3);
    // the first type is also used by several threads most of the time
    makeJobs<T, Info>(t, jobs, 2 + t.below(3));
    std::string names = name;
    for (auto n = t.below(4); n; --n) {
        if (t.below(2)) { makeJobs<T, Info>(t, jobs, 1 + t.below(3)); continue; }
        const auto &other = jobTypes()[t.below(jobTypes().size())];
        names += ", " + other.first;
        other.second(t, jobs, 1 + t.below(2));
    }
    std::vector<std::vector<Job *>> work(threads);
    std::string shown;
    std::size_t i = 0, substantial = 0;
    for (const auto &j : jobs) {
        const auto th = i < threads ? i : t.below(threads);
        work[th].push_back(j.get());
        shown += "thread " + std::to_string(th) + ": " + j->about + "; ";
        substantial += j->substantial;
        c.label(j->kind);
        ++i;
    }
    c.nontrivial = jobs.size() >= threads && substantial >= 2;
    c.identify(shown);
    c.label(std::to_string(threads) + " threads");
    c.describe(names + ": " + shown);
    std::atomic<unsigned> ready(0);
    const unsigned rounds = 1 + static_cast<unsigned>(t.below(3));
    std::vector<std::thread> pool;
    std::vector<std::exception_ptr> thrown(threads);
    for (std::size_t th = 0; th < threads; ++th)
        pool.emplace_back([&, th] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < threads) std::this_thread::yield();
            try {
                for (unsigned r = 0; r < rounds; ++r) for (auto *j : work[th]) j->run();
            } catch (...) {
                thrown[th] = std::current_exception();
            }
        });
    for (auto &th : pool) th.join();
    for (const auto &e : thrown) if (e) std::rethrow_exception(e);
    for (const auto &j : jobs) {
        const auto concurrent = j->result();
        j->run();
        const auto alone = j->result();
        PBT_CHECK(concurrent == alone, "result", std::string(j->kind) + " concurrently: " + quote(concurrent) + "\nalone: " + quote(alone));
    }
}
template <class T> void registerStruct(const char *name)
{
    using Info = ops::StructInfo<T>;
    jobTypes().emplace_back(name, &makeJobs<T, Info>);
    pbt::entries().push_back({ name, 4, [name](Tape &t, Ctx &c) { c20<T, Info>(t, c, name); } });
}
template <class T, class Info> void registerRoot(const char *name)
{
    jobTypes().emplace_back(name, &makeJobs<T, Info>);
    pbt::entries().push_back({ name, 3, [name](Tape &t, Ctx &c) { c20<T, Info>(t, c, name); } });
}
