// C24: pushing to and pulling from RapidJSON documents which are edited otherwise as well
#include "json_common.h"

/// Values of arbitrary types.
struct JHolder {
    virtual ~JHolder() = default;
    virtual JV json() const = 0;
    virtual std::string canon() const = 0;
    virtual bool isClass() const = 0;
    virtual void push(rj::Value &v, rj::Document::AllocatorType &a) const = 0;
    virtual void push(rj::Value::Array &v, rj::Document::AllocatorType &a) const = 0;
    virtual void push(const char *name, rj::Value::Object &v, rj::Document::AllocatorType &a) const = 0;
    virtual bool pushViaMember(rj::Value &container, const char *name, rj::Document::AllocatorType &a) const = 0;
    virtual void pushMembers(rj::Value::Object &v, rj::Document::AllocatorType &a) const = 0;
    virtual void pushCopy(rj::Value &v, rj::Document::AllocatorType &a) const = 0;
    virtual bool canPull() const = 0;
    /// Pulls in various ways and returns which one.
    virtual std::string pull(Tape &t, bool byName, const rj::Value &node, const JV &model, const std::string &name, rr::JsonDeserializationErrors *errors, ops::Errs &expectedErrors, std::string &expected) = 0;
};
/// Types which are not supported by functions dealing with whole documents: composed of others.
template <class Info> struct WrappedInfo {
    static constexpr bool json = Info::json, pull = Info::pull, hasConst = Info::hasConst, serOnly = Info::serOnly, crtp = false;
};
namespace Detail24 {
template <class Info> struct root : std::true_type {};
template <class Info> struct root<WrappedInfo<Info>> : std::false_type {};
constexpr unsigned hashOf(const char *s)
{
    unsigned h = 7;
    for (; *s; ++s) h = h * 31 + static_cast<unsigned char>(*s);
    return h;
}
template <class T, unsigned kind> auto wrapped()
{
    if constexpr (kind == 0) return std::optional<T>();
    else if constexpr (kind == 1) return std::unique_ptr<T>();
    else if constexpr (kind == 2) return std::shared_ptr<T>();
    else if constexpr (kind == 3) return std::pair<T, std::string>();
    else if constexpr (kind == 4) return std::tuple<int, T, std::optional<std::string>>();
    else if constexpr (kind == 5) return std::variant<std::monostate, T, std::string>();
    else return std::map<std::string, std::optional<T>>();
}
} // namespace Detail24
template <class T, class Info> struct JHolderOf : public JHolder {
    T v;
    explicit JHolderOf(T &&o) : v(std::move(o)) {}
    JV json() const override { return ops::refJson(v); }
    std::string canon() const override { return ops::canon(v); }
    bool isClass() const override { return ops::cat<T> == ops::Cat::Struct; }
    void push(rj::Value &x, rj::Document::AllocatorType &a) const override { jr::push(v, x, a); }
    void push(rj::Value::Array &x, rj::Document::AllocatorType &a) const override { jr::push(v, x, a); }
    void push(const char *name, rj::Value::Object &x, rj::Document::AllocatorType &a) const override { jr::push(v, name, x, a); }
    bool pushViaMember(rj::Value &container, const char *name, rj::Document::AllocatorType &a) const override
    {
        if constexpr (Info::crtp) {
            const auto &s = static_cast<const rr::JsonSerializable<T> &>(v);
            if (name) s.push(container, name, a); else s.push(container, a);
            return true;
        } else
            return false;
    }
    void pushMembers(rj::Value::Object &x, rj::Document::AllocatorType &a) const override
    {
        if constexpr (ops::cat<T> == ops::Cat::Struct) {
            jr::push(v, x, a);
        }
    }
    void pushCopy(rj::Value &x, rj::Document::AllocatorType &a) const override
    {
        if constexpr (Detail24::root<Info>::value) {
            const auto doc = jr::toJsonDocument<T>(v);
            x.CopyFrom(doc, a);
        } else {
            rj::Document doc;
            jr::push(v, static_cast<rj::Value &>(doc), doc.GetAllocator());
            x.CopyFrom(doc, a);
        }
    }
    static constexpr bool pullable = Info::pull && !Info::hasConst && !Info::serOnly;
    bool canPull() const override { return pullable; }
    std::string pull(Tape &t, bool byName, const rj::Value &node, const JV &model, const std::string &name, rr::JsonDeserializationErrors *errors, ops::Errs &expectedErrors, std::string &expected) override
    {
        std::string how;
        if constexpr (pullable) {
            constexpr auto c = ops::cat<T>;
            constexpr bool array = c == ops::Cat::Seq || c == ops::Cat::Set;
            T e = T();
            ops::CloneCtx ctx;
            ops::cloneInto(e, v, ctx);
            switch (byName ? 0 : t.below(3)) {
            case 0: // named member, which might not exist
                if (model.kind != JV::Obj) break;
                how = "member";
                if (const auto *const m = model.find(name)) {
                    const auto pm = expectedErrors.member;
                    const auto ph = expectedErrors.hasMember;
                    expectedErrors.member = name;
                    expectedErrors.hasMember = true;
                    ops::refPull(e, *m, expectedErrors);
                    expectedErrors.member = pm;
                    expectedErrors.hasMember = ph;
                } else
                    how = "absent member";
                jr::pull(v, name.data(), node.GetObject(), errors);
                break;
            case 1:
                if constexpr (array) {
                    if (model.kind == JV::Arr) {
                        how = "array";
                        ops::refPull(e, model, expectedErrors);
                        jr::pull(v, node.GetArray(), errors);
                    }
                }
                if constexpr (c == ops::Cat::Struct) {
                    if (model.kind == JV::Obj) {
                        how = "object";
                        ops::refPull(e, model, expectedErrors);
                        jr::pull(v, node.GetObject(), errors);
                    }
                }
                break;
            default:;
            }
            if (how.empty()) {
                how = "value";
                ops::refPull(e, model, expectedErrors);
                jr::pull(v, node, errors);
            }
            expected = ops::canon(e);
        }
        return how;
    }
};
struct JType {
    std::string name;
    std::unique_ptr<JHolder> (*make)(Tape &);
    bool pull;
};
inline std::vector<JType> &jTypes() { static std::vector<JType> t; return t; }
template <class T, class Info> std::unique_ptr<JHolder> makeJ(Tape &t)
{
    return std::make_unique<JHolderOf<T, Info>>(genValue<T>(t));
}
inline const std::vector<JType> &sortedJTypes(bool pull)
{
    static const auto types = [] {
        std::pair<std::vector<JType>, std::vector<JType>> r;
        auto &all = jTypes();
        std::stable_sort(all.begin(), all.end(), [](const auto &a, const auto &b) { return a.name < b.name; });
        r.first = all;
        for (const auto &x : all) if (x.pull) r.second.push_back(x);
        return r;
    }();
    return pull ? types.second : types.first;
}
inline void fromJv(const JV &j, rj::Value &v, rj::Document::AllocatorType &a)
{
    switch (j.kind) {
    case JV::Null: v.SetNull(); break;
    case JV::Bool: v.SetBool(j.b); break;
    case JV::Num: if (j.nk == JV::I64) v.SetInt64(j.i); else if (j.nk == JV::U64) v.SetUint64(j.u); else v.SetDouble(j.d); break;
    case JV::Str: v.SetString(j.s.data(), static_cast<rj::SizeType>(j.s.size()), a); break;
    case JV::Arr:
        v.SetArray();
        for (const auto &e : j.a) { rj::Value x; fromJv(e, x, a); v.PushBack(x, a); }
        break;
    case JV::Obj:
        v.SetObject();
        for (const auto &m : j.o) { rj::Value x, n(m.first.data(), static_cast<rj::SizeType>(m.first.size()), a); fromJv(m.second, x, a); v.AddMember(n, x, a); }
    }
}
/// Picks a node, following the same path in document and model.
inline std::pair<rj::Value *, JV *> pickNode(Tape &t, rj::Value *v, JV *j)
{
    for (int depth = 0; depth < 8; ++depth) {
        if (j->kind == JV::Arr && !j->a.empty() && t.chance(3, 4)) { const auto i = t.below(j->a.size()); v = &(*v)[static_cast<rj::SizeType>(i)]; j = &j->a[i]; }
        else if (j->kind == JV::Obj && !j->o.empty() && t.chance(3, 4)) { const auto i = t.below(j->o.size()); v = &(v->MemberBegin() + static_cast<std::ptrdiff_t>(i))->value; j = &j->o[i].second; }
        else break;
    }
    return { v, j };
}
inline bool allRestorable(const JV &j)
{
    if (j.kind == JV::Num && j.nk == JV::Dbl) return restorable(j.d);
    for (const auto &e : j.a) if (!allRestorable(e)) return false;
    for (const auto &m : j.o) if (!allRestorable(m.second)) return false;
    return true;
}

template <class T, class Info> void c24(Tape &t, Ctx &c, const char *name)
{
    rj::Document doc(t.below(2) ? rj::kObjectType : rj::kArrayType);
    JV model = doc.IsObject() ? JV::obj() : JV::arr();
    std::deque<std::string> names; // members are pushed under names which are not copied
    rr::JsonDeserializationErrors errors;
    ops::Errs expectedErrors;
    if (t.chance(1, 3)) { errors.currentRecord = "the record"; expectedErrors.record = "the record"; }
    if (t.chance(1, 4)) { errors.currentMember = "the member"; expectedErrors.member = "the member"; expectedErrors.hasMember = true; }
    if (t.chance(1, 4)) errors.currentIndex = expectedErrors.index = t.below(5);
    const auto index = errors.currentIndex;
    const auto *const record = errors.currentRecord, *const member = errors.currentMember;
    std::string history = name;
    std::size_t pushes = 0, pulls = 0, edits = 0;
    const auto &a = doc.GetAllocator();
    auto &alloc = const_cast<rj::Document::AllocatorType &>(a);
    const auto steps = 2 + t.below(12);
    using Make = std::unique_ptr<JHolder> (*)(Tape &);
    struct { rj::Value *v = nullptr; JV *j = nullptr; Make make = nullptr; std::string name; } last; // what has just been pushed
    for (std::size_t step = 0; step < steps; ++step) {
        auto [v, j] = pickNode(t, &doc, &model);
        const bool follow = last.v && last.make && t.chance(2, 3);
        if (follow) { v = last.v; j = last.j; }
        const auto memberName = [&, j = j] { // of the node: existing, similar or a new one
            if (j->kind == JV::Obj && !j->o.empty() && t.chance(1, 2)) { const auto &n = j->o[t.below(j->o.size())].first; if (n.find('\0') == n.npos) return n; }
            return ops::genString(t, true, false);
        };
        auto op = follow ? 5 : t.pick({ 8, 8, 10, 6, 4, 12, 3, 3, 3, 3, 2, 2 });
        if ((op == 0 || op == 4) && step && j == &model && t.chance(4, 5)) op = j->kind == JV::Arr ? 1 : 2;
        std::string what;
        if (op <= 4) {
            const bool own = !step || t.chance(1, 2);
            std::unique_ptr<JHolder> holder;
            Make make = &makeJ<T, Info>;
            bool pullable = JHolderOf<T, Info>::pullable;
            if (!own) { const auto &types = sortedJTypes(false); const auto &type = types[t.below(types.size())]; make = type.make; pullable = type.pull; }
            holder = make(t);
            last = { v, j, pullable ? make : nullptr, std::string() };
            const auto json = holder->json();
            const auto before = holder->canon();
            if (op == 1 && j->kind == JV::Arr) {
                what = "append";
                rj::Value::Array arr(v->GetArray());
                if (!t.chance(1, 3) || !holder->pushViaMember(*v, nullptr, alloc)) holder->push(arr, alloc);
                j->a.push_back(json);
                last.v = v->End() - 1;
                last.j = &j->a.back();
            } else if (op == 2 && j->kind == JV::Obj) {
                names.push_back(memberName());
                what = "add member " + names.back();
                rj::Value::Object obj(v->GetObject());
                if (!t.chance(1, 3) || !holder->pushViaMember(*v, names.back().data(), alloc)) holder->push(names.back().data(), obj, alloc);
                j->o.emplace_back(names.back(), json);
                last.name = names.back();
            } else if (op == 3 && j->kind == JV::Obj && holder->isClass()) {
                what = "add members";
                rj::Value::Object obj(v->GetObject());
                holder->pushMembers(obj, alloc);
                j->o.insert(j->o.end(), json.o.begin(), json.o.end());
            } else if (op == 4) {
                what = "copy document";
                holder->pushCopy(*v, alloc);
                *j = json;
            } else {
                what = "push";
                holder->push(*v, alloc);
                *j = json;
            }
            ++pushes;
            PBT_CHECK(holder->canon() == before, "modified", "pushing modified the value: " + quote(before) + " -> " + quote(holder->canon()));
            what += " " + model::dump(json);
        } else if (op == 5) {
            const auto &types = sortedJTypes(true);
            const bool own = JHolderOf<T, Info>::pullable && t.chance(1, 2);
            if (!follow && !own && types.empty()) continue;
            auto holder = follow ? last.make(t) : own ? makeJ<T, Info>(t) : types[t.below(types.size())].make(t);
            const bool collect = t.chance(3, 4);
            names.push_back(follow && !last.name.empty() ? last.name : memberName()); // errors refer to it
            const auto &n = names.back();
            std::string expected;
            ops::Errs none = expectedErrors;
            const auto before = holder->canon();
            const auto errorsBefore = errors.size();
            const auto &cv = *v;
            what = "pull " + holder->pull(t, follow && !last.name.empty(), cv, *j, n, collect ? &errors : nullptr, collect ? expectedErrors : none, expected);
            ++pulls;
            history += "; " + what;
            c.describe(history);
            PBT_CHECK(holder->canon() == expected, "value", "pulled: " + quote(holder->canon()) + "\nexpected: " + quote(expected) + "\nfrom: " + quote(model::dump(*j)) + " previously " + quote(before));
            PBT_CHECK(errList(errors) == errList(expectedErrors.list), "errors", "errors:   " + errList(errors) + "\nexpected: " + errList(expectedErrors.list));
            PBT_CHECK(errors.currentIndex == index && errors.currentRecord == record && errors.currentMember == member, "context", "context not restored");
            c.label(what + (errors.size() == errorsBefore ? ", no errors" : ", errors"));
        } else if (op == 6) {
            what = "assign";
            JV x = junk(t);
            fromJv(x, *v, alloc);
            *j = std::move(x);
        } else if (op == 7 && (j->kind == JV::Arr || j->kind == JV::Obj)) {
            what = "insert";
            JV x = junk(t);
            rj::Value value;
            fromJv(x, value, alloc);
            if (j->kind == JV::Arr) { v->PushBack(value, alloc); j->a.push_back(std::move(x)); }
            else {
                const auto n = memberName();
                rj::Value nv(n.data(), static_cast<rj::SizeType>(n.size()), alloc);
                v->AddMember(nv, value, alloc);
                j->o.emplace_back(n, std::move(x));
            }
        } else if (op == 8 && ((j->kind == JV::Arr && !j->a.empty()) || (j->kind == JV::Obj && !j->o.empty()))) {
            what = "erase";
            if (j->kind == JV::Arr) { const auto i = static_cast<std::ptrdiff_t>(t.below(j->a.size())); v->Erase(v->Begin() + i); j->a.erase(j->a.begin() + i); }
            else if (t.below(2)) { const auto i = static_cast<std::ptrdiff_t>(t.below(j->o.size())); v->EraseMember(v->MemberBegin() + i); j->o.erase(j->o.begin() + i); }
            else { // the last member takes the place of the removed one
                const auto i = t.below(j->o.size());
                v->RemoveMember(v->MemberBegin() + static_cast<std::ptrdiff_t>(i));
                j->o[i] = j->o.back();
                j->o.pop_back();
            }
        } else if (op == 9 && j->kind == JV::Arr && j->a.size() > 1) {
            what = "swap";
            const auto x = t.below(j->a.size()), y = t.below(j->a.size());
            (*v)[static_cast<rj::SizeType>(x)].Swap((*v)[static_cast<rj::SizeType>(y)]);
            if (x != y) std::swap(j->a[x], j->a[y]);
        } else if (op == 10 && allRestorable(model)) {
            what = "write and parse";
            const auto text = textOf(jr::serializeJsonDocToString(doc));
            model::Parser p(text);
            const auto parsed = p.parse();
            PBT_CHECK(parsed && model::same(*parsed, model), "text", "text: " + quote(text) + "\nexpected: " + quote(model::dump(model)));
            auto again = jr::parseJsonDocFromString(text.data(), text.size());
            doc.CopyFrom(again, alloc);
        } else if (op == 11 && (j->kind == JV::Arr || j->kind == JV::Obj)) {
            what = "clear";
            if (j->kind == JV::Arr) { v->Clear(); j->a.clear(); } else { v->RemoveAllMembers(); j->o.clear(); }
        } else
            continue;
        if (op > 5) ++edits;
        if (op > 4) last = {};
        if (op != 5) history += "; " + what;
        if (history.size() > 6000) history = "..." + history.substr(history.size() - 6000);
        c.describe(history);
        const auto actual = toJv(doc);
        PBT_CHECK(model::same(actual, model), "document", "after " + what + ": " + quote(model::dump(actual)) + "\nexpected: " + quote(model::dump(model)));
    }
    c.identify(history);
    c.nontrivial = pushes && pulls && pushes + pulls + edits >= 4;
    const auto text = textOf(jr::serializeJsonDocToString(doc));
    model::Parser p(text);
    const auto parsed = p.parse();
    PBT_CHECK(parsed && model::same(*parsed, model), "text", "text: " + quote(text) + "\nexpected: " + quote(model::dump(model)));
}
template <class T, class Info> int addJType(const char *name)
{
    jTypes().push_back({ name, &makeJ<T, Info>, JHolderOf<T, Info>::pullable });
    return 0;
}
template <class T, class Info> void addWrapped(const char *name)
{
    if constexpr (Info::pull && !Info::hasConst && !Info::serOnly && std::is_default_constructible_v<T> && std::is_move_assignable_v<T>) {
        using W = decltype(Detail24::wrapped<T, Detail24::hashOf(__PRETTY_FUNCTION__) % 7>());
        addJType<W, WrappedInfo<Info>>(name); // stable order
    }
}
template <class T> void registerStruct(const char *name)
{
    using Info = ops::StructInfo<T>;
    if constexpr (Info::json && std::is_move_constructible_v<T>) {
        addWrapped<T, Info>(name);
        addJType<T, Info>(name);
        pbt::entries().push_back({ name, 4, [name](Tape &t, Ctx &c) { c24<T, Info>(t, c, name); } });
    }
}
template <class T, class Info> void registerRoot(const char *name)
{
    if constexpr (Info::json) {
        addWrapped<T, Info>(name);
        addJType<T, Info>(name);
        pbt::entries().push_back({ name, 3, [name](Tape &t, Ctx &c) { c24<T, Info>(t, c, name); } });
    }
}
