#!/usr/bin/env python3
"""Generates the type universe: C++ classes with random (nested) member types plus the functions the code generator would
emit for them, plus descriptions of them (StructInfo) for the independent models in ops.h.

usage: universe.py MODE SEED SHARD SHARDS RANDOM_STRUCTS > shard.cpp
MODE: json (everything deserializable from JSON), ser (JSON serialization-only types, too), bin (binary), both (types
      supported by JSON and binary), cjson, cboth, cbin (with types having
      custom (de)serialization), hjson, hbin, hboth (pairs of ordinary classes and ones defined via Boost.Hana)"""
import copy, random, re, sys

INTS_JSON = ['bool', 'std::int8_t', 'std::uint8_t', 'int', 'unsigned', 'std::int64_t', 'std::uint64_t']
INTS_BIN = ['bool', 'char', 'std::uint8_t', 'std::int16_t', 'std::uint16_t', 'std::int32_t', 'std::uint32_t', 'std::int64_t', 'std::uint64_t']
INTS_BOTH = ['bool', 'std::uint8_t', 'int', 'unsigned', 'std::int64_t', 'std::uint64_t']
FLOATS = ['float', 'double']
ENUM_UNDER = {'json': ['int', 'std::uint8_t', 'std::int8_t', 'std::int16_t', 'std::uint16_t', 'unsigned', 'std::int64_t', 'std::uint64_t'],
              'bin': ['int', 'std::uint8_t', 'char', 'std::int16_t', 'std::uint16_t', 'unsigned', 'std::int64_t', 'std::uint64_t'],
              'both': ['int', 'std::uint8_t', 'std::int16_t', 'std::uint16_t', 'unsigned', 'std::int64_t', 'std::uint64_t']}


def b(x):
    return 'true' if x else 'false'


class Ty:
    def __init__(self, cpp, leaf=False, ordered=False, hashable=False, nullable=False, copyable=True, cls=None, init=None, sharedcopy=True):
        self.cpp, self.leaf, self.ordered, self.hashable = cpp, leaf, ordered, hashable
        self.nullable, self.copyable, self.cls, self.init = nullable, copyable, cls, init

    def __repr__(self):
        return self.cpp


class Universe:
    def __init__(self, mode, seed, shard, shards, nrandom, flavour='', custom=''):
        """flavour: empty, or 'o'/'h' for ordinary classes and their counterparts defined via Boost.Hana"""
        self.mode, self.shard, self.flavour = mode, shard, flavour
        self.base = 'json' if mode == 'ser' else mode
        self.rng = random.Random(f'{mode}/{seed}/{shard}')
        self.ns = f'{flavour}{custom}{mode}{shard}'
        times = [Ty('::CppUtilities::DateTime', ordered=True), Ty('::CppUtilities::TimeSpan', ordered=True)]
        self.times = times if flavour != 'g' and custom != 'n' else []
        self.custom_types = {'': [], 'n': [], 't': times, 'c': [Ty('::custom::Hex', ordered=True, hashable=True), Ty('::custom::Point', ordered=True), Ty('::custom::Label', ordered=True, nullable=True)] + times}[custom]
        self.decls, self.funcs, self.infos, self.regs = [], [], [], []
        self.structs = []  # usable as member types
        self.enums = []
        self.n = 0
        self.throwing = set()  # classes with members of type std::deque
        self.json = mode in ('json', 'ser', 'both')
        self.bin = mode in ('bin', 'both')
        under = ENUM_UNDER[self.base]
        for i in range(3):
            u = under[(shard * 3 + i) % len(under)]
            name = f'E{i}'
            self.decls.append(f'enum {"class " if i != 1 else ""}{name} : {u} {{ {name}A, {name}B, {name}C = 5 }};')
            self.enums.append(Ty(f'{self.ns}::{name}', leaf=True, ordered=True, hashable=True, init=[f'{self.ns}::{name}::{name}B']))
        self.custom_containers()
        core = self.core_structs() if custom in ('', 'n') else self.custom_structs()
        for i, c in enumerate(core):
            if i % shards == shard:
                c()
        if custom in ('', 'n'):
            self.enum_struct()
        for _ in range(nrandom):
            self.random_struct()
        if not flavour:
            self.roots()

    # --- types
    def leaf(self):
        r = self.rng
        ints = {'json': INTS_JSON, 'bin': INTS_BIN, 'both': INTS_BOTH}[self.base]
        k = r.randrange(10)
        if k < 4:
            return self.scalar(r.choice(ints))
        if k < 5:
            return self.scalar(r.choice(FLOATS))
        if k < 6:
            return r.choice(self.enums)
        return self.string()

    def scalar(self, t):
        init = {'bool': ['true', 'false'], 'float': ['1.5f', '-0.25f'], 'double': ['2.5', '-1e10']}.get(t, ['7', '42', '1'])
        return Ty(t, leaf=True, ordered=True, hashable=True, init=init)

    def string(self):
        return Ty('std::string', leaf=True, ordered=True, hashable=True, init=['"default"', '""', '"a longer default string, not stored inline"'])

    def key(self):
        if self.base == 'bin':
            t = self.leaf()
            while t.cpp in ('float', 'double', 'bool'):
                t = self.leaf()
            return t
        return self.string()

    def ty(self, depth, hashable=False, ordered=False, nullable=True):
        """A random type; depth limits the nesting of composite types."""
        r = self.rng
        if self.times and not hashable and r.random() < .04:
            return r.choice(self.times)
        if self.custom_types and r.random() < .4 and (not hashable or any(t.hashable for t in self.custom_types)):
            return r.choice([t for t in self.custom_types if (t.hashable or not hashable) and (nullable or not t.nullable)])
        if hashable:
            return self.leaf()
        if ordered:
            k = r.randrange(6)
            if k < 4 or depth <= 0:
                return self.leaf()
            if k == 4:
                return Ty(f'std::vector<{self.nb(self.leaf())}>', ordered=True)
            return Ty(f'std::pair<{self.leaf()}, {self.leaf()}>', ordered=True)
        if depth <= 0:
            return self.leaf()
        kinds = ['leaf'] * 3 + ['vector'] * 2 + ['list', 'deque', 'set', 'multiset', 'uset', 'umultiset', 'map', 'umap', 'mmap', 'ummap', 'pair', 'variant', 'variant']
        if self.base == 'json':
            kinds += ['tuple', 'tuple']
        if self.mode == 'ser':
            kinds += ['view', 'cstr', 'array', 'fwd', 'vmap']
        if nullable:
            kinds += ['unique', 'shared', 'optional', 'optional']
        if self.structs:
            kinds += ['struct'] * 4
        kinds += ['custom']
        return self.kind(r.choice(kinds), depth)

    def nb(self, t):  # std::vector<bool> is not supported
        return self.scalar('int' if self.base != 'bin' else 'std::int32_t') if t.cpp == 'bool' else t

    def kind(self, k, depth, el=None):
        r = self.rng
        sub = lambda **kw: el or self.ty(depth - 1, **kw)
        if k == 'leaf':
            return self.leaf()
        if k in ('vector', 'list', 'deque'):
            e = self.nb(sub()) if k == 'vector' else sub()
            if k == 'deque' and not e.copyable:
                k = 'list' # vectors would try to copy classes with such a member as moving it might throw
            return Ty(f'std::{k}<{e}>', copyable=e.copyable, init=['{ %s, %s }' % (e.init[0], e.init[-1])] if e.leaf else None)
        if k == 'fwd':
            e = sub()
            return Ty(f'std::forward_list<{e}>', copyable=e.copyable)
        if k == 'array':
            e = self.leaf()
            return Ty(f'std::array<{e}, {r.randrange(1, 4)}>')
        if k in ('set', 'multiset'):
            e = el or self.ty(depth - 1, ordered=True)
            return Ty(f'std::{k}<{e}>', init=['{ %s }' % e.init[0]] if e.leaf else None)
        if k in ('uset', 'umultiset'):
            e = el or self.ty(0, hashable=True)
            return Ty(f'std::unordered_{k[1:]}<{e}>', init=['{ %s }' % e.init[0]] if e.leaf else None)
        if k in ('map', 'umap', 'mmap', 'ummap'):
            key, e = self.key(), sub()
            name = {'map': 'map', 'umap': 'unordered_map', 'mmap': 'multimap', 'ummap': 'unordered_multimap'}[k]
            return Ty(f'std::{name}<{key}, {e}>', copyable=e.copyable, init=['{ { %s, %s } }' % (key.init[0], e.init[0])] if e.leaf else None)
        if k == 'vmap':
            return Ty(f'std::{r.choice(["map", "multimap"])}<std::string_view, {sub()}>')
        if k == 'pair':
            a, b = sub(), sub()
            return Ty(f'std::pair<{a}, {b}>', copyable=a.copyable and b.copyable)
        if k == 'tuple':
            a = [sub() for _ in range(r.randrange(1, 5))]
            return Ty('std::tuple<%s>' % ', '.join(x.cpp for x in a), copyable=all(x.copyable for x in a))
        if k == 'variant':
            a = [sub() for _ in range(r.randrange(1, 5))]
            names = [x.cpp for x in a]
            if r.random() < 0.4:
                names.insert(r.randrange(len(names) + 1), 'std::monostate')
            return Ty('std::variant<%s>' % ', '.join(names), copyable=all(x.copyable for x in a))
        if k == 'unique':
            e = el or self.ty(depth - 1, nullable=False)
            return Ty(f'std::unique_ptr<{e}>', nullable=True, copyable=False, init=[f'std::make_unique<{e}>()'])
        if k == 'shared':
            e = el or self.ty(depth - 1, nullable=False)
            return Ty(f'std::shared_ptr<{e}>', nullable=True, init=[f'std::make_shared<{e}>()'])
        if k == 'optional':
            e = el or self.ty(depth - 1, nullable=False)
            return Ty(f'std::optional<{e}>', nullable=True, copyable=e.copyable, init=[e.init[0]] if e.leaf else None)
        if k == 'struct':
            return r.choice(self.structs)
        if k == 'custom':
            return r.choice(self.customs)
        if k == 'view':
            return Ty('std::string_view', init=['"view default"'])
        if k == 'cstr':
            return Ty('const char *', init=['"cstr default"', 'nullptr'])
        raise Exception(k)

    def custom_containers(self):
        """Custom containers which are supposed to be treated as one of the standard ones via the REFLECTIVE_RAPIDJSON_TREAT_AS_* macros."""
        self.customs = []
        it = 'int' if self.base != 'bin' else 'std::int32_t'
        specs = [('CMapS', f'std::map<std::string, {it}>', 'TREAT_AS_MAP_OR_HASH', 'CMap'),
                 ('CMMapS', 'std::multimap<std::string, std::string>', 'TREAT_AS_MULTI_MAP_OR_HASH', 'CMMap'),
                 ('CSetS', 'std::set<std::string>', 'TREAT_AS_SET', 'CSet'),
                 ('CMSetS', f'std::multiset<{it}>', 'TREAT_AS_MULTI_SET', 'CMSet'),
                 ('CSeqS', f'std::vector<{it}>', None, 'CSeq')]
        for name, base, macro, kind in specs:
            self.decls.append(f'struct {name} : public {base} {{ using Base = {base}; using Base::Base; }};')
            if macro:
                self.decls.append(f'}} namespace ReflectiveRapidJSON {{ REFLECTIVE_RAPIDJSON_{macro}({self.ns}::{name}); }} namespace {self.ns} {{')
            self.infos.append(f'template <> struct CustomKind<{self.ns}::{name}> {{ static constexpr int kind = {kind}; }};')
            self.customs.append(Ty(f'{self.ns}::{name}'))

    # --- classes
    def throws(self, cpp):
        """returns whether moving might throw"""
        return 'std::deque<' in cpp or any(re.search(r'\b%s\b' % re.escape(x), cpp) for x in self.throwing)

    def settle(self, members, move_only):
        """avoids that moving a class which is not copyable might throw as std::vector<> of it would try to copy"""
        if not move_only and all(m.copyable for m in members):
            return list(members)
        res = []
        for m in members:
            if self.throws(m.cpp):
                m = copy.copy(m)
                m.cpp = m.cpp.replace('std::deque<', 'std::list<')
                m.init = m.init and [x.replace('std::deque<', 'std::list<') for x in m.init]
                if m.cpp.startswith('std::optional<'):
                    m = Ty(m.cpp.replace('std::optional<', 'std::unique_ptr<', 1), nullable=True, copyable=False)
                elif self.throws(m.cpp) and not m.cpp.startswith(('std::unique_ptr<', 'std::shared_ptr<')):
                    m = Ty(f'std::unique_ptr<{m}>', nullable=True, copyable=False)
            res.append(m)
        return res

    def struct(self, members, bases=(), name=None, usable=True, adapt=None, inner=None, const=(), selfref=()):
        """members: list of Ty (names are assigned). selfref: kinds of members referring to the class itself"""
        r = self.rng
        self.n += 1
        define = False
        if self.flavour:
            bases, const = (), ()
            # via the macro which does not allow initializers (and hence not for members which would be left uninitialized)
            define = r.random() < 0.7 and all(m.cpp == 'std::string' or not (m.leaf or m.cpp.endswith('*')) for m in members)
        members = self.settle(members, any('unique' in k for k in selfref) or not all(b.copyable for b in bases))
        inner = r.random() < 0.3 if inner is None else inner
        name = name or f'S{self.n}'
        full = f'{self.ns}::inner::{name}' if inner else f'{self.ns}::{name}'
        adapt = (r.random() < 0.25) if adapt is None else adapt
        if any(self.throws(m.cpp) for m in members) or any(self.throws(b.cpp) for b in bases):
            self.throwing.add(full)
        body, fields, types = [], [], []
        for i, t in enumerate(members):
            mname = r.choice(['m%d', 'value%d', 'someMember%d', 'x_%d', 'aLongMemberNameOfMoreThanTwentyCharacters%d']) % (self.n * 100 + i)
            init = ''
            is_const = i in const
            if define:
                pass
            elif t.init and (r.random() < 0.5 or t.leaf):
                init = ' = ' + r.choice(t.init)
            elif t.leaf or t.cpp.endswith('*'):
                init = '{}'
            body.append(f'    {"const " if is_const else ""}{t.cpp} {mname}{init};')
            types.append(t.cpp)
            fields.append((mname, is_const))
        for i, k in enumerate(selfref):
            mname = f'self{self.n * 100 + i}'
            body.append(f'    {k % full} {mname};')
            types.append(k % full)
            fields.append((mname, False))
        parents = [f'public {b.cpp}' for b in bases]
        if not adapt:
            if self.json:
                parents.append(f'public rr::JsonSerializable<{full}>')
            if self.bin:
                parents.append(f'public rr::BinarySerializable<{full}>')
            r.shuffle(parents)
        aliases = ''
        if self.flavour == 'h' and define:
            aliases = ''.join(f'using T{self.n}_{i} = {x};\n' for i, x in enumerate(types))
            body = [f'    BOOST_HANA_DEFINE_STRUCT({name}, ' + ', '.join(f'(T{self.n}_{i}, {m})' for i, (m, _) in enumerate(fields)) + ');']
        decl = f'struct {name}{" : " + ", ".join(parents) if parents else ""} {{\n' + '\n'.join(body) + '\n};'
        if not adapt and self.json and len(bases) == 0:
            pass
        if inner:
            decl = f'namespace inner {{ struct {name}; }}\n' + f'namespace inner {{\n{aliases}{decl}\n}}'
        else:
            decl = f'struct {name};\n{aliases}{decl}'
        self.decls.append(decl)
        if self.flavour == 'h' and not define:
            self.decls.append(f'}} BOOST_HANA_ADAPT_STRUCT({full}, {", ".join(m for m, _ in fields)}); namespace {self.ns} {{')
        if adapt:
            m = []
            if self.json:
                m.append(f'REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE({full});')
            if self.bin:
                m.append(f'REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE({full});')
            self.decls.append(f'}} {" ".join("namespace ReflectiveRapidJSON { " + x + " }" for x in m)} namespace {self.ns} {{')
        f = []
        generated = self.flavour != 'h'
        if self.json and generated:
            f.append(f'template <> inline void push<::{full}>(const ::{full} &reflectable, ::RAPIDJSON_NAMESPACE::Value::Object &value, ::RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)\n{{')
            f.append('    (void)reflectable; (void)value; (void)allocator;')
            for b in bases:
                f.append(f'    push(static_cast<const ::{b} &>(reflectable), value, allocator);')
            for m, c in fields:
                f.append(f'    push(reflectable.{m}, "{m}", value, allocator);')
            f.append('}')
            if self.mode != 'ser':
                f.append(f'template <> inline void pull<::{full}>(::{full} &reflectable, const ::RAPIDJSON_NAMESPACE::GenericValue<::RAPIDJSON_NAMESPACE::UTF8<char>>::ConstObject &value, JsonDeserializationErrors *errors)\n{{')
                for b in bases:
                    f.append(f'    pull(static_cast<::{b} &>(reflectable), value, errors);')
                f.append('    const char *previousRecord = nullptr;\n    if (errors) {\n        previousRecord = errors->currentRecord;\n        errors->currentRecord = "%s";\n    }' % full)
                for m, c in fields:
                    if not c:
                        f.append(f'    pull(reflectable.{m}, "{m}", value, errors);')
                f.append('    if (errors) {\n        errors->currentRecord = previousRecord;\n    }\n}')
            self.funcs.append('namespace ReflectiveRapidJSON { namespace JsonReflector {\n' + '\n'.join(f) + '\n} }')
        f = []
        if self.bin and generated:
            v = f'Versioning<::ReflectiveRapidJSON::BinarySerializable<::{full}>>'
            f.append(f'template <> inline void writeCustomType<::{full}>(BinarySerializer &serializer, const ::{full} &customObject, BinaryVersion version)\n{{\n    (void)serializer; (void)customObject; (void)version;')
            for b in bases:
                f.append(f'    serializer.write(static_cast<const ::{b} &>(customObject), version);')
            if not adapt:
                f.append(f'    using V = {v};\n    if constexpr (V::enabled) {{\n        serializer.writeVariableLengthUIntBE(V::applyDefault(version));\n    }}')
            for m, c in fields:
                if not c:
                    f.append(f'    serializer.write(customObject.{m}, version);')
            f.append('}')
            f.append(f'template <> inline BinaryVersion readCustomType<::{full}>(BinaryDeserializer &deserializer, ::{full} &customObject, BinaryVersion version)\n{{\n    (void)deserializer; (void)customObject;')
            for b in bases:
                f.append(f'    deserializer.read(static_cast<::{b} &>(customObject), version);')
            if not adapt:
                f.append(f'    using V = {v};\n    if constexpr (V::enabled) {{\n        V::assertVersion(version = deserializer.readVariableLengthUIntBE(), "{full}");\n    }}')
            for m, c in fields:
                if not c:
                    f.append(f'    deserializer.read(customObject.{m}, version);')
            f.append('    return version;\n}')
            self.funcs.append('namespace ReflectiveRapidJSON { namespace BinaryReflector {\n' + '\n'.join(f) + '\n} }')
        # a class is moved and copied in any context it is used unless it has constant or move-only members
        ser_only = self.mode == 'ser' or any(m.cpp in ('const char *', 'std::string_view') for m in members)
        info = [f'template <> struct StructInfo<{full}> {{ static constexpr bool is = true; static constexpr bool crtp = {"false" if adapt else "true"}; static constexpr bool hasConst = {"true" if const else "false"}; static constexpr bool serOnly = {"true" if ser_only else "false"}; static constexpr bool json = {"true" if self.json else "false"}; static constexpr bool pull = {"true" if self.mode != "ser" else "false"}; static constexpr bool bin = {"true" if self.bin else "false"};']
        info.append('    template <class F> static void each(F &&f) {\n        (void)f;')
        for b in bases:
            info.append(f'        StructInfo<{b}>::each(f);')
        for m, c in fields:
            info.append(f'        f("{full}", "{m}", &{full}::{m});')
        info.append('    }\n};')
        self.infos.append('\n'.join(info))
        t = Ty(full, cls=full, copyable=all(m.copyable for m in members) and all(b.copyable for b in bases) and not any('unique' in k for k in selfref))
        if usable:
            self.structs.append(t)
        self.regs.append(f'registerStruct<{full}>("{full}");' if not self.flavour else f'registerPair<o{full[1:]}, h{full[1:]}>("{full[1:]}");')
        return t

    def random_struct(self):
        r = self.rng
        members = [self.ty(r.choice([1, 2, 2, 3])) for _ in range(r.randrange(1, 7))]
        bases = []
        cands = [s for s in self.structs]
        if cands and r.random() < 0.35:
            bases = [r.choice(cands)]
        selfref = []
        if r.random() < 0.15:
            selfref = [r.choice(['std::vector<%s>', 'std::unique_ptr<%s>', 'std::shared_ptr<%s>', 'std::list<%s>'])]
        const = [0] if self.json and members[0].leaf and members[0].init and r.random() < 0.15 else []
        self.struct(members, bases, const=const, selfref=selfref, usable=not const and not selfref)

    def enum_struct(self):
        """Enumerations are different in each shard."""
        kinds = ['vector', 'optional', 'pair', 'set', 'uset'] + (['map', 'ummap'] if self.base == 'bin' else [])
        self.struct(self.enums + [self.kind(k, 1, e) for k, e in zip(self.rng.sample(kinds, 3), self.enums)])

    def core_structs(self):
        """Classes covering every kind of type regardless of the seed."""
        sc, st = self.scalar, self.string
        ints = {'json': INTS_JSON, 'bin': INTS_BIN, 'both': INTS_BOTH}[self.base]
        i32 = sc('int' if self.base != 'bin' else 'std::int32_t')

        def leaves():
            self.struct([sc(t) for t in ints + FLOATS] + [st()] + self.enums, adapt=False)

        def sequences():
            b = self.struct([i32, st()])
            self.struct([self.kind(k, 1, e) for k in ('vector', 'list', 'deque') for e in (i32, st(), b, sc('double'))] + [self.kind('vector', 2, self.kind('vector', 1, i32)), self.kind('vector', 2, self.kind('list', 2, self.kind('vector', 1, st())))])

        def sets():
            self.struct([self.kind(k, 1, e) for k in ('set', 'multiset', 'uset', 'umultiset') for e in (i32, st(), self.enums[0])] + [Ty('std::set<std::pair<%s, std::string>>' % i32), Ty(f'std::set<std::vector<{i32}>>')])

        def maps():
            b = self.struct([st(), i32])
            self.struct([self.kind(k, 1, e) for k in ('map', 'umap') for e in (i32, st(), b, self.kind('vector', 1, i32), self.kind('map', 1, st()))])

        def multimaps():
            b = self.struct([st(), i32])
            self.struct([self.kind(k, 1, e) for k in ('mmap', 'ummap') for e in (i32, st(), b, self.kind('vector', 1, i32), self.kind('map', 1, st()))])

        def pointers():
            b = self.struct([st(), i32])
            self.struct([self.kind(k, 1, e) for k in ('unique', 'shared', 'optional') for e in (i32, st(), b, self.kind('vector', 1, i32))] + [self.kind('vector', 1, self.kind(k, 1, b)) for k in ('unique', 'shared', 'optional')]
                        + [self.kind('map', 1, self.kind('unique', 1, st()))], usable=False)

        def tuples():
            b = self.struct([st(), i32])
            m = [Ty(f'std::pair<{i32}, std::string>'), Ty(f'std::pair<std::string, {b}>'), Ty(f'std::vector<std::pair<{i32}, std::vector<std::string>>>')]
            if self.base == 'json':
                m += [Ty(f'std::tuple<int>'), Ty(f'std::tuple<int, double, std::string>'), Ty(f'std::vector<std::tuple<std::string, {b}, std::vector<int>>>'), Ty(f'std::tuple<std::tuple<int, std::string>, std::optional<int>>')]
            self.struct(m)

        def variants():
            b = self.struct([st(), i32])
            self.struct([Ty(f'std::variant<std::monostate, std::string, {i32}, double, {b}>'), Ty(f'std::vector<std::variant<std::string, {i32}, std::vector<{i32}>>>'),
                         Ty(f'std::variant<{i32}, {i32}>'), Ty(f'std::map<std::string, std::variant<std::monostate, std::unique_ptr<{b}>, std::map<std::string, {i32}>>>', copyable=False)])

        def inheritance():
            a = self.struct([i32, st()])
            b = self.struct([self.kind('vector', 1, i32)], adapt=True)
            c = self.struct([st()], [a])
            self.struct([sc('double')], [c, b])
            if self.flavour:
                return
            self.struct([], [a])
            self.struct([], [], usable=not self.bin)  # elements occupying no bytes would make sizes unchecked

        def recursion():
            self.struct([st()], selfref=['std::vector<%s>', 'std::unique_ptr<%s>', 'std::map<std::string, %s>', 'std::shared_ptr<%s>'], usable=False)

        def customs():
            self.struct(list(self.customs) + [Ty(f'std::vector<{c}>') for c in self.customs])

        def consts():
            if self.json and not self.flavour:
                self.struct([i32, st(), st(), self.kind('vector', 1, i32)], const=[0, 2], usable=False)
                if self.mode == 'json':
                    self.struct([i32, Ty('const char *', init=['"constant"']), Ty('std::string_view', init=['"view"']), st()], usable=False, name='SerOnly%d' % self.shard)

        def times():
            d, s = self.times
            a = self.struct([d, s, self.kind('vector', 1, d), self.kind('map', 1, s), self.kind('optional', 1, d), self.kind('shared', 1, s), Ty(f'std::variant<std::monostate, {s}, {d}>')])
            self.struct([self.kind('set', 1, d), self.kind('list', 1, s), self.kind('pair', 1, s), self.kind('vector', 1, a)], [a])

        r = [leaves, sequences, sets, maps, multimaps, pointers, tuples, variants, inheritance, recursion, customs, consts]
        if self.times:
            r += [times]
        if self.mode == 'ser':
            def views():
                b = self.struct([Ty('std::string_view', init=['"view"']), Ty('const char *', init=['nullptr'])])
                self.struct([Ty('std::vector<std::string_view>'), Ty('std::list<const char *>'), Ty('std::map<std::string_view, int>'), Ty('std::multimap<std::string_view, std::string>'), Ty('std::array<std::string, 3>'), Ty('std::array<int, 1>'),
                             Ty('std::forward_list<int>'), Ty(f'std::forward_list<{b}>'), Ty('std::optional<std::string_view>'), Ty('std::unordered_map<std::string_view, std::forward_list<std::string_view>>'),
                             Ty('std::variant<const char *, std::string_view, int>'), Ty('std::tuple<const char *, std::string>')])
            r += [views]
        return r

    def custom_structs(self):
        """Classes using types with custom (de)serialization in every kind of container."""
        def one(e):
            def make():
                kinds = ['vector', 'list', 'deque', 'set', 'multiset', 'map', 'umap', 'mmap', 'ummap', 'pair', 'variant'] + (['unique', 'shared', 'optional'] if not e.nullable else []) + (['uset', 'umultiset'] if e.hashable else []) + (['tuple'] if self.base == 'json' else [])
                self.struct([e] + [self.kind(k, 1, e) for k in kinds] + [Ty(f'std::variant<{e}, std::string, std::vector<{e}>>')], usable=False)
                self.struct([e, self.string(), e])
            return make

        def mixed():
            a = self.struct(list(self.custom_types), adapt=False)
            b = self.struct(list(self.custom_types), adapt=True)
            self.struct([self.custom_types[0]], [a, b])
            self.struct([self.kind('vector', 1, a), self.kind('map', 1, b), self.kind('optional', 1, a)])
        return [one(e) for e in self.custom_types] + [mixed]

    def roots(self):
        """Types which can be (de)serialized directly via the free functions."""
        r = self.rng
        specs = []
        i32 = self.scalar('int' if self.base != 'bin' else 'std::int32_t')
        if self.base in ('json', 'both'):
            prim = ['bool', 'int', 'unsigned', 'std::int64_t', 'std::uint64_t', 'double', 'float', 'std::string']
            specs += [prim[self.shard % len(prim)]]
        kinds = ['vector', 'list', 'deque', 'map', 'umap', 'mmap', 'ummap']
        specs += [self.kind(kinds[self.shard % len(kinds)], 2).cpp, self.kind(kinds[(self.shard + 3) % len(kinds)], 2).cpp, self.kind(r.choice(kinds), 3).cpp]
        if self.mode == 'ser':
            specs += [['std::string_view', 'const char *'][self.shard % 2]]
        if self.base == 'bin':
            sets = ['set', 'multiset', 'uset', 'umultiset']
            specs += [self.kind(sets[self.shard % len(sets)], 1).cpp]
            others = ['pair', 'variant', 'optional', 'shared', 'unique']
            specs += [self.kind(others[self.shard % len(others)], 2).cpp, self.kind(others[(self.shard + 2) % len(others)], 1).cpp]
        for s in dict.fromkeys(specs):
            self.regs.append(f'registerRoot<{s}, ops::Caps<{b(self.json)}, {b(self.mode != "ser")}, {b(self.bin)}>>("{s}");')

    def emit(self):
        out = [f'// generated by universe.py: mode {self.mode}, shard {self.shard}']
        out.append(f'namespace rr = ReflectiveRapidJSON;\nnamespace {self.ns} {{')
        out += self.decls
        out.append('}')
        out.append('namespace ops {')
        out += self.infos
        out.append('}')
        out += self.funcs
        return '\n'.join(out) + '\n', '\n'.join('    ' + x for x in self.regs)


def main():
    mode, seed, shard, shards, nrandom = sys.argv[1], *map(int, sys.argv[2:6])
    if mode[0] == 'h':  # pairs of ordinary classes and ones defined via Boost.Hana
        body, regs = Universe(mode[1:], seed, shard, shards, nrandom, 'o').emit()
        body += Universe(mode[1:], seed, shard, shards, nrandom, 'h').emit()[0]
    else:
        # with types having custom (de)serialization, especially with/without date and time types
        custom = mode[0] if mode[0] in 'ctn' else ''
        body, regs = Universe(mode[len(custom):], seed, shard, shards, nrandom, custom=custom).emit()
        if custom in ('c', 't'):
            body = '#include "custom_types.h"\n' + body
    print(f'#include "prop.h"\n#include "chrono_types.h"\n{body}\nnamespace {{ struct Init {{ Init() {{\n{regs}\n}} }} init; }}')


if __name__ == '__main__':
    main()
