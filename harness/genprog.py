#!/usr/bin/env python3
"""Generates programs for checking the code generator: headers with class definitions using the features supported by the
generator (access sections, friend declarations, static and constant members, nested classes, namespaces, inheritance, included
headers, version markers, unrelated declarations) plus descriptions of what (de)serialization is supposed to cover.

usage: genprog.py MODE SEED INDEX COUNT VERSIONS DIRECTORY
Writes INDEX_third.h, INDEX_a.h, INDEX_b.h (the latter two being the input of the generator) and INDEX_test.cpp to DIRECTORY and prints the
arguments for the generator."""
import os, random, sys
from universe import Ty, Universe, b

NAMES = ['m%d', 'value%d', 'someMember%d', 'x_%d', '_u%d', 'aLongMemberNameOfMoreThanTwentyCharacters%d', 'größe%d', 'M%d']
PLAIN = ['value', 'reflectable', 'allocator', 'errors', 'version', 'serializer', 'deserializer', 'customObject', 'push', 'pull', 'V', 'index', 'data', 'previousRecord', 'i', 'std', 'ReflectiveRapidJSON', 'JsonReflector', 'write', 'read']


class Cls:
    def __init__(self, full, index):
        self.full, self.index, self.serial = full, index, None
        self.bases, self.names = [], set()
        self.has_const = self.no_default = self.asym = self.late = self.abstract = False
        self.pure = []  # names of methods which need to be overridden

    def ancestors(self):
        r = []
        for x in self.bases:
            r += [x] + x.ancestors()
        return r

    def relevant(self):
        all_ = sorted({x.full: x for x in self.ancestors() if x.serial}.values(), key=lambda x: x.index)
        return [x for x in all_ if not any(x in y.ancestors() for y in all_ if y is not x)]


class Program(Universe):
    def __init__(self, mode, seed, index, count, versions):
        self.classes, self.pending, self.third, self.cli = [], [], [], {'json': [], 'bin': []}
        self.together = [] # pieces which need to be in the same file
        self.versions, self.prog, self.order = versions, index, 0
        self.core = True  # whether making the core classes (which are supposed to be usable as types of members)
        self.pieces = []  # declarations on namespace level incl. namespaces
        super().__init__(mode, seed, index, count, 0, 'g')
        self.core = False

    def scalar_leaf(self):
        t = self.leaf()
        return t

    def noise(self):
        """Declarations no code is supposed to be generated for."""
        r = self.rng
        self.order += 1
        n = f'{self.prog}_{self.order}'
        crtp = 'rr::JsonSerializable' if self.json else 'rr::BinarySerializable'
        return r.choice([
            f'template <class T> struct Tmpl{n} {{ T member; struct Inner {{ int x; }}; }};',
            f'template <class T> struct TmplSer{n} : public {crtp}<TmplSer{n}<T>> {{ T member; }};',
            f'struct Forward{n}; class Forward{n}; struct Forward{n};',
            f'inline int function{n}(int x) {{ struct Local {{ int y; }}; return Local{{ x }}.y; }}',
            f'struct Unrelated{n} {{ int a; private: int b_ = 0; }};',
            f'union Union{n} {{ int a; float b; }};',
            f'// struct Commented{n} : public {crtp}<Commented{n}> {{ int a; }};\n/* struct Commented{n}b : public {crtp}<Commented{n}b> {{ int a; }}; */',
            f'#if 0\nstruct Disabled{n} : public {crtp}<Disabled{n}> {{ int a; }};\n#endif',
            f'typedef struct {{ int a; }} Typedef{n};',
            f'extern int variable{n};',
            f'using Alias{n} = int;',
            f'constexpr int constant{n} = 5; static_assert(constant{n} == 5, "");',
            f'enum Enum{n} {{ enumerator{n} }};',
            f'inline auto lambda{n} = [](auto x) {{ return x; }};',
            f'namespace Other{n} {{ template <class T> struct JsonSerializable {{}}; template <class T> struct BinarySerializable {{}}; struct Look{n} : public JsonSerializable<Look{n}>, public BinarySerializable<Look{n}> {{ int a; }}; }}',
        ])

    def init_of(self, t):
        r = self.rng
        if t.init and (r.random() < 0.5 or t.leaf):
            return r.choice(t.init)
        return '' if t.leaf or t.cpp.endswith('*') else None

    def struct(self, members, bases=(), name=None, usable=True, adapt=None, inner=None, const=(), selfref=(), nested_in=None, plain=False):
        """Overrides the method of the base class which makes a class of a given list of member types."""
        r = self.rng
        self.n += 1
        self.order += 1
        num, versions = self.n, self.versions
        name = r.choice(['S%d', 'Value%d', 'Klasse_%d', 'SomeClassWithALongName%d']) % num
        # where the class is defined
        where = 'nested' if nested_in else r.choices(['ns', 'inner', 'global', 'lib'], [60, 20, 12, 8])[0]
        name_part = f'{name}P{self.ns}' if where in ('global', 'lib') else name
        full = {'nested': f'{nested_in}::{name_part}', 'ns': f'{self.ns}::{name_part}', 'inner': f'{self.ns}::inner::deep::{name_part}', 'global': name_part, 'lib': f'ReflectiveRapidJSON::{name_part}'}[where]
        cls = Cls(full, self.order)
        cls.serial = r.choices(['crtp', 'adapt', 'listed', None], [70, 15, 7, 0 if usable else 0])[0] if adapt is None or adapt else 'crtp'
        if plain:
            # classes which are only passed to the generator as additional classes (not adapted) can be used as base classes
            cls.serial = 'cli' if r.random() < 0.5 else None
        if where == 'nested' and cls.serial == 'listed':
            cls.serial = 'crtp'
        # base classes
        base_cls = [c for c in self.classes if any(c.full == x.cpp for x in bases)]
        if not nested_in and not plain and r.random() < 0.4:
            candidates = list(self.classes)
            r.shuffle(candidates)
            for c in candidates[:8]:
                own = {x.full for y in base_cls for x in [y] + y.ancestors()}
                if len(base_cls) < 4 and r.random() < 0.4 and not own & {x.full for x in [c] + c.ancestors()}:
                    base_cls.append(c)
        if plain and self.classes and r.random() < 0.5:
            base_cls = [r.choice(self.classes)]
        base_cls = [c for c in base_cls if not c.no_default]
        move_only = any('unique' in k for k in selfref) or not all(m.copyable for m in members) or not all(c.copyable for c in base_cls)
        if move_only:
            base_cls = [c for c in base_cls if c.full not in self.throwing]
        if r.random() < 0.9:
            base_cls.sort(key=lambda c: c.index)
        cls.bases = base_cls
        cls.names = set().union(*[c.names for c in base_cls]) if base_cls else set()
        # nested class
        body = []  # (access, text); access is None if it does not matter
        inner_ty = None
        if not nested_in and not plain and r.random() < 0.15 and cls.serial:
            inner_ty = self.struct([self.ty(1) for _ in range(r.randrange(1, 4))], nested_in=full)
            body.append(('public', self.nested_text))
            if inner_ty.usable:
                members = list(members) + [inner_ty, r.choice([Ty(f'std::vector<{inner_ty}>', copyable=inner_ty.copyable), Ty(f'std::map<std::string, {inner_ty}>', copyable=inner_ty.copyable), Ty(f'std::shared_ptr<{inner_ty}>')])]
        members = self.settle(members, move_only)
        if any(self.throws(m.cpp) for m in members) or any(c.full in self.throwing for c in base_cls):
            self.throwing.add(full)
        # how the class can be constructed
        ctor = 'user' if nested_in else r.choices(['implicit', 'user', 'default-arg', 'none', 'deleted'], [70, 8, 5, 6 if not plain else 0, 4 if not plain else 0])[0]
        if (selfref or self.core) and ctor in ('none', 'deleted'):
            ctor = 'implicit'
        cls.no_default = ctor in ('none', 'deleted')
        pure = [m for c in base_cls for m in c.pure]
        cls.abstract = not (self.core or selfref or nested_in or cls.no_default) and usable is True and r.random() < 0.12
        if cls.abstract:
            cls.pure = pure + [f'abstractMethod{self.order}']
        methods = [f'virtual void {cls.pure[-1]}() = 0;'] if cls.abstract else [f'void {m}() override {{}}' for m in pure]
        if r.random() < 0.05:
            methods.append(f'virtual int virtualMethod{self.order}() const {{ return 5; }}')
        private_ok = r.random() < 0.3 and cls.serial  # whether helper functions are befriended
        push_only = pull_only = False
        if private_ok and self.json and not self.bin and not self.core and r.random() < 0.2:
            push_only = r.random() < 0.6
            pull_only = not push_only
        key = r.choice(['struct', 'struct', 'class'])
        fields, ctor_init = [], []
        as_of = until = 0
        member_list = [(t, i in const, None) for i, t in enumerate(members)] + [(Ty(k % full), False, 'self') for k in selfref]
        if not plain and not selfref and not self.core and r.random() < 0.2 and usable is True and not nested_in:
            member_list.insert(r.randrange(len(member_list) + 1), (self.leaf(), True, None))
        own_version = 0
        if versions and cls.serial == 'crtp' and r.random() < 0.7:
            own_version = r.choice([1, 2, 3, 4, 5, 7, 200, 70000])
        access = 'public' if key == 'struct' or r.random() < 0.8 else 'private'
        last = None
        for i, (t, is_const, special) in enumerate(member_list):
            if r.random() < 0.2 or (is_const and not t.init):
                access = r.choice(['public', 'public', 'protected', 'private'])
            if versions and not (special or plain) and r.random() < 0.45:
                v = r.choice([1, 2, 3, 4, 5, own_version or 3, max(1, own_version - 1), own_version + 1])
                which = r.choice(['as_of_version', 'until_version'])
                long_ = {'as_of_version': 'REFLECTIVE_RAPIDJSON_AS_OF_VERSION', 'until_version': 'REFLECTIVE_RAPIDJSON_UNTIL_VERSION'}[which]
                expr = r.choice([str(v), str(v), f'{v}u', f'{v - 1} + 1', f'(({v}))', f'constantOne * {v}'])
                body.append(('marker', f'{which if r.random() < 0.6 else long_}({expr}):'))
                access = 'public'
                if which == 'as_of_version':
                    as_of = v
                    until = 0 if as_of > until else until
                else:
                    until = v
                    as_of = 0 if until < as_of else as_of
                last = None
            mname = r.choice(NAMES) % (num * 100 + i)
            plain_name = r.choice(PLAIN)
            if r.random() < 0.15 and plain_name not in cls.names and plain_name not in {f[0] for f in fields} and where not in ('global', 'lib'):
                mname = plain_name
            for _ in range(1 if r.random() < 0.2 else 0):
                body.append((None if r.random() < 0.5 else access, self.member_noise(num * 1000 + i * 10, access)))
                last = None
            init = self.init_of(t) if not special else None
            cpp = t.cpp
            if is_const and r.random() < 0.3:
                body.append((access, f'using Const{num}_{i} = const {cpp};'))
                cpp = f'Const{num}_{i}'
                last = None
            elif is_const:
                cpp = r.choice([f'const {cpp}', f'{cpp} const'])
            if is_const and init is None:
                init = ''
            if ctor in ('user', 'none', 'default-arg') and (nested_in or r.random() < 0.5) and init is not None:
                ctor_init.append(f'{mname}({init})' if not init.startswith('{') else f'{mname}{init}')
                init = ''
                itext = ''
            else:
                itext = '' if init is None else ('{}' if init == '' else r.choice([f' = {init}', f'{{ {init} }}' if not init.startswith('{') else init]))
            if nested_in and itext:
                ctor_init.append(f'{mname}()')
                itext = ''
            attr = r.choice(['', '', '', '', '[[maybe_unused]] ', 'mutable ' if not is_const else '', 'alignas(16) ' if t.leaf else ''])
            text = f'{attr}{cpp} {mname}{itext};'
            if last and last[0] == cpp and last[1] == access and not attr and r.random() < 0.8:
                body[-1] = (access, body[-1][1][:-1] + f', {mname}{itext};')
            else:
                body.append((access, text))
            last = (cpp, access) if not attr and not cpp.endswith('*') else None
            reflected = cls.serial and (access == 'public' or private_ok)
            fields.append((mname, is_const, cls.serial and (access == 'public' or (private_ok and not pull_only)), cls.serial and (access == 'public' or (private_ok and not push_only)), as_of, until))
            if is_const:
                cls.has_const = True
            if not reflected and not special:
                pass
        cls.names |= {f[0] for f in fields}
        cls.has_const = cls.has_const or any(c.has_const for c in base_cls)
        cls.asym = push_only or pull_only
        # friend declarations, constructors
        extra, late = [], [] # the latter refer to nested classes
        if private_ok:
            if self.json:
                if push_only:
                    extra.append((None, f'REFLECTIVE_RAPIDJSON_PUSH_PRIVATE_MEMBERS({name_part});'))
                elif pull_only:
                    extra.append((None, f'REFLECTIVE_RAPIDJSON_PULL_PRIVATE_MEMBERS({name_part});'))
                else:
                    extra.append((None, f'REFLECTIVE_RAPIDJSON_ENABLE_PRIVATE_MEMBERS({name_part});'))
            if self.bin:
                extra.append((None, f'friend void ::ReflectiveRapidJSON::BinaryReflector::writeCustomType<{name_part}>(::ReflectiveRapidJSON::BinaryReflector::BinarySerializer &, const {name_part} &, ::ReflectiveRapidJSON::BinaryVersion);'))
                extra.append((None, f'friend auto ::ReflectiveRapidJSON::BinaryReflector::readCustomType<{name_part}>(::ReflectiveRapidJSON::BinaryReflector::BinaryDeserializer &, {name_part} &, ::ReflectiveRapidJSON::BinaryVersion) -> ::ReflectiveRapidJSON::BinaryVersion;'
                              if False else f'friend ::ReflectiveRapidJSON::BinaryVersion (::ReflectiveRapidJSON::BinaryReflector::readCustomType<{name_part}>)(::ReflectiveRapidJSON::BinaryReflector::BinaryDeserializer &, {name_part} &, ::ReflectiveRapidJSON::BinaryVersion);'))
        else:
            # befriending helper functions for other classes (e.g. to allow using private nested classes) has no effect on this class
            others = [f'::{c.full}' for c in self.classes if c.serial][-4:] + ([inner_ty.cpp] * 3 if inner_ty and inner_ty.cpp else [])
            if others and self.json and r.random() < 0.15:
                other = r.choice(others)
                late.append((None, r.choice(['REFLECTIVE_RAPIDJSON_ENABLE_PRIVATE_MEMBERS(%s);', 'REFLECTIVE_RAPIDJSON_PUSH_PRIVATE_MEMBERS(%s);', 'REFLECTIVE_RAPIDJSON_PULL_PRIVATE_MEMBERS(%s);']) % other))
            if others and self.bin and r.random() < 0.15:
                other = r.choice(others)
                late.append((None, f'friend void ::ReflectiveRapidJSON::BinaryReflector::writeCustomType<{other}>(::ReflectiveRapidJSON::BinaryReflector::BinarySerializer &, const {other} &, ::ReflectiveRapidJSON::BinaryVersion);'))
                late.append((None, f'friend ::ReflectiveRapidJSON::BinaryVersion (::ReflectiveRapidJSON::BinaryReflector::readCustomType<{other}>)(::ReflectiveRapidJSON::BinaryReflector::BinaryDeserializer &, {other} &, ::ReflectiveRapidJSON::BinaryVersion);'))
        extra.append((None, 'template <class> friend struct ::ops::StructInfo;'))
        if r.random() < 0.2:
            extra.append((None, r.choice(['friend class SomeOtherClass;', 'friend void someFunction(int);', 'template <class T> friend void someTemplate(T);'])))
        extra += [(r.choice(['public', 'protected']), m) for m in methods]
        colon = ' : ' + ', '.join(ctor_init) if ctor_init else ''
        if ctor == 'user':
            extra.append(('public', f'{name_part}(){colon} {{}}'))
        elif ctor == 'default-arg':
            extra.append(('public', f'{name_part}(int unused = 3){colon} {{ (void)unused; }}'))
        elif ctor == 'none':
            extra.append(('public', f'explicit {name_part}(int unused){colon} {{ (void)unused; }}'))
        elif ctor == 'deleted':
            extra.append(('public', f'{name_part}() = delete; explicit {name_part}(int) {{}}'))
        for e in extra:
            limit = len(body)
            body.insert(r.randrange(limit + 1), e)
        body += late
        # the text of the class
        lines, current = [], 'private' if key == 'class' else 'public'
        for acc, text in body:
            if acc == 'marker':
                current = 'public'
                lines.append(text)
                continue
            if acc and acc != current:
                lines.append(f'{acc}:')
                current = acc
            lines.append('    ' + text)
        final = ''
        parents = [f'{r.choice(["public ", "public "])}::{c.full}' for c in base_cls]
        crtp = []
        if cls.serial == 'crtp':
            if self.json:
                crtp.append(f'public rr::JsonSerializable<{name_part}>')
            if self.bin:
                crtp.append(f'public rr::BinarySerializable<{name_part}{", %d" % own_version if own_version else ""}>')
        for p in crtp:
            parents.insert(r.randrange(len(parents) + 1), p)
        if key == 'struct':
            parents = [p[7:] if p.startswith('public ') and r.random() < 0.3 else p for p in parents]
        text = f'{key} {r.choice(["", "", "", "alignas(32) "])}{name_part}{final}{" : " + ", ".join(parents) if parents else ""} {{\n' + '\n'.join(lines) + '\n};'
        forward = f'{key} {name_part};\n' * r.randrange(0, 3)
        if nested_in:
            self.nested_text = text.replace('\n', '\n    ')
        else:
            open_, close = {'ns': (f'namespace {self.ns} {{', '}'), 'inner': (f'namespace {self.ns} {{ namespace inner::deep {{', '} }'), 'global': ('', ''), 'lib': ('namespace ReflectiveRapidJSON {', '}')}[where]
            if cls.serial == 'listed':
                self.third.append(f'{open_}\n{key} {name_part};\n{close}\n{self.adaption(full)}')
                for f in ('json', 'bin'):
                    if getattr(self, f):
                        self.cli[f].append(full)
            self.piece(f'{open_}\n{forward}{text}\n{close}')
            if cls.serial == 'cli':
                for f in ('json', 'bin'):
                    if getattr(self, f):
                        self.cli[f].append(full)
            # keep those base classes and the classes deriving from them in the same file
            cls.piece = len(self.pieces)
            self.together += [(c.piece, cls.piece) for c in cls.ancestors() if c.serial == 'cli']
        if cls.serial == 'adapt':
            if nested_in:
                self.after_outer = getattr(self, 'after_outer', []) + [self.adaption(full)]
            else:
                self.piece(self.adaption(full))
        if not nested_in and getattr(self, 'after_outer', None):
            for x in self.after_outer:
                self.piece(x)
            self.after_outer = []
        if r.random() < 0.25 and not nested_in:
            self.piece(f'namespace {self.ns} {{\n{self.noise()}\n}}')
        # description of the class
        relevant = cls.relevant() if cls.serial else []
        info = [f'template <> struct StructInfo<::{full}> {{ static constexpr bool is = {b(cls.serial)}; static constexpr bool crtp = {b(cls.serial == "crtp")}; static constexpr bool hasConst = {b(cls.has_const)}; static constexpr bool serOnly = false; '
                f'static constexpr bool json = {b(self.json)}; static constexpr bool pull = {b(not cls.no_default)}; static constexpr bool bin = {b(self.bin)}; static constexpr std::uint64_t ownVersion = {own_version}; static constexpr const char *name = "{full}";']
        if not cls.abstract:
            info.append(f'    static ::{full} make() {{ return ::{full}({"1" if cls.no_default else ""}); }}')
        info.append('    template <class F> static void eachBase(F &&f) {\n        (void)f;')
        info += [f'        f(static_cast<::{c.full} *>(nullptr));' for c in relevant] + ['    }']
        info.append('    template <class F> static void each(F &&f) {\n        (void)f;')
        info += [f'        StructInfo<::{c.full}>::each(f);' for c in relevant]
        info += [f'        f("{full}", "{f[0]}", &::{full}::{f[0]});' for f in fields if f[2]] + ['    }']
        info.append('    template <class F> static void eachPull(F &&f) {\n        (void)f;')
        info += [f'        StructInfo<::{c.full}>::eachPull(f);' for c in relevant]
        info += [f'        f("{full}", "{f[0]}", &::{full}::{f[0]});' for f in fields if f[3]] + ['    }']
        info.append('    template <class F> static void eachOwn(F &&f) {\n        (void)f;')
        info += [f'        f("{f[0]}", &::{full}::{f[0]}, {f[4]}u, {f[5]}u);' for f in fields if f[2]] + ['    }']
        info.append('    /// members which are not covered by (de)serialization\n    template <class F> static void others(F &&f) {\n        (void)f;')
        info += [f'        StructInfo<::{c.full}>::others(f);' for c in base_cls]
        info += [f'        f("{full}", "{f[0]}", &::{full}::{f[0]});' for f in fields if not f[2]]
        covered = {x.full for c in relevant for x in [c] + c.ancestors()}
        if not cls.serial:
            pass
        info.append('    }\n};')
        self.infos.append('\n'.join(info))
        t = Ty(f'::{full}', cls=full, copyable=False)
        t.usable = bool(cls.serial and cls.serial != 'cli' and usable and not selfref and not cls.no_default and not cls.abstract and not cls.has_const and not cls.asym)
        t.copyable = all(m.copyable for m in members) and not cls.has_const and all(getattr(c, 'copyable', False) for c in base_cls) and not any('unique' in k for k in selfref)
        cls.copyable = t.copyable
        if t.usable and not nested_in:
            self.structs.append(t)
        if not nested_in:
            self.classes.append(cls)
        if cls.serial and cls.serial != 'cli' and not cls.abstract:
            self.regs.append(f'registerStruct<::{full}>("{full}");')
        return t

    def member_noise(self, n, access):
        r = self.rng
        return r.choice([
            f'static constexpr const char *staticMember{n} = "static members are ignored";',
            f'static inline int anotherStatic{n} = 5;',
            f'static int declaredStatic{n};',
            f'void method{n}() {{}}',
            f'int constMethod{n}() const {{ return 5; }}',
            f'enum Nested{n} {{ nestedA{n}, nestedB{n} }};',
            f'using NestedAlias{n} = std::vector<int>;',
            f'struct NestedUnrelated{n} {{ int a; }};',
            f'template <class T> void methodTemplate{n}(T) {{}}',
            f'static void staticMethod{n}() {{}}',
            f'static_assert(true, "");',
            f'// int commentedMember{n};',
            f'union NestedUnion{n} {{ int a; float b; }};',
            f'template <class T> struct NestedTemplate{n} {{ T t; }};',
            f'inline static const std::string staticString{n} = "x";',
            f'bool operator==(const int &) const {{ return false; }}' if False else f'void operator()(int a{n}) {{ (void)a{n}; }}' if False else f'typedef int Typedef{n};',
        ])

    def adaption(self, full):
        m = []
        if self.json:
            m.append(f'REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(::{full});')
        if self.bin:
            m.append(f'REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(::{full});')
        return 'namespace ReflectiveRapidJSON { ' + ' '.join(m) + ' }'

    def piece(self, text):
        self.flush()
        self.pieces.append(text)

    def flush(self):
        """Moves declarations made by the base class."""
        if self.decls:
            self.pieces.append(f'namespace {self.ns} {{\n' + '\n'.join(self.decls) + '\n}')
            self.decls = []

    def random_struct(self):
        r = self.rng
        plain = r.random() < 0.15
        members = [self.leaf() if plain else self.ty(r.choice([0, 1, 1, 2, 2, 3])) for _ in range(r.randrange(0 if not self.bin else 1, 8))]
        selfref = [r.choice(['std::vector<%s>', 'std::unique_ptr<%s>', 'std::shared_ptr<%s>', 'std::list<%s>'])] if r.random() < 0.1 and not plain else []
        self.struct(members, selfref=selfref, plain=plain)

    def write(self, directory, generate):
        self.flush()
        p = f'{self.ns}'
        incs = ''.join(f'#include <{x}>\n' for x in ('cstdint', 'deque', 'list', 'map', 'memory', 'optional', 'set', 'string', 'tuple', 'unordered_map', 'unordered_set', 'utility', 'variant', 'vector'))
        lib = '#define REFLECTIVE_RAPIDJSON_SHORT_MACROS\n'
        if self.json:
            lib += '#include <reflective_rapidjson/json/serializable.h>\n'
        if self.bin:
            lib += '#include <reflective_rapidjson/binary/serializable.h>\n'
        lib += '#include <reflective_rapidjson/versioning.h>\n'
        third = '#pragma once\n' + incs + lib + 'namespace rr = ReflectiveRapidJSON;\nnamespace ops { template <class> struct StructInfo; }\nclass SomeOtherClass;\ntemplate <class T> void someTemplate(T);\nnamespace { constexpr int constantOne = 1; }\n' + '\n'.join(self.third) + '\n'
        third += f'namespace {self.ns} {{\nstruct OnlyIncluded' + (' : public rr::JsonSerializable<OnlyIncluded>' if self.json else ' : public rr::BinarySerializable<OnlyIncluded>') + ' { int a; };\n}\n'
        cut = self.rng.choice([i for i in range(len(self.pieces) + 1) if not any(x <= i < y for x, y in self.together)])
        a = '#pragma once\n#include "%s_third.h"\n' % p + '\n'.join(self.pieces[:cut]) + '\n'
        bb = '#pragma once\n#include "%s_a.h"\n' % p + '\n'.join(self.pieces[cut:]) + '\n'
        for n, text in (('third', third), ('a', a), ('b', bb)):
            with open(os.path.join(directory, f'{p}_{n}.h'), 'w') as f:
                f.write(text)
        infos = [x for x in self.infos]
        test = f'#include "{p}_b.h"\n#include "{p}_a.gen.h"\n#include "{p}_b.gen.h"\n#include "prop.h"\nnamespace ops {{\n' + '\n'.join(infos) + '\n}\nnamespace { struct Init { Init() {\n' + '\n'.join('    ' + x for x in self.regs) + '\n} } init; }\n'
        with open(os.path.join(directory, f'{p}_test.cpp'), 'w') as f:
            f.write(test)
        args = []
        args += ['--generators'] + (['json'] if self.json else []) + (['binary'] if self.bin else [])
        for f, o in (('json', '--json-classes'), ('bin', '--binary-classes')):
            if self.cli[f]:
                args += [o] + self.cli[f]
        return args


def make(mode, seed, index, count, nrandom, versions, directory):
    p = Program(mode, seed, index, count, versions)
    for _ in range(nrandom):
        p.random_struct()
    return p.ns, p.write(directory, True)


if __name__ == '__main__':
    mode, seed, index, count, nrandom, versions = sys.argv[1], *map(int, sys.argv[2:7])
    print(*make(mode, seed, index, count, nrandom, versions, sys.argv[7]))
