"""C15: header files mixing relevant and irrelevant declarations; the set of classes the generator emits code for is compared with
the one following from the structure the header has been made from."""
import json, os, random, re, subprocess
from extpbt import Fail, Invalid

NAMES = ['Foo', 'Bar', 'FooBar', 'Foo2', 'Item', 'Json', 'Serializable', 'Value', 'push', 'Config', 'Node', 'ListOf', 'X', 'Data_', '_Impl', 'Adapted']
SPACES = ['app', 'core', 'detail', 'JsonReflector', 'foo', 'std2', 'model']
RR = '::ReflectiveRapidJSON::'


def make(seed, i):
    r = random.Random(f'c15-{seed}-{i}')
    case = {'inc': [], 'main': [], 'late_include': r.random() < .3, 'angle': r.random() < .5, 'json': [], 'binary': [], 'order': r.randrange(2), 'visibility': r.choice([[], [], ['json'], ['binary'], ['json', 'binary']]), 'noise': True, 'using': r.random() < .15}
    st = {'n': 0, 'classes': [], 'scope_names': {}}

    def noise(scope):
        st['n'] += 1
        return {'k': 'noise', 't': r.randrange(64), 'u': st['n'], 'scope': scope}

    def klass(qual, file, depth=0):
        st['n'] += 1
        used = st['scope_names'].setdefault(qual, set())
        free = [n for n in NAMES if n not in used and n not in qual.split('::')]
        name = r.choice(free) if free and r.random() < .6 else f'{r.choice(NAMES)}{st["n"]}'
        used.add(name)
        q = f'{qual}::{name}' if qual else name
        kind = r.choice(['plain', 'plain', 'json', 'binary', 'both', 'both', 'adapt', 'derived', 'look', 'mixin'])
        c = {'k': 'class', 'name': name, 'q': q, 'kw': r.randrange(2), 'final': False, 'json': kind in ('json', 'both'), 'binary': kind in ('binary', 'both'),
             'alias': r.random() < .15 and not depth, 'version': r.choice([0, 0, 1, 3]), 'look': kind == 'look', 'mixin': kind == 'mixin', 'bases': [], 'swap': r.random() < .3, 'fwd': r.randrange(3) if not depth else 0,
             'ctor': r.choice([0, 0, 0, 1, 2]), 'members': r.randrange(4), 'virtual': r.random() < .1, 'noise': [noise('class') for _ in range(r.choice([0, 0, 1, 2]))], 'nested': [], 'ool': False, 'macro': r.randrange(1, 7) if r.random() < .2 else 0}
        candidates = [x for x in st['classes'] if not x['final'] and not x['mixin'] and x['ctor'] != 2 and x['file_ok']]
        if kind == 'derived' or r.random() < .15:
            if candidates:
                c['bases'].append(r.choice(candidates)['q'])
        if depth < 2 and r.random() < .2:
            c['nested'] = [klass(q, file, depth + 1) for _ in range(r.randrange(1, 3))]
        c['final'] = r.random() < .1
        st['classes'].append(dict(c, file=file, file_ok=True))
        c['adaptable'] = kind == 'adapt'
        return c

    def block(qual, file, depth, n):
        items = []
        for _ in range(n):
            x = r.random()
            if x < .42:
                items.append(klass(qual, file))
            elif x < .58 and depth < 3:
                name = r.choice([s for s in SPACES if s not in qual.split('::') and (qual or s != 'JsonReflector' or not case['using'])])
                items.append({'k': 'ns', 'name': name, 'items': block(f'{qual}::{name}' if qual else name, file, depth + 1, r.randrange(1, 5))})
            elif x < .62:
                items.append({'k': 'extern', 'items': block(qual, file, depth + 1, r.randrange(0, 2))})
            elif x < .66:
                st['n'] += 1
                items.append({'k': 'fwd', 'name': f'OnlyDeclared{st["n"]}', 'q': f'{qual}::OnlyDeclared{st["n"]}' if qual else f'OnlyDeclared{st["n"]}'})
            else:
                items.append(noise('ns'))
        return items

    if r.random() < .7:
        case['inc'] = block('', 'inc', 0, r.randrange(1, 8))
    case['main'] = block('', 'main', 0, r.randrange(1, 14))
    # adapt classes
    everything = [(c, f) for f in ('inc', 'main') for c in classes(case[f])]
    for c, f in everything:
        if not (c['adaptable'] or r.random() < .1):
            continue
        for fmt in ('json', 'binary'):
            if r.random() < .6:
                # in the file defining it or in the including/included one (which only needs a declaration of it)
                where = r.choice(['inc', 'main'])
                if '::' in c['q'] and is_nested(case, c['q']) and where != f and f == 'main':
                    where = f
                case[where].append({'k': 'adapt', 'fmt': fmt, 'q': c['q'], 'kw': c['kw'], 'declare': where == 'inc' and f == 'main'})
    # specify classes
    declared = [x['q'] for x in declarations(case['main'])]
    for fmt in ('json', 'binary'):
        if r.random() < .6:
            for _ in range(r.randrange(1, 5)):
                x = r.random()
                mine = [c['q'] for c, f in everything if f == 'main']
                if x < .7 and mine:
                    case[fmt].append(r.choice(mine))
                elif x < .8 and declared:
                    case[fmt].append(r.choice(declared))
                elif mine:
                    q = r.choice(mine)
                    other = r.choice([q + 'x', q[:-1], q.split('::')[-1], 'foo::' + q, q.split('::')[0], 'DoesNotExist', q.lower()])
                    if other and other not in [c['q'] for c, _ in everything]:
                        case[fmt].append(other)
    return case


def classes(items):
    for x in items:
        if x['k'] == 'class':
            yield x
            yield from classes(x['nested'])
        elif x['k'] in ('ns', 'extern'):
            yield from classes(x['items'])


def declarations(items):
    for x in items:
        if x['k'] == 'fwd':
            yield x
        elif x['k'] in ('ns', 'extern'):
            yield from declarations(x['items'])


def is_nested(case, q):
    return any(n['q'] == q for f in ('inc', 'main') for c in classes(case[f]) for n in c['nested'])


def noise_text(x):
    u, t = x['u'], x['t']
    J, B = f'{RR}JsonSerializable', f'{RR}BinarySerializable'
    common = [
        f'// struct Commented{u} : public {J}<Commented{u}> {{ int a; }};', f'/* class Commented{u} : public {J}<Commented{u}>\n * {{\n * }}; */', f'/// \\brief Documented "{u}" {{', '',
        f'enum class Enum{u} : unsigned char {{ A, B }};', f'enum {{ Unnamed{u} }};', f'using Alias{u} = int;', f'typedef unsigned long Alias{u};', f'union Union{u} {{ int a; float b; }};',
        f'struct Unrelated{u} {{ int a = {u}; struct Nested {{ int b; }}; }};', f'#define MACRO_{u} struct X{u} : public {J}<X{u}> {{}};', f'#if 0\nstruct Disabled{u} : public {J}<Disabled{u}> {{ int a; }};\n#endif',
        f'static_assert(sizeof(int) >= 2, "struct Foo : {J}<Foo> {{}};");', f'#ifdef UNDEFINED_{u}\n#include "does-not-exist.h"\n#else\nclass Enabled{u} {{ int a; }};\n#endif', f'struct Declared{u};', f'template <typename T> struct DeclaredTemplate{u};' if False else f'class Declared{u};',
    ]
    if x['scope'] == 'class':
        special = [f'static int member{u};', f'void method{u}() const {{ }}', f'int method{u}(int a, int b = {u});', f'friend struct Friend{u};', f'template <typename T> struct Inner{u} {{ T t; }};', f'template <typename T> void method{u}(T) {{ }}', f'static constexpr int constant{u} = {u};',
                   f'struct Inner{u} : public {J}<int> {{ }} ;' if False else f'struct Inner{u} {{ }};']
    else:
        special = [
            f'inline int function{u}(int a) {{ return a + {u}; }}', f'inline int function{u}(int a) {{ struct Local {{ int x; }} l{{ a }}; return l.x; }}', f'inline auto lambda{u} = [](int a) {{ return a; }};',
            f'template <typename T> struct Tmpl{u} : public {J}<Tmpl{u}<T>>, public {B}<Tmpl{u}<T>> {{ T t; }};', f'template <typename T> struct Tmpl{u} : public {B}<Tmpl{u}<T>, 3> {{ T t; }};\ntemplate struct Tmpl{u}<int>;',
            f'template <typename T> struct Tmpl{u} : public {J}<Tmpl{u}<T>> {{ T t; struct Inner : public {J}<Inner> {{ T t; }}; }};\nusing Instance{u} = Tmpl{u}<int>;\nextern Tmpl{u}<long> instance{u};',
            f'template <typename T> struct Tmpl{u} {{ T t; }};\ntemplate <> struct Tmpl{u}<int> : public {J}<Tmpl{u}<int>> {{ int t; }};\ntemplate <typename T> struct Tmpl{u}<T *> : public {J}<Tmpl{u}<T *>> {{ T t; }};',
            f'template <typename T> struct Tmpl{u} : public {J}<int> {{ T t; }};', f'template <typename T> struct Tmpl{u} {{ struct Inner : public {B}<int> {{ }}; }};',
            f'namespace look{u} {{ template <typename T> struct JsonSerializable {{ }}; template <typename T, int v = 0> struct BinarySerializable {{ }};\nstruct Alike : public JsonSerializable<Alike>, public BinarySerializable<Alike> {{ int a; }}; }}',
            f'namespace look{u} {{ namespace ReflectiveRapidJSON {{ template <typename T> struct JsonSerializable {{ static constexpr const char *qualifiedName = "ReflectiveRapidJSON::JsonSerializable"; }};\ntemplate <typename T> struct AdaptedJsonSerializable; struct Alike : public JsonSerializable<Alike> {{ }}; template <> struct AdaptedJsonSerializable<Alike> {{ }}; }} }}',
            f'namespace {{ struct Anonymous{u} {{ int a; }}; }}', f'extern int variable{u};', f'static const char *const text{u} = R"(struct Foo : public {J}<Foo> {{ }};)";', f'extern "C" {{ struct CStruct{u} {{ int a; }}; void cfunction{u}(struct CStruct{u} *); }}',
            f'template <typename T, typename U = {J}<T>> T tfunction{u}(const T &t) {{ return t; }}', f'namespace alias{u} = ::std;', f'struct HasPointer{u} {{ {J}<HasPointer{u}> *p; }};', f'struct HasMember{u} {{ {J}<HasMember{u}> m; {B}<int, 4> b; }};', f'extern struct Elaborated{u} *elaborated{u};',
            f'struct Object{u} {{ int a; }} object{u}();' if False else f'struct Private{u} {{ private: {J}<int> j; }};', f'void declared{u}(const {J}<int> &);', f'namespace empty{u} {{ }}', f'struct [[deprecated]] Old{u} {{ int a; }};', ';' if False else f'[[maybe_unused]] static int unused{u} = {u};',
        ]
    both = common + special
    return both[t * 7919 % len(both)] if t < 8 else special[t % len(special)] if t % 2 else common[t // 2 % len(common)]


def render(case, noise):
    """Returns the contents of the main and of the included file."""
    J, B = f'{RR}JsonSerializable', f'{RR}BinarySerializable'

    # macros to be used in one file but defined in the other one
    macros = {'inc': [], 'main': []}

    def text(items, out, file):
        for x in items:
            if x['k'] == 'noise':
                if noise:
                    out.append(noise_text(x))
            elif x['k'] == 'ns':
                out.append(f'namespace {x["name"]} {{')
                text(x['items'], out, file)
                out.append('}')
            elif x['k'] == 'extern':
                out.append('extern "C++" {')
                text(x['items'], out, file)
                out.append('}')
            elif x['k'] == 'fwd':
                out.append(f'struct {x["name"]};')
            elif x['k'] == 'adapt':
                if x['declare']:
                    *spaces, name = x['q'].split('::')
                    out.append(''.join(f'namespace {s} {{ ' for s in spaces) + f'{("struct", "class")[x["kw"]]} {name};' + ' }' * len(spaces))
                out.append(f'REFLECTIVE_RAPIDJSON_MAKE_{x["fmt"].upper()}_SERIALIZABLE(::{x["q"]});' if False else f'REFLECTIVE_RAPIDJSON_MAKE_{x["fmt"].upper()}_SERIALIZABLE({x["q"]});')
            else:
                klass(x, out, file)

    def klass(c, out, file, in_macro=False):
        # the class might be (partially) the result of expanding a macro which is defined in this or in the other file; relevant is
        # where it is expanded
        macro = 0 if in_macro else c.get('macro', 0)
        if macro in (1, 2, 3):
            body = []
            plain_class(c, body, file, True)
            body = ' '.join(body).replace('\n', ' ')
            if macro == 1:
                out.append(f'PASTE_ALL({body})')
            else:
                define = f'#define DEFINE_{c["q"].replace("::", "_1")} {body}'
                (macros[file] if macro == 2 else out).append(define)
                out.append(f'DEFINE_{c["q"].replace("::", "_1")}')
        else:
            plain_class(c, out, file, in_macro, macro)

    def plain_class(c, out, file, in_macro, macro=0):
        kw = ('struct', 'class')[c['kw']]
        for _ in range(c['fwd']):
            out.append(f'{kw} {c["name"]};')
        json_base, binary_base = f'{J}<{c["name"]}>', f'{B}<{c["name"]}{", %d" % c["version"] if c["version"] else ""}>'
        if case['using'] and not c['q'].count('::'):
            json_base, binary_base = (x.replace(RR, '') for x in (json_base, binary_base))
        if c['alias']:
            if not c['fwd']:
                out.append(f'{kw} {c["name"]};')
            out.append(f'using {c["name"]}JsonBase = {json_base};\ntypedef {binary_base} {c["name"]}BinaryBase;')
            json_base, binary_base = f'{c["name"]}JsonBase', f'{c["name"]}BinaryBase'
        bases = [f'public ::{b}' for b in c['bases']]
        mine = []
        if c['json']:
            mine.append(f'public {"virtual " if c["virtual"] else ""}{json_base}')
        if c['binary']:
            mine.append(f'public {binary_base}')
        if c['look']:
            mine.append(f'public ::lookalike::JsonSerializable<{c["name"]}>, public ::lookalike::ReflectiveRapidJSON::BinarySerializable<{c["name"]}>')
        if c['mixin']:
            mine.append(f'public ::mixins::Mixin<{c["name"]}>')
        bases = mine + bases if c['swap'] else bases + mine
        if macro == 4:
            kw = ('STRUCT', 'CLASS')[c['kw']]
        elif macro == 5:
            kw += ' EMPTY_ATTRIBUTE'
        elif macro == 6 and bases:
            bases = [f'PASTE_ALL({", ".join(bases)})']
        out.append(f'{kw} {c["name"]}{" final" if c["final"] else ""}{" : " + ", ".join(bases) if bases else ""} {{\npublic:')
        if c['ctor'] == 1:
            out.append(f'{c["name"]}() = default;\n{c["name"]}(int, int) {{ }}')
        elif c['ctor'] == 2:
            out.append(f'{c["name"]}(int);')
        for n in c['nested']:
            klass(n, out, file, in_macro)
        for k in range(c['members']):
            out.append(f'{("int", "std::string", "std::vector<int>")[k]} member{k};')
            if noise and not in_macro:
                out.extend(noise_text(n) for n in c['noise'][k:k + 1])
        out.append('};')

    prelude = '#include <reflective_rapidjson/json/serializable.h>\n#include <reflective_rapidjson/binary/serializable.h>\n#include <string>\n#include <vector>\n'
    helper = ('#pragma once\n' + prelude + '#define PASTE_ALL(...) __VA_ARGS__\n#define STRUCT struct\n#define CLASS class\n#define EMPTY_ATTRIBUTE\n' + 'namespace lookalike {\ntemplate <typename T> struct JsonSerializable { };\nnamespace ReflectiveRapidJSON {\ntemplate <typename T> struct BinarySerializable { };\n}\n}\n'
              f'namespace mixins {{\ntemplate <typename T> struct Mixin : public {J}<T>, public {B}<T> {{ }};\n}}\n')
    if case['using']:
        helper += 'using namespace ReflectiveRapidJSON;\n'
    inc, main = [helper], []
    text(case['inc'], inc, 'inc')
    text(case['main'], main, 'main')
    inc += macros['main']
    include = '#include <included.h>' if case['angle'] else '#include "included.h"'
    if noise and case['late_include']:
        main = ['#pragma once', '// a comment before the includes', 'struct VeryFirst;', *macros['inc'], include, '\n\n'] + main + ['// the end']
    else:
        main = [*macros['inc'], include] + main
    return '\n'.join(main) + '\n', '\n'.join(inc) + '\n'


def expected(case, fmt):
    """Returns the qualified names of classes to emit code for, those for which it can be deserialized"""
    adapted = {x['q'] for x in case['main'] if x['k'] == 'adapt' and x['fmt'] == fmt}
    every, read = set(), set()
    for f in ('inc', 'main'):
        for c in classes(case[f]):
            if c['q'] in adapted or (f == 'main' and (c[fmt] or c['q'] in case[fmt])):
                every.add(c['q'])
                if c['ctor'] != 2 and not (c['look'] and False):
                    read.add(c['q'])
    return every, read


EMITTED = re.compile(r'template\s*<>\s*[^;{}()]*?\b(push|pull|writeCustomType|readCustomType)\s*<\s*(?:::\s*)?([\w:]+)\s*>\s*\(')


def tester(check):
    env = dict(os.environ, LC_ALL='C.UTF-8')

    def run(d, formats, case, header, visibility=()):
        args = ['--generators', *formats]
        for fmt in visibility:
            args += [f'--{fmt}-visibility', f'VISIBLE_{fmt}']
        for fmt in ('json', 'binary'):
            if case[fmt]:
                args += [f'--{fmt}-classes', *case[fmt]]
        cmd = [check.gen, '--input-file', os.path.join(d, header), *args, *check.clang_opts([d])]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=120, env=env, cwd=d)
        if p.returncode:
            q = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-w', '-x', 'c++', '-I' + d, '-I' + check.path('inc'), '-I/usr/include/martchus-c++utilities', os.path.join(d, header)], stderr=subprocess.PIPE, text=True)
            if q.returncode:
                raise Invalid(q.stderr[:2000])
            raise Fail(f'{" ".join(cmd)} exited with {p.returncode} for a valid header:\n{p.stderr[-1500:]}')
        return p.stdout

    def test(case, d):
        for sub, noise in (('plain', False), ('noise', True)):
            e = os.path.join(d, sub)
            os.makedirs(e)
            main, inc = render(case, noise)
            for name, t in (('header.h', main), ('included.h', inc)):
                with open(os.path.join(e, name), 'w') as f:
                    f.write(t)
        show = f'--json-classes {case["json"]} --binary-classes {case["binary"]}\n--- header.h\n{render(case, True)[0]}--- included.h\n{render(case, True)[1]}'
        alone = {}
        for fmt, write, read in (('json', 'push', 'pull'), ('binary', 'writeCustomType', 'readCustomType')):
            out = alone[fmt] = run(os.path.join(d, 'plain'), [fmt], case, 'header.h')
            found = EMITTED.findall(out)
            for function, which in ((write, 0), (read, 1)):
                names = [q for f, q in found if f == function]
                want = expected(case, fmt)[which]
                if sorted(names) != sorted(want):
                    raise Fail(f'{fmt}: {function}() emitted for {sorted(names)}\nexpected {sorted(want)}\nsurplus {sorted(set(names) - want)}, missing {sorted(want - set(names))}\n{show}')
        formats = ['json', 'binary'] if case['order'] else ['binary', 'json']
        both = run(os.path.join(d, 'noise'), formats, case, 'header.h', case.get('visibility', []))
        for fmt, functions in (('json', ('push', 'pull')), ('binary', ('writeCustomType', 'readCustomType'))):
            # the attribute is supposed to be added to each of the functions
            token = re.compile(rf'\bVISIBLE_{fmt}\b')
            count = len(token.findall(both))
            plain = [m.group(0) for m in EMITTED.finditer(both) if m.group(1) in functions]
            if fmt in case.get('visibility', []) and (count != len(plain) or not all(token.search(x) for x in plain)):
                raise Fail(f'--{fmt}-visibility: attribute present {count} times for {len(plain)} functions\n{show}')
            both = token.sub('', both)
        if any(case.get('visibility', [])):
            both = re.sub(r'[ \t]+', ' ', both)
            alone = {f: re.sub(r'[ \t]+', ' ', x) for f, x in alone.items()}
        if both != ''.join(alone[f] for f in formats):
            import difflib
            diff = '\n'.join(list(difflib.unified_diff(''.join(alone[f] for f in formats).splitlines(), both.splitlines(), 'formats alone, without unrelated declarations', 'together, with unrelated declarations', lineterm=''))[:60])
            raise Fail(f'output for {formats} differs:\n{diff}\n{show}')
        e = expected(case, 'json')[0] | expected(case, 'binary')[0]
        every = [c for f in ('inc', 'main') for c in classes(case[f])]
        labels = ['some class specified' if case['json'] or case['binary'] else 'no class specified']
        if any(c['q'] in e for c in classes(case['inc'])):
            labels.append('included class adapted')
        if any(x['k'] == 'adapt' for x in case['inc']):
            labels.append('adaption included')
        if any(c.get('macro') for c in every):
            labels.append('class from macro')
        if not e:
            labels.append('no relevant class')
        nontrivial = e and any(c['q'] not in e for c in every)
        return (show if nontrivial else None), labels, f'{len(every)} classes, code for {sorted(e)}'
    return test
