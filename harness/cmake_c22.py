"""C22: generated CMake projects invoking the code generator via the macro provided by the ReflectionGenerator module."""
import os, random, re, subprocess
from extpbt import Fail, Invalid
from select_c15 import EMITTED

FLAVOURS = ['', '=1', '=0', '=5', '=1+2', '=x', '="text"', '="a text"', "='c'", '=a b', '=(1)', '=$', '=<']
RESOURCE = '/usr/lib/llvm-18/lib/clang/18'


def make(seed, i):
    r = random.Random(f'c22-{seed}-{i}')
    value = [r.randrange(len(FLAVOURS)) for _ in range(8)]
    conflicts = r.random() < .25  # the same macros are defined differently by several targets

    def props(dep):
        return {'defs': [[k, r.choice([value[k], value[-1 - k]])] for k in r.sample(range(4), r.choice([1, 2, 3]))] if conflicts else [[k, value[k] if r.random() < .8 else r.randrange(len(FLAVOURS))] for k in r.sample(range(8), r.choice([0, 1, 1, 2, 4]))], 'includes': [r.randrange(4) for _ in range(r.choice([0, 0, 1, 2]))],
                'options': [r.randrange(5) for _ in range(r.choice([0, 0, 1, 2]))], 'empty': r.random() < .2, 'flags': 0 if dep else r.choice([0, 0, 0, 1, 2]), 'std': 0 if dep else r.choice([0, 17, 17, 20]),
                'links': [] if dep else [r.randrange(2) for _ in range(r.choice([0, 0, 1]))], 'late': r.random() < .3}
    names = list(range(8))
    r.shuffle(names)
    calls = []
    for c in range(r.choice([1, 1, 2, 3])):
        calls.append({'inputs': [{'name': names.pop(), 'ext': r.randrange(5), 'where': r.randrange(4), 'members': r.randrange(3), 'conditions': [[k, r.choice([value[k], value[k], r.randrange(len(FLAVOURS))])] for k in [r.randrange(8) for _ in range(r.randrange(1, 6))]], 'includes': [r.randrange(4) for _ in range(r.choice([0, 0, 1]))], 'listed': r.random() < .2}
                                 for _ in range(min(len(names), r.choice([1, 1, 2, 3])))],
                      'formats': r.choice([['json'], ['binary'], ['json', 'binary'], ['binary', 'json']]), 'out': r.choice([0, 0, 1, 2, 3]), 'targets': [r.randrange(3 if conflicts else 4) for _ in range(r.choice([2, 3, 3] if conflicts else [0, 1, 1, 1, 2]))], 'deps': [r.randrange(3) for _ in range(r.choice([0, 0, 1, 2]))],
                      'options': [r.randrange(5) for _ in range(r.choice([0, 0, 1, 2]))], 'lists': r.choice([1, 1, 2]), 'visibility': r.choice([0, 0, 0, 1]), 'resilient': r.random() < .2, 'subdir': r.random() < .25, 'order': r.randrange(1 << 20)})
    return {'targets': [props(False) for _ in range(3)], 'deps': [props(True) for _ in range(2)], 'calls': calls, 'detect': r.random() < .3, 'cross': r.random() < .2, 'global includes': [k for k in range(4) if r.random() < .15], 'change': r.randrange(4), 'broken': r.choice([0, 0, 0, 1, 2, 3]), 'make': r.random() < .2}


EXT = ['.h', '.cpp', '.hpp', '.foo.h', '.hxx']
OPTIONS = ['-DEXTRA_0', '-fshort-enums', '-funsigned-char', '-DEXTRA_1=2', '-Wall']
TRIPLE = 'x86_64-linux-android'
PLATFORM = ['/usr/include/c++/13', '/usr/include/x86_64-linux-gnu/c++/13', '/usr/include/x86_64-linux-gnu', '/usr/include']
FLAGS = ['', '-DFLAG_1', '-ffast-math', '-ffast-math -DFLAG_1']


def quote(s):
    """A quoted argument for CMake."""
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('$', '\\$') + '"'


def input_text(inp, c, changed, bad):
    n = f'In{inp["name"]}'
    out = ['#include <reflective_rapidjson/json/serializable.h>', '#include <reflective_rapidjson/binary/serializable.h>']
    names = []

    def klass(name):
        return f'struct {name} : public ReflectiveRapidJSON::JsonSerializable<{name}>, public ReflectiveRapidJSON::BinarySerializable<{name}> {{\n' + ''.join(f'    int member{m};\n' for m in range(inp['members'])) + '};'
    out.append(klass(n))
    for i, (k, flavour) in enumerate(inp['conditions']):
        out.append(f'#ifdef OPTION_{k}\n{klass(f"{n}With{i}_{k}")}\n#endif')
        # the value of the macro is part of the output
        out.append(f'#define TEXT_OF_1(x) #x\n#define TEXT_OF(x) TEXT_OF_1(x)\nconstexpr bool same{n}_{i}(const char *a, const char *b) {{ return *a == *b && (!*a || same{n}_{i}(a + 1, b + 1)); }}\ntemplate <bool, class T> struct Maybe{n}_{i} {{ using type = T; }};\ntemplate <class T> struct Maybe{n}_{i}<false, T> {{ struct type {{ }}; }};'
                   if i == 0 else '')
        out.append(f'struct {n}Value{i} : public Maybe{n}_0<same{n}_0(TEXT_OF(OPTION_{k}), {value_text(flavour)}), ReflectiveRapidJSON::JsonSerializable<{n}Value{i}>>::type {{ int a; }};')
    for k in range(2):
        out.append(f'#ifdef EXTRA_{k}\n{klass(f"{n}Extra{k}")}\n#endif')
    out.append(f'#ifdef FLAG_1\n{klass(n + "Flag")}\n#endif')
    out.append(f'#ifdef __CHAR_UNSIGNED__\n{klass(n + "Unsigned")}\n#endif\n#ifdef __FAST_MATH__\n{klass(n + "Fast")}\n#endif')
    out.append(f'#if __cplusplus > 201703L\n{klass(n + "New")}\n#elif __cplusplus > 201402L\n{klass(n + "Seventeen")}\n#endif')
    out.append(f'#ifdef __ANDROID__\n{klass(n + "Android")}\n#endif')
    for k in range(4):
        out.append(f'#if __has_include("included{k}.h")\n{klass(f"{n}Has{k}")}\n#endif')
    if inp['listed']:
        out.append(f'struct {n}Listed {{ int a; }};')
    if changed:
        out.append(klass(n + 'Added'))
    out += {0: [], 1: ['struct Broken { int a };;; int ('], 2: ['#include "does-not-exist.h"'], 3: ['inline int broken() { return undeclared_identifier; }']}[bad]
    return '\n'.join(x for x in out if x) + '\n'


def value_text(flavour):
    v = FLAVOURS[flavour]
    v = '1' if v == '' else v[1:]
    return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'


def tester(check):
    env = {k: v for k, v in os.environ.items() if not k.startswith('CMAKE')}
    env['LC_ALL'] = 'C.UTF-8'
    from __main__ import REPO

    def tool(cmd, cwd, timeout=200):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, cwd=cwd, timeout=timeout)

    def test(case, d):
        if len(case['targets']) < 2 or len(case['deps']) < 2 or not case['calls']:
            raise Invalid('targets missing')
        src, bld = os.path.join(d, 'source'), os.path.join(d, 'build')
        for x in ('source', 'source/sub', 'source/dir with space', 'build', 'elsewhere', *(f'inc{k}' for k in range(4))):
            os.makedirs(os.path.join(d, x))
        for k in range(4):
            open(os.path.join(d, f'inc{k}', f'included{k}.h'), 'w').close()
        open(os.path.join(src, 'dummy.cpp'), 'w').close()
        lib = [check.path('inc'), '/usr/include/martchus-c++utilities']
        cm = ['cmake_minimum_required(VERSION 3.17)', 'project(test LANGUAGES CXX)', f'list(APPEND CMAKE_MODULE_PATH {quote(os.path.join(REPO, "lib/cmake/modules"))})', 'include(ReflectionGenerator)']
        late, sub = [], []
        global_includes = [f'{d}/inc{k}' for k in case['global includes']] + (PLATFORM if case['cross'] else [])

        def include_dirs(p):
            return [f'{d}/inc{k}' for k in p['includes']]

        def setup(name, p, scope):
            cmds = []
            if p['defs']:
                cmds.append(f'target_compile_definitions({name} {scope} {" ".join(quote(f"OPTION_{k}{FLAVOURS[v]}") for k, v in p["defs"])})')
            incs = [quote(x) for x in include_dirs(p)] + (['"$<INSTALL_INTERFACE:include>"'] if p['empty'] else [])
            if incs:
                cmds.append(f'target_include_directories({name} {scope} {" ".join(incs)})')
            opts = [quote(OPTIONS[k]) for k in p['options']]
            if opts:
                cmds.append(f'target_compile_options({name} {scope} {" ".join(opts)})')
            if p['flags']:
                cmds.append(f'set_target_properties({name} PROPERTIES COMPILE_FLAGS {quote(FLAGS[p["flags"]])})')
            if p['std']:
                cmds.append(f'set_target_properties({name} PROPERTIES CXX_STANDARD {p["std"]})')
            for k in p['links']:
                cmds.append(f'target_link_libraries({name} PRIVATE d{k})')
            (late if p['late'] else cm).extend(cmds)
        for i, p in enumerate(case['deps'][:2]):
            cm.append(f'add_library(d{i} INTERFACE)')
            setup(f'd{i}', p, 'INTERFACE')
        for i, p in enumerate(case['targets']):
            cm.append(f'add_library(t{i} OBJECT EXCLUDE_FROM_ALL dummy.cpp)')
            setup(f't{i}', p, 'PRIVATE')

        # the options which are supposed to be passed: {what the macro may pass in any order within these groups}
        def dependency_options(p):
            return [OPTIONS[k] for k in p['options']], [f'-DOPTION_{k}{FLAVOURS[v]}' for k, v in p['defs']], [f'-I{x}' for x in include_dirs(p)]

        def unique(x):
            return list(dict.fromkeys(x))
        jobs, used, expected_lists = [], set(), []
        for n, c in enumerate(case['calls']):
            if not c['inputs'] or not c['lists'] or not c['formats']:
                raise Invalid('no inputs')
            here = 'sub' if c['subdir'] else ''
            base = os.path.join(src, here)
            opts = [OPTIONS[k] for k in c['options']] + [f'-I{x}' for x in lib] + ['-Wno-everything']
            call_options = list(opts)
            opts += ['-resource-dir', RESOURCE]
            if case['cross']:
                opts += ['-target', TRIPLE, '-Xclang', '-triple', '-Xclang', TRIPLE]
            for x in global_includes:
                opts += ['-I', x]
            for t in c['targets']:
                if t >= len(case['targets']):
                    continue
                p = case['targets'][t]
                parts = [dependency_options(p)] + [dependency_options(case['deps'][k]) for k in unique(p['links'])]
                if p['std']:
                    opts.append(f'-std=c++{p["std"]}')
                if p['flags']:
                    opts += FLAGS[p['flags']].split()
                # the order in which options of a target and of its dependencies are passed is not specified
                defined = {}
                for part in parts:
                    for o in part[1]:
                        if defined.setdefault(re.match(r'-D(\w+)', o).group(1), o) != o:
                            raise Invalid('macro defined differently')
                for which in range(3):
                    opts += unique(x for part in parts for x in part[which])
            for k in c['deps']:
                if k < 2:
                    for part in dependency_options(case['deps'][k]):
                        opts += unique(part)
            # only the last definition of a macro is effective
            last = {}
            for o in opts:
                m = re.match(r'-D(OPTION_\d+)', o)
                if m:
                    last[m.group(1)] = o
            overridden = len([o for o in opts if o.startswith('-DOPTION_') and o not in last.values()])
            opts = [o for o in opts if not o.startswith('-DOPTION_')] + list(last.values())
            args = [['INPUT_FILES']]
            listed = [f'In{i["name"]}Listed' for i in c['inputs'] if i['listed']]
            out = {0: os.path.join(bld, here, 'reflection'), 1: os.path.join(d, 'elsewhere'), 2: os.path.join(bld, here, 'custom/directory'), 3: os.path.join(d, 'not/existing yet')}[c['out']]
            outputs = []
            for inp in c['inputs']:
                if (inp['name']) in used:
                    raise Invalid('input used twice')
                used.add(inp['name'])
                rel = ('dir with space/' if inp['where'] == 3 and not here else '') + f'input-{inp["name"]}' + EXT[inp['ext']]
                path = os.path.join(base, rel)
                args[0].append(quote(path if inp['where'] in (1, 2) else rel))
                target = os.path.join(out, f'input-{inp["name"]}.h')
                outputs.append(target)
                cmd = [check.gen, '--input-file', path, '--generators', *c['formats'], '--clang-opt', *opts]
                if listed:
                    cmd += ['--json-classes', *listed]
                if c['visibility']:
                    cmd += ['--json-visibility', 'VISIBLE_JSON']
                if c['resilient']:
                    cmd.append('--error-resilient')
                jobs.append((path, inp, c, cmd, target))
                with open(path, 'w') as f:
                    f.write(input_text(inp, c, False, 0))
            args.append(['GENERATORS', *c['formats']])
            lists = [f'LIST_{n}_{k}' for k in range(c['lists'])]
            args.append(['OUTPUT_LISTS', *lists])
            args.append(['CLANG_OPTIONS', *map(quote, call_options)])
            if c['out']:
                args.append(['OUTPUT_DIRECTORY', 'custom/directory' if c['out'] == 2 else quote(out)])
            if c['targets']:
                args.append(['CLANG_OPTIONS_FROM_TARGETS', *(f't{t}' for t in c['targets'] if t < len(case['targets']))])
            if c['deps']:
                args.append(['CLANG_OPTIONS_FROM_DEPENDENCIES', *(f'd{k}' if k < 2 else 'does-not-exist' for k in c['deps'])])
            if listed:
                args.append(['JSON_CLASSES', *listed])
            if c['visibility']:
                args.append(['JSON_VISIBILITY', 'VISIBLE_JSON'])
            if c['resilient']:
                args.append(['ERROR_RESILIENT'])
            random.Random(c['order']).shuffle(args)
            text = 'add_reflection_generator_invocation(\n' + '\n'.join('    ' + ' '.join(a) for a in args if len(a) > 1 or a[0] == 'ERROR_RESILIENT') + ')'
            text = '\n'.join([f'set({x} before{i})' for i, x in enumerate(lists)] + [text] + [f'list(JOIN {x} "\\n" TEXT)\nfile(WRITE {quote(d + "/" + x + ".txt")} "${{TEXT}}")\nlist(REMOVE_ITEM {x} before{i})' for i, x in enumerate(lists)]
                             + [f'add_custom_target(generated{n} ALL DEPENDS ${{{lists[-1]}}})'])
            (sub if here else cm).append(text)
            expected_lists += [(x, [f'before{i}'] + outputs) for i, x in enumerate(lists)]
        cm.append('add_subdirectory(sub)')
        cm += late
        for name, lines in (('CMakeLists.txt', cm), ('sub/CMakeLists.txt', sub)):
            with open(os.path.join(src, name), 'w') as f:
                f.write('\n'.join(lines) + '\n')
        show = '\n--- CMakeLists.txt\n' + '\n'.join(cm) + ('\n--- sub/CMakeLists.txt\n' + '\n'.join(sub) if sub else '')

        # the reference
        def reference(changed):
            for path, inp, c, cmd, target in jobs:
                with open(path, 'w') as f:
                    f.write(input_text(inp, c, changed == inp['name'], 0))
            refs = {}
            for path, inp, c, cmd, target in jobs:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, timeout=120)
                if p.returncode:
                    raise Invalid(f'{cmd} failed:\n{p.stderr[-2000:]}\n{open(path).read()}')
                refs[target] = p.stdout
            return refs
        refs = reference(None)
        configure = ['cmake', '-G', 'Unix Makefiles' if case['make'] else 'Ninja', '-S', src, '-B', bld, f'-DREFLECTION_GENERATOR_EXECUTABLE={check.gen}', '-DCMAKE_CXX_COMPILER_WORKS=1', '-DCMAKE_CXX_COMPILER=/usr/bin/clang++']
        if case['cross']:
            configure.append(f'-DREFLECTION_GENERATOR_TRIPLE:STRING={TRIPLE}')
        if global_includes:
            configure.append(f'-DREFLECTION_GENERATOR_INCLUDE_DIRECTORIES:STRING={";".join(global_includes)}')
        if not case['detect']:
            configure.append(f'-DREFLECTION_GENERATOR_CLANG_RESOURCE_DIR={RESOURCE}')
        p = tool(configure, d)
        if p.returncode:
            raise Fail(f'configuring failed:\n{p.stdout[-2500:]}{show}')
        for x, want in expected_lists:
            got = open(os.path.join(d, f'{x}.txt')).read().split('\n')
            if got != want:
                raise Fail(f'list {x} contains {got}\nexpected {want}{show}')

        def build(what, refs):
            p = tool(['cmake', '--build', bld, '--', '-j2'] if case['make'] else ['cmake', '--build', bld], d)
            if p.returncode:
                raise Fail(f'building {what} failed:\n{p.stdout[-2500:]}{show}')
            for path, inp, c, cmd, target in jobs:
                if not os.path.exists(target):
                    raise Fail(f'{what}: {target} has not been generated\n{p.stdout[-1500:]}{show}')
                actual = open(target).read()
                if actual != refs[target]:
                    import difflib
                    diff = '\n'.join(list(difflib.unified_diff(refs[target].splitlines(), actual.splitlines(), 'generated directly', 'generated via CMake', lineterm=''))[:40])
                    raise Fail(f'{what}: {target} differs from what the following command generates\n{cmd}\n{diff}\n--- {path}\n{open(path).read()}{show}')
        for path, inp, c, cmd, target in jobs:
            os.utime(path)
        build('initially', refs)
        # change one of the input files
        labels = [f'{len(jobs)} input files'] + (['platform triple'] if case['cross'] else []) + (['global include directories'] if case['global includes'] else []) + (['resource directory detected'] if case['detect'] else []) + (['relative output directory'] if any(c['out'] == 2 for c in case['calls']) else []) + (['with error resilience'] if any(c['resilient'] for c in case['calls']) else [])
        stamp = max(os.stat(x[4]).st_mtime for x in jobs) + 2
        if case['change']:
            path, inp, c, cmd, target = jobs[case['change'] % len(jobs)]
            refs = reference(inp['name'])
            for x in jobs:
                os.utime(x[0], (stamp, stamp) if x[0] == path else (1600000000, 1600000000))
            build('after changing an input file', refs)
            labels.append('input changed')
        if case['broken']:
            path, inp, c, cmd, target = jobs[case['change'] % len(jobs)]
            with open(path, 'w') as f:
                f.write(input_text(inp, c, False, case['broken']))
            stamp = max([stamp] + [os.stat(x[4]).st_mtime for x in jobs]) + 2 # certainly newer than what has been generated
            os.utime(path, (stamp, stamp))
            p = tool(['cmake', '--build', bld], d)
            tolerated = case['broken'] == 3 and c['resilient']
            if (not p.returncode) != tolerated:
                raise Fail(f'building with {"tolerated error in" if tolerated else "broken"} {path} {"failed" if tolerated else "succeeded"}:\n{p.stdout[-2500:]}{show}')
            labels.append('broken input')
        names = sum(len(EMITTED.findall(x)) for x in refs.values())
        return (show + repr(case['broken']) if any(c['targets'] or c['deps'] for c in case['calls']) else None), labels, f'{len(jobs)} inputs, {len(case["calls"])} calls, {names} functions generated'
    return test


def several_flags(check):
    """The finding several-compile-flags: returns a description if present."""
    none = {'defs': [], 'includes': [], 'options': [], 'empty': False, 'flags': 0, 'std': 0, 'links': [], 'late': False}
    inp = {'name': 0, 'ext': 0, 'where': 0, 'members': 1, 'conditions': [[0, 0]], 'includes': [], 'listed': False}
    call = {'inputs': [inp], 'formats': ['json'], 'out': 0, 'targets': [0], 'deps': [], 'options': [], 'lists': 1, 'visibility': 0, 'resilient': False, 'subdir': False, 'order': 0}
    case = {'targets': [{**none, 'flags': 3}, none], 'deps': [none, none], 'calls': [call], 'detect': False, 'cross': False, 'global includes': [], 'change': 0, 'broken': 0, 'make': False}
    d = check.path('several-flags')
    os.makedirs(d)
    try:
        tester(check)(case, d)
    except Fail as e:
        return str(e)
