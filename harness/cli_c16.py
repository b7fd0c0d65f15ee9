"""C16: invocations of the generator with all kinds of input, options and outputs, some of which are failing."""
import os, random, resource, signal, subprocess, sys
from extpbt import Fail, Invalid
from select_c15 import EMITTED

INPUTS = ['ok'] * 12 + ['missing', 'directory', 'empty', 'syntax', 'semantic', 'include', 'resilient-semantic', 'resilient-semantic', 'resilient-semantic', 'resilient-semantic', 'resilient-syntax', 'resilient-include', 'resilient-mixed', 'resilient-mixed-reversed', 'resilient-hash-error', 'resilient-ok', 'hash-error', 'unterminated', 'static-assert', 'missing-option', 'bad-option', 'no-input', 'unknown-argument', 'redefinition']
OUTPUTS = ['file'] * 4 + ['existing'] * 3 + ['stdout'] * 3 + ['symlink', 'missing-directory', 'is-directory', 'full', 'full-stdout', 'closed-stdout', 'broken-pipe', 'limit', 'limit', 'limit', 'limit-stdout', 'limit-stdout', 'file-as-directory', 'empty-name', 'name-too-long', 'symlink-loop']


def make(seed, i):
    r = random.Random(f'c16-{seed}-{i}')
    formats = r.choice([['json'], ['binary'], ['json', 'binary'], ['binary', 'json']])
    if r.random() < .12:
        formats.insert(r.randrange(len(formats) + 1), r.choice(['yaml', 'JSON', 'jso', 'json,binary', 'Binary', 'jsonbinary', 'binary ', '-']))
        formats = [f for f in formats if f != '-'] or ['xml']
    output = r.choice(OUTPUTS)
    faulty = output not in ('file', 'existing', 'stdout', 'symlink')
    inp = r.choice(INPUTS) if not faulty else 'ok'
    return {'classes': r.choice([1, 1, 1, 2, 2, 3, 3, 5, 5, 40, 40, 150]), 'members': r.randrange(8), 'formats': formats, 'input': inp, 'output': output, 'permille': r.randrange(1000), 'previous': r.choice([0, 1, 100, 5000, 300000]),
            'defines': [{'value': r.choice(['', '=1', '=0', '=a b', '=x y', '="text"', "='c'", '=1+2', '=\\', '=(1)']), 'set': r.random() < .6, 'class': r.random() < .8} for _ in range(r.randrange(6))],
            'undef': r.random() < .2, 'forced': r.random() < .3, 'incdir': r.random() < .4, 'std': r.random() < .2, 'no std': r.random() < .3, 'groups': [r.randrange(4) for _ in range(24)], 'empty': r.random() < .2, 'position': r.randrange(3), 'relative': r.random() < .3, 'log': r.random() < .15, 'errors': [[r.randrange(8) for _ in range(r.choice([1, 2, 5, 30, 70]))] for _ in range(2)]}


SEMANTIC = ['inline int broken%s() { return undeclared_identifier; }', 'inline undeclared_type broken%s();', 'inline int broken%s() { int x = "text"; return x; }', 'inline int broken%s() { struct A {} a; return a.missing; }', 'struct Incomplete%s; inline int broken%s(Incomplete%s *p) { return p->member; }',
            'inline void broken%s(int); inline void call%s() { broken%s(1, 2); }', 'struct Twice%s {}; struct Twice%s {};', 'static_assert(sizeof(int) == 1, "number %s");']
BAD = {'syntax': 'struct Broken { int a };;; int (', 'semantic': None, 'include': '#include "this-file-does-not-exist.h"', 'mixed': 'struct Broken { int a }', 'mixed-reversed': 'struct Broken { int a }',
       'hash-error': '#error this is not supported', 'unterminated': '/* never closed', 'static-assert': 'static_assert(sizeof(int) == 1, "nope");', 'redefinition': 'struct Broken { int a; };\nstruct Broken { int b; };'}


def semantic(case, n):
    return '\n'.join(SEMANTIC[k].replace('%s', f'{n}_{i}') for i, k in enumerate(case['errors'][n]))


def broken(case, bad):
    if bad == 'semantic':
        return semantic(case, 0)
    if bad == 'mixed':
        return semantic(case, 0) + '\n' + BAD[bad]
    if bad == 'mixed-reversed':
        return BAD[bad] + '\n' + semantic(case, 0)
    return BAD[bad]


def header(case, bad):
    classes = ['#pragma once\n#include <reflective_rapidjson/json/serializable.h>\n#include <reflective_rapidjson/binary/serializable.h>']
    names = []

    def klass(name):
        names.append(name)
        return f'struct {name} : public ReflectiveRapidJSON::JsonSerializable<{name}>, public ReflectiveRapidJSON::BinarySerializable<{name}> {{\n' + ''.join(f'    int member{m};\n' for m in range(case['members'])) + '};'
    for i in range(case['classes']):
        classes.append(klass(f'Class{i}'))
    for i, d in enumerate(case['defines']):
        if not d['class']:
            continue
        if d['set'] or not d['set']:
            classes.append(f'#ifdef OPTION_{i}')
            n = len(names)
            classes.append(klass(f'OnlyWithOption{i}'))
            classes.append('#endif')
            if not d['set']:
                del names[n:]
    if case['undef']:
        classes.append('#ifndef SOMETIMES\n' + klass('Undefined') + '\n#endif')
    if case['forced']:
        classes.append(f'#ifdef FORCED_INCLUDE\n{klass("Forced")}\n#endif')
    if case['incdir']:
        classes.append('#include <from-include-directory.h>\nstruct UsesIncluded { FromIncludeDirectory member; };')
    if case['std']:
        classes.append(f'#if __cplusplus > 201703L\n{klass("Newer")}\n#endif')
    if bad:
        position = [1, 1 + len(classes) // 2, len(classes)][case['position']]
        while sum(c.startswith('#if') - c.endswith('#endif') for c in classes[1:position]):
            position += 1 # never within a condition
        classes.insert(position, broken(case, bad))
        if bad == 'semantic' and case['errors'][1]:
            classes.append(semantic(case, 1))
    return '\n'.join(classes) + '\n', names


def tester(check):
    env = dict(os.environ, LC_ALL='C.UTF-8')

    def test(case, d):
        if not case['formats']:
            raise Invalid('no formats')
        kind = case['input']
        if not all(case['errors']):
            raise Invalid('no errors')
        resilient = kind.startswith('resilient')
        bad = kind.replace('resilient-', '')
        bad = bad if bad in BAD else None
        text, names = header(case, None)
        with open(os.path.join(d, 'clean.h'), 'w') as f:
            f.write(text)
        with open(os.path.join(d, 'header.h'), 'w') as f:
            f.write('' if kind == 'empty' else header(case, bad)[0])
        os.mkdir(os.path.join(d, 'some-directory'))
        os.mkdir(os.path.join(d, 'more'))
        with open(os.path.join(d, 'more', 'from-include-directory.h'), 'w') as f:
            f.write('struct FromIncludeDirectory { int a; };\n')
        with open(os.path.join(d, 'forced.h'), 'w') as f:
            f.write('#define FORCED_INCLUDE\n')
        # compose compiler options; some of them consisting of two arguments
        opts = [['-resource-dir', '/usr/lib/llvm-18/lib/clang/18'], ['-std=c++20'] if case['std'] else [] if case['no std'] else ['-std=c++17'], ['-I' + check.path('inc')], ['-I', '/usr/include/martchus-c++utilities']]
        for i, x in enumerate(case['defines']):
            if x['set']:
                opts.append([f'-DOPTION_{i}{x["value"]}'] if i % 2 else ['-D', f'OPTION_{i}{x["value"]}'])
        if case['undef']:
            opts += [['-DSOMETIMES'], ['-USOMETIMES']]
        if case['forced']:
            opts.append(['-include', os.path.join(d, 'forced.h')])
        if case['incdir']:
            opts.append([f'-I{d}/more'])
        flat = [o for x in opts for o in x]
        formats = [f for f in case['formats'] if f in ('json', 'binary')]
        unknown = [f for f in case['formats'] if f not in ('json', 'binary')]
        # reference: everything specified separately, output on standard output
        ref = subprocess.run([check.gen, '--input-file', os.path.join(d, 'clean.h'), '--generators', *(formats or ['json']), '--clang-opt', *flat], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
        if ref.returncode:
            q = subprocess.run(['clang++', '-fsyntax-only', '-w', '-x', 'c++', *flat, os.path.join(d, 'clean.h')], stderr=subprocess.PIPE, text=True)
            if q.returncode:
                raise Invalid(q.stderr[:2000])
            raise Fail(f'exit status {ref.returncode} for valid input with options {flat}:\n{ref.stderr[-1500:].decode(errors="replace")}\n{text}')
        for fmt, function in (('json', 'push'), ('binary', 'writeCustomType')):
            found = [q for f, q in EMITTED.findall(ref.stdout.decode(errors='replace')) if f == function]
            if found != (names if fmt in (formats or ['json']) else []):
                raise Fail(f'{fmt} code emitted for {found} instead of {names} with options {flat}:\n{text}')
        # the actual invocation
        grouped, groups = [], list(case['groups'])
        for o in flat:
            if grouped and groups and groups.pop(0) % 2:
                grouped[-1] += ';' + (';' if case['empty'] else '') + o
            else:
                grouped.append((';' if case['empty'] else '') + o)
        path = {'missing': 'does-not-exist.h', 'directory': 'some-directory'}.get(kind, 'header.h')
        args = [] if kind == 'no-input' else ['--input-file', path if case['relative'] else os.path.join(d, path)]
        output = os.path.join(d, 'output.h')
        target = None
        how = case['output']
        if how in ('file', 'existing', 'limit'):
            target = output
        elif how == 'symlink':
            os.symlink('real-output.h', output)
            target = output
        elif how == 'missing-directory':
            target = os.path.join(d, 'missing', 'output.h')
        elif how == 'is-directory':
            target = os.path.join(d, 'some-directory')
        elif how == 'full':
            target = '/dev/full'
        elif how == 'file-as-directory':
            target = os.path.join(d, 'header.h', 'output.h')
        elif how == 'empty-name':
            target = ''
        elif how == 'name-too-long':
            target = os.path.join(d, 'x' * 300)
        elif how == 'symlink-loop':
            os.symlink('output.h', output)
            target = output
        if how == 'existing':
            with open(output, 'w') as f:
                f.write('x' * case['previous'])
        if target is not None:
            args += ['--output-file', 'output.h' if case['relative'] and target == output else target]
        args += ['--generators', *case['formats']]
        if resilient:
            args.append('--error-resilient')
        if case['log']:
            args.append('--log-clang-opt')
        if kind == 'unknown-argument':
            args.append('--does-not-exist')
        args += ['--clang-opt', *grouped]
        if kind == 'missing-option':
            args = [a for a in args if '-resource-dir' not in a and not a.startswith('-I') and '/usr/include/martchus' not in a] + ['-nostdinc++']
        if kind == 'bad-option':
            args.append('-march=no-such-processor')
        limit = None
        if how.startswith('limit'):
            limit = len(ref.stdout) * case['permille'] // 1000
        stdout = subprocess.PIPE
        capture = os.path.join(d, 'stdout')

        def prepare():
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            if how == 'closed-stdout':
                os.close(1)
            if how == 'broken-pipe':
                signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        if how == 'full-stdout':
            stdout = open('/dev/full', 'wb')
        elif how == 'broken-pipe':
            a, b = os.pipe()
            os.close(a)
            stdout = os.fdopen(b, 'wb')
        elif how == 'limit-stdout':
            stdout = open(capture, 'wb')
        p = subprocess.run([check.gen, *args], stdout=stdout, stderr=subprocess.PIPE, env=env, cwd=d, timeout=120, preexec_fn=prepare)
        if stdout is not subprocess.PIPE:
            try:
                stdout.close()
            except OSError:
                pass
        good_input = kind in ('ok', 'resilient-ok', 'resilient-semantic', 'empty')
        good_output = how in ('file', 'existing', 'stdout', 'symlink') or (limit is not None and False)
        expected_output = b'' if kind == 'empty' else ref.stdout
        show = f'generator {" ".join(map(repr, args))}\ninput: {kind}, output: {how}{f", limited to {limit} of {len(ref.stdout)} bytes" if limit is not None else ""}\nexit status {p.returncode}, stderr: {p.stderr[-800:].decode(errors="replace")}\n--- header.h\n{header(case, bad)[0] if kind != "empty" else ""}'
        if how in ('full', 'full-stdout', 'closed-stdout', 'broken-pipe') and not expected_output:
            good_output = True
        success = good_input and good_output and not unknown
        if success:
            if p.returncode:
                raise Fail('failed although nothing is wrong\n' + show)
            if target is not None and not os.path.exists(target):
                raise Fail('success reported without output file\n' + show)
            actual = p.stdout if target is None else open(target, 'rb').read()
            if actual != expected_output:
                raise Fail(f'output differs from the one on standard output with options specified separately ({len(actual)} vs. {len(expected_output)} bytes)\n{show}\n--- output\n{actual.decode(errors="replace")[:3000]}\n--- expected\n{expected_output.decode(errors="replace")[:3000]}')
            if target is not None and p.stdout:
                raise Fail('something written to standard output despite output file\n' + show)
        else:
            if not p.returncode:
                raise Fail('success reported\n' + show)
            if not p.stderr.strip():
                raise Fail('no message on standard error\n' + show)
        labels = [f'input {kind}', f'output {how}', 'success expected' if success else 'failure expected'] + (['unknown format'] if unknown else [])
        return show, labels, f'{kind} {how} {case["formats"]} {len(flat)} options -> {p.returncode}'
    return test
