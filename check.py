#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID>  (environment: VERIF_TIER, VERIF_SEED)
         replays a recorded failure: check.py replay <replay directory>

Exit status: 0 the property held, 1 it is violated (line "VIOLATION property=... replay=..."), 2 the check could not be done."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(ROOT, 'harness'))
HARNESS = os.path.join(ROOT, 'harness')
SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', f'-fsanitize-ignorelist={HARNESS}/ubsan.ignore']
CPPFLAGS = ['-I/usr/include/martchus-c++utilities', f'-I{HARNESS}']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=1024', UBSAN_OPTIONS='print_stacktrace=1', LC_ALL='C.UTF-8')
JOBS = os.cpu_count() or 8


class Trouble(Exception):
    """The check could not be carried out."""


class Violated(Exception):
    def __init__(self, text, files=()):
        self.text, self.files = text, files


class Check:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.quick = self.tier != 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.build = os.path.join(ROOT, 'build', pid)
        self.start = time.time()
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(os.path.join(self.build, 'inc'))
        os.symlink(os.path.join(REPO, 'lib'), os.path.join(self.build, 'inc', 'reflective_rapidjson'))
        self.results, self.notes, self.gen = [], [], None

    def path(self, *a):
        return os.path.join(self.build, *a)

    # --- compiling
    def compile(self, src, obj, flags, compiler='clang++'):
        cmd = [compiler, '-std=c++17', f'-I{self.path("inc")}', *CPPFLAGS, *flags, '-c', src, '-o', obj]
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')
        return cmd, p

    def compile_all(self, jobs):
        """jobs: list of (src, obj, flags); a compiler error in code using the library as documented is a violation"""
        with ThreadPoolExecutor(JOBS) as ex:
            for (src, obj, flags), (cmd, p) in zip(jobs, ex.map(lambda j: self.compile(*j), jobs)):
                if p.returncode == 0:
                    continue
                if p.returncode == 1 and 'error:' in p.stderr:
                    errors = [l for l in p.stderr.splitlines() if 'error:' in l or 'note: in instantiation' in l][:12]
                    raise Violated('code using supported types as documented does not compile:\n' + '\n'.join(errors), [src])
                raise Trouble(f'{" ".join(cmd)} failed with {p.returncode}:\n{p.stderr[-2000:]}')

    def link(self, objs, out, flags):
        p = subprocess.run(['clang++', *flags, *objs, '-o', out, '-lmartchus-c++utilities', '-lpthread'], stderr=subprocess.PIPE, text=True, errors='replace')
        if p.returncode:
            if 'multiple definition' in p.stderr or 'undefined reference' in p.stderr:
                raise Violated('program using the library does not link:\n' + p.stderr[:3000], [])
            raise Trouble('linking failed: ' + p.stderr[-2000:])

    # --- the code generator
    def generator(self):
        """Builds the code generator."""
        d = self.path('generator')
        os.makedirs(d, exist_ok=True)
        src = sorted(x for x in os.listdir(os.path.join(REPO, 'generator')) if x.endswith('.cpp'))
        flags = ['-O0', '-w', f'-I{HARNESS}/generator', f'-I{REPO}/lib', '-isystem', '/usr/lib/llvm-18/include']
        with ThreadPoolExecutor(JOBS) as ex:
            for cmd, p in ex.map(lambda s: self.compile(os.path.join(REPO, 'generator', s), os.path.join(d, s[:-4] + '.o'), flags), src):
                if p.returncode:
                    raise Trouble(f'{" ".join(cmd)} failed:\n{p.stderr[-2000:]}')
        exe = os.path.join(d, 'reflective_rapidjson_generator')
        p = subprocess.run(['clang++', *[os.path.join(d, s[:-4] + '.o') for s in src], '-rdynamic', '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18', '-lmartchus-c++utilities', '-o', exe], stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise Trouble('linking the generator failed: ' + p.stderr[-2000:])
        self.gen = exe
        return exe

    def clang_opts(self, includes=()):
        return ['--clang-opt', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-std=c++17', f'-I{self.path("inc")}', '-I/usr/include/martchus-c++utilities', *[f'-I{i}' for i in includes]]

    def generate(self, header, args, out, includes=()):
        """Runs the generator; it is supposed to be successful."""
        cmd = [self.gen, '--input-file', header, '--output-file', out, *args, *self.clang_opts(includes)]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=120)
        except subprocess.TimeoutExpired:
            raise Violated(f'{" ".join(cmd)}\ndid not terminate within 120 s for valid input', [header])
        if p.returncode:
            raise Violated(f'{" ".join(cmd)}\nexited with {p.returncode} for valid input:\n{p.stderr[-3000:]}', [header])

    def programs(self, header, modes, count, nrandom, versions=0, secs=25, probes=(), label='pbt', seed=None):
        """Generates programs, runs the generator on them, compiles the result with the property and runs it."""
        import genprog
        if not self.gen:
            self.generator()
        seed = self.seed if seed is None else seed
        d = self.path(label)
        os.makedirs(d, exist_ok=True)
        todo, jobs = [], []
        flags = ['-O0' if self.quick else '-O1', '-g1', *SAN, '-ftrivial-auto-var-init=pattern', f'-DPROP_HEADER="{header}"', '-DGENERATED_PROGRAMS', f'-DWITH_VERSIONS={versions}', f'-I{d}', '-Wno-everything']
        for mode in modes:
            for i in range(count):
                ns, args = genprog.make(mode, seed, i, count, nrandom, versions, d)
                todo += [(os.path.join(d, f'{ns}_{part}.h'), args, os.path.join(d, f'{ns}_{part}.gen.h')) for part in 'ab']
                src = os.path.join(d, f'{ns}_test.cpp')
                jobs.append((src, src[:-4] + '.o', flags))
        for p in probes:
            todo.append((os.path.join(HARNESS, f'{p}_input.h'), ['--generators', 'binary'], os.path.join(d, f'{p}_input.gen.h')))
            jobs.append((os.path.join(HARNESS, f'{p}.cpp'), os.path.join(d, f'{p}.o'), flags))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda x: self.generate(*x, [d]), todo))
        main = (os.path.join(HARNESS, 'pbt_main.cpp'), os.path.join(d, 'main.o'), flags)
        self.compile_all([main] + jobs)
        exe = os.path.join(d, 'run')
        self.link([main[1]] + [j[1] for j in jobs], exe, SAN)
        files = [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith('.h')]
        try:
            self.run_pbt(exe, secs, label=label)
        except Violated as v:
            v.files = list(v.files) + files
            raise
        return exe

    # --- property-based tests in C++
    def pbt(self, header=None, modes=(), sources=(), secs=25, nrandom=None, opt=None, san=None, label='', cases=1 << 60, workers=None, timeout=30, extra_flags=()):
        """Builds shards of the type universe (for every mode) and/or further sources with the property and runs it."""
        nrandom = nrandom if nrandom is not None else (6 if self.quick else 20)
        opt = opt or ('-O0' if self.quick else '-O1')
        san = SAN if san is None else san
        flags = [opt, '-g1', *san, '-ftrivial-auto-var-init=pattern', *([f'-DPROP_HEADER="{header}"'] if header else []), *extra_flags]
        d = self.path(label or 'pbt')
        os.makedirs(d, exist_ok=True)
        jobs = [(os.path.join(HARNESS, 'pbt_main.cpp'), os.path.join(d, 'main.o'), flags)]
        shards = max(1, 8 // max(1, len(modes)))
        for mode in modes:
            for s in range(shards):
                src = os.path.join(d, f'{mode}{s}.cpp')
                with open(src, 'w') as f:
                    subprocess.run([sys.executable, os.path.join(HARNESS, 'universe.py'), mode, str(self.seed), str(s), str(shards), str(nrandom)], stdout=f, check=True)
                jobs.append((src, src[:-4] + '.o', flags))
        for s in sources:
            src = s if os.path.isabs(s) else os.path.join(HARNESS, s)
            jobs.append((src, os.path.join(d, os.path.basename(s)[:-4] + '.o'), flags))
        self.compile_all(jobs)
        exe = os.path.join(d, 'run')
        self.link([j[1] for j in jobs], exe, san)
        self.run_pbt(exe, secs, cases, workers, timeout, label or 'pbt')
        return exe

    def run_pbt(self, exe, secs, cases=1 << 60, workers=None, timeout=30, label='pbt'):
        secs = secs if self.quick else secs * 14
        out = exe + '.json'
        for attempt in range(3):
            if os.path.exists(out):
                os.remove(out)
            p = subprocess.run([exe, 'run', '--seed', str(self.seed + 1000003 * attempt), '--cases', str(cases), '--secs', str(secs), '--workers', str(workers or JOBS), '--timeout', str(timeout), '--out', out], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if not os.path.exists(out):
                raise Trouble(f'{exe} exited with {p.returncode}: {p.stdout[-1500:]}')
            r = json.load(open(out))
            if p.returncode == 4:
                self.notes.append(f'unconfirmed: {r["failure"]["kind"]}: {r["failure"]["msg"][:300]}')
                print(f'note: a failure could not be reproduced, trying again: {self.notes[-1]}')
                continue
            break
        else:
            f = r['failure']
            reported = f['kind'] == 'crash' and all('Sanitizer: ' in n or 'runtime error: ' in n for n in self.notes[-3:]) and not any(x in n for n in self.notes[-3:] for x in ('out of memory', 'out-of-memory', 'failed to allocate', 'allocation-size'))
            if (f['kind'] not in ('hang', 'crash') or reported) and sum(n.startswith(f'unconfirmed: {f["kind"]}:') for n in self.notes) >= 3:
                raise Violated(f'{f["kind"]}: {f["msg"]}\ncase: {f["show"]}\n(found repeatedly, depends on schedules or the state of the process, e.g. addresses: run the check with the same seed to see it again)', [exe])
            raise Trouble('failures which cannot be reproduced: ' + '; '.join(self.notes))
        r['label'] = label
        self.results.append(r)
        if p.returncode == 0:
            return r
        if p.returncode != 1:
            raise Trouble(f'{exe} exited with {p.returncode}: {p.stdout[-1500:]}')
        f = r['failure']
        tape = exe + '.tape'
        with open(tape, 'w') as t:
            t.write(' '.join(map(str, f['tape'])) + '\n')
        raise Violated(f'{f["kind"]}: {f["msg"]}\ncase: {f["show"]}', [exe, tape])

    def probe(self, exe, name):
        p = subprocess.run([exe, 'probe', '--name', name], env=ENV, stdout=subprocess.PIPE, text=True, errors='replace')
        if p.returncode:
            raise Trouble(f'probe {name} failed')
        return p.stdout.strip()

    def findings(self, exe, probes):
        """Reports known findings which are still present."""
        for name in probes:
            r = self.probe(exe, name)
            self.finding(name, None if r.startswith('absent') else r, [exe])

    def finding(self, name, description, files=()):
        """Reports the known finding if still present (there is a description of the problem)."""
        known = known_findings(self.id)
        if description is None:
            return
        if name not in known:
            raise Violated(f'probe {name}: {description}', list(files))
        print(f'KNOWN-FINDING: property={self.id} {known[name]}')

    # --- finishing
    def add(self, evaluations, distinct_nontrivial, samples, label, **more):
        """Results of checks not carried out by the C++ engine."""
        self.results.append(dict(evaluations=evaluations, distinct_nontrivial=distinct_nontrivial, nontrivial=distinct_nontrivial, samples=samples, label=label, labels={}, entries=0, **more))

    def evidence(self, rule, violations, level='exploration', assumptions=(), more=None):
        samples, labels = [], {}
        for r in self.results:
            samples += r['samples'][:8]
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
        cov = {'evaluations': sum(r['evaluations'] for r in self.results), 'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in self.results), 'rule': rule, 'samples': samples[:16],
               'types_covered': sum(r['entries'] for r in self.results), 'classification': dict(sorted(labels.items(), key=lambda x: -x[1])[:40])}
        cov.update(more or {})
        if self.notes:
            cov['notes'] = self.notes
        e = {'property': self.id, 'tier': 'quick' if self.quick else 'thorough', 'seed': self.seed, 'level': level, 'coverage': cov, 'assumptions': list(assumptions), 'wall_s': round(time.time() - self.start, 2), 'violations': violations}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.id + '.json'), 'w') as f:
            json.dump(e, f, indent=1, ensure_ascii=True)
            f.write('\n')


def known_findings(pid):
    r = {}
    with open(os.path.join(ROOT, 'known-findings.txt')) as f:
        for line in f:
            if line.startswith('finding: '):
                prop, key, text = line[9:].strip().split(' ', 2)
                if prop == f'property={pid}':
                    r[key.split('=', 1)[1]] = text
    return r


def save_replay(check, v):
    d = os.path.join(ROOT, 'replays', f'{check.id}-{check.seed}-{int(time.time())}')
    os.makedirs(d, exist_ok=True)
    for f in v.files:
        if os.path.exists(f):
            shutil.copy(f, d)
    with open(os.path.join(d, 'README.txt'), 'w') as f:
        f.write(f'property {check.id}, seed {check.seed}, tier {check.tier}\n\n{v.text}\n\nTo run the case again: python3 {ROOT}/check.py replay {d}\n')
    return d


def replay(d):
    print(open(os.path.join(d, 'README.txt')).read())
    exe, tape = os.path.join(d, 'run'), os.path.join(d, 'run.tape')
    if os.path.exists(tape):
        err = os.path.join(d, 'stderr.txt')
        r = subprocess.run([exe, 'replay', '--tape', tape, '--err', err], env=ENV).returncode
        print(open(err, errors='replace').read())
        return r
    return 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    import props
    if sys.argv[1:] == ['setup']:
        for tool in ('clang++', 'pkg-config'):
            if not shutil.which(tool):
                print(f'TROUBLE: {tool} is missing')
                return 2
        return 0
    pid = sys.argv[1]
    spec = props.PROPS[pid]
    check = Check(pid)
    violation = None
    try:
        spec['run'](check)
    except Violated as v:
        violation = v
    except Trouble as e:
        print('TROUBLE:', e)
        return 2
    check.evidence(spec['rule'], 1 if violation else 0, assumptions=spec.get('assumptions', ()), more=getattr(check, 'more', None))
    if violation:
        d = save_replay(check, violation)
        print(violation.text)
        print(f'VIOLATION property={pid} replay={d}')
    else:
        n = sum(r['evaluations'] for r in check.results)
        print(f'{pid}: held on {n} cases ({time.time() - check.start:.0f} s)')
    shutil.rmtree(check.build, ignore_errors=True)
    return 1 if violation else 0


if __name__ == '__main__':
    sys.exit(main())
