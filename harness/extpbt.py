"""Property-based testing of programs run as separate processes: cases are JSON-like structures made from a seed, failures are
shrunk by removing elements of lists and simplifying values."""
import concurrent.futures, copy, hashlib, json, os, shutil, subprocess, time


class Fail(Exception):
    """The property does not hold for the case."""


class Invalid(Exception):
    """The case is not within the domain of the property (may only happen when shrinking)."""


def positions(x, path=()):
    """Paths of all lists and simplifiable values."""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from positions(v, path + (k,))
    elif isinstance(x, list):
        yield path
        for i, v in enumerate(x):
            yield from positions(v, path + (i,))
    elif x and isinstance(x, (bool, int)):
        yield path


def get(x, path):
    for p in path:
        x = x[p]
    return x


def candidates(case):
    """Simpler variants of the case."""
    for path in sorted(positions(case), key=len):
        v = get(case, path)
        if isinstance(v, list):
            n = len(v)
            while n:
                for i in range(0, len(v), n):
                    c = copy.deepcopy(case)
                    del get(c, path)[i:i + n]
                    yield c
                n //= 2
        else:
            c = copy.deepcopy(case)
            get(c, path[:-1])[path[-1]] = False if isinstance(v, bool) else 0
            yield c


def search(check, make, test, secs, label, shrink_secs=100):
    """make(seed, i) makes a case; test(case, directory) returns (key or None if trivial, labels, sample) or raises Fail"""
    secs = secs if check.quick else secs * 14
    base = check.path(label)
    os.makedirs(base, exist_ok=True)
    end = time.time() + secs

    def run(name, case):
        d = os.path.join(base, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            return test(case, d)
        except subprocess.TimeoutExpired as e:
            raise Fail(f'not terminated after {e.timeout} s: {e.cmd}')
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def one(i):
        if time.time() > end and i >= 24:
            return i, None, None
        case = make(check.seed, i)
        try:
            return i, case, run(str(i), case)
        except (Fail, Invalid) as e:
            return i, case, e

    jobs = os.cpu_count() or 8
    n, keys, labels, samples, failed = 0, set(), {}, [], None
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        i = 0
        pending = {ex.submit(one, k) for k in range(jobs * 2)}
        i = jobs * 2
        while pending:
            done, pending = concurrent.futures.wait(pending, return_when=concurrent.futures.FIRST_COMPLETED)
            for f in done:
                k, case, r = f.result()
                if case is None:
                    continue
                if isinstance(r, Invalid):
                    # the generators are supposed to make only valid cases but do not give up because of a few
                    labels['skipped (not valid)'] = labels.get('skipped (not valid)', 0) + 1
                    if labels['skipped (not valid)'] > 4 + n / 10:
                        from __main__ import Trouble
                        raise Trouble(f'case {k} (and too many others) are not valid: {r}')
                    if time.time() < end or i < 24:
                        pending.add(ex.submit(one, i))
                        i += 1
                    continue
                n += 1
                if isinstance(r, Fail):
                    if not failed or k < failed[0]:
                        failed = (k, case, r)
                    end = 0
                    continue
                key, ls, sample = r
                if key is not None:
                    keys.add(hashlib.sha256(key.encode()).digest())
                    if len(samples) < 8:
                        samples.append(sample)
                for l in ls:
                    labels[l] = labels.get(l, 0) + 1
                if time.time() < end or i < 24:
                    pending.add(ex.submit(one, i))
                    i += 1
        check.add(n, len(keys), samples, label)
        check.results[-1]['labels'] = labels
        if not failed:
            return
        # shrink, trying several candidates at once
        k, case, error = failed
        stop = time.time() + shrink_secs
        again = True
        while again and time.time() < stop:
            again = False
            todo = candidates(case)
            while time.time() < stop:
                batch = [c for _, c in zip(range(jobs), todo)]
                if not batch:
                    break

                def attempt(x):
                    try:
                        run(f'shrink{x[0]}', x[1])
                    except Fail as e:
                        return e
                    except (Invalid, LookupError, ValueError, TypeError):
                        pass # the candidate is not a proper case
                    return None
                rs = list(ex.map(attempt, enumerate(batch)))
                hit = next((x for x in zip(batch, rs) if x[1]), None)
                if hit:
                    case, error = hit
                    again = True
                    break
    raise_failure(check, label, k, case, error)


def raise_failure(check, label, i, case, error):
    path = check.path('case.json')
    with open(path, 'w') as f:
        json.dump({'label': label, 'case': case}, f, indent=1)
    from __main__ import Violated
    raise Violated(f'case {i} (minimized): {error}', [path])
