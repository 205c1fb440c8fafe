# -*- coding: utf-8 -*-
"""Runs one property: shards of Hypothesis-generated and enumerated cases, shrinking, replay files, evidence.

A check module provides
  ID, RULE                    property id and the rule for non-trivial cases
  strategy(tier)              Hypothesis strategy of JSON-able cases (or None)
  run_case(case) -> (nontrivial, [labels])   raises on a violation
  enumerate_cases(tier)       (optional) iterable of JSON-able cases, all of them are run
  EXAMPLES = (quick, thorough)   generated cases per shard
"""
import collections
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PYTHON = shutil.which('python3-vt') or sys.executable


def dump(case):
    return json.dumps(case, ensure_ascii=False, sort_keys=True)


def digest(text):
    return hashlib.blake2b(text.encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()


def load_check(pid):
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    return __import__(pid.lower())


def known_findings():
    """-> {(property, key): description}"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    with open(path, encoding='utf-8') as f:
        for line in f:
            if line.startswith('KNOWN-FINDING:'):
                parts = line[len('KNOWN-FINDING:'):].split(None, 2)
                out[(parts[0].split('=', 1)[1], parts[1].split('=', 1)[1])] = parts[2].strip()
    return out


# ------------------------------------------------------------------ one shard

CASE_CPU_S = 30         # of processor time, whatever the load of the machine; a case takes milliseconds


class Endless(Exception):
    pass


def _endless(signum, frame):
    raise Endless('no answer within the processor time a case has')


def limited(check, case):
    old = signal.signal(signal.SIGVTALRM, _endless)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(check, 'CASE_CPU_S', CASE_CPU_S))
    try:
        return check.run_case(case)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


class Recorder(object):
    def __init__(self, check, outdir, shard):
        self.check = check
        self.outdir = outdir
        self.shard = shard
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.history = []
        self.first_failure = None       # index in history
        self.best = None                # (size, case, message)
        self.known = set()

    def run(self, case):
        text = dump(case)
        self.history.append(text)
        self.evaluations += 1
        try:
            case = json.loads(text)             # a check sees exactly what a replay file holds
            result = limited(self.check, case)
        except Exception as e:
            message = describe(e)
            if self.first_failure is None:
                self.first_failure = len(self.history) - 1
            if self.best is None or len(text) <= self.best[0]:
                self.best = (len(text), text, message)
                write_json(os.path.join(self.outdir, 'fail.%d' % self.shard),
                           {'case': json.loads(text), 'message': message,
                            'history': [json.loads(t) for t in self.history[:self.first_failure + 1]]})
            raise
        nontrivial, labels = result[0], result[1]
        for key in (result[2] if len(result) > 2 else ()):
            self.known.add(key)
        if nontrivial:
            self.nontrivial.add(digest(text))
        self.labels.update(labels)
        if len(text) < 1500:
            if len(self.samples) < 4 or self.evaluations in (50, 400):
                self.samples.append((bool(nontrivial), case))
            elif nontrivial and sum(1 for s in self.samples if s[0]) < 3:
                self.samples.append((True, case))


    def finish(self, failed):
        write_json(os.path.join(self.outdir, 'shard.%d' % self.shard), {
            'evaluations': self.evaluations, 'nontrivial': sorted(self.nontrivial), 'labels': dict(self.labels),
            'samples': self.samples, 'failed': failed, 'known': sorted(self.known)})


def describe(e):
    name = type(e).__name__
    if name == 'Violation':
        return str(e)
    tb = traceback.extract_tb(e.__traceback__)
    where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-4:]))
    return 'unexpected %s: %s (at %s)' % (name, e, where)


def write_json(path, value):
    tmp = path + '.tmp'
    with open(tmp, 'w', encoding='utf-8', errors='surrogatepass') as f:
        json.dump(value, f, ensure_ascii=False, indent=1, sort_keys=True)
    os.replace(tmp, path)


def shard_main(pid, shard, shards, tier, seed, outdir):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    check = load_check(pid)
    rec = Recorder(check, outdir, shard)
    failed = None

    if hasattr(check, 'enumerate_cases'):
        for i, case in enumerate(check.enumerate_cases(tier)):
            if i % shards != shard:
                continue
            try:
                rec.run(case)
            except Exception as e:          # enumerated cases are minimal by construction
                failed = describe(e)
                break

    examples = check.EXAMPLES[1 if tier == 'thorough' else 0]
    if failed is None and examples:
        strategy = check.strategy(tier)

        @hypothesis.seed(seed * 1009 + shard)
        @settings(max_examples=examples, database=None, deadline=None, report_multiple_bugs=False,
                  print_blob=False, phases=(Phase.generate, Phase.target, Phase.shrink),
                  suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                         HealthCheck.large_base_example])
        @given(strategy)
        def test(case):
            rec.run(case)

        try:
            test()
        except BaseException as e:
            if rec.best is None:
                raise                       # an error of the harness, not of the code under test
            failed = describe(e)

    rec.finish(failed)


# ------------------------------------------------------------------ coverage-guided shards

def fuzz_main(pid, shard, seconds, tier, seed, outdir):
    """The same cases as those of Hypothesis, from bytes that libFuzzer mutates towards new coverage of utg."""
    import atheris
    with atheris.instrument_imports(include=['utg'], exclude=['utg.tests']):
        check = load_check(pid)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.database import InMemoryExampleDatabase

    rec = Recorder(check, outdir, shard)
    started = time.time()

    @settings(max_examples=1, database=InMemoryExampleDatabase(), deadline=None, report_multiple_bugs=False, print_blob=False,
              phases=(Phase.reuse, Phase.shrink), suppress_health_check=list(HealthCheck))
    @given(check.strategy(tier))
    def test(case):
        rec.run(case)

    def one(data):
        failed = None
        try:
            test.hypothesis.fuzz_one_input(data)
        except Exception as e:
            if rec.best is None:
                raise                       # an error of the harness
            failed = describe(e)
            try:
                test()                      # shrinks what was saved
            except BaseException:
                pass
        if failed or time.time() - started > seconds:
            rec.finish(failed)
            sys.stdout.flush()
            os._exit(0)

    corpus = os.path.join(outdir, 'corpus.%d' % shard)      # long enough for whole cases, from the start
    os.mkdir(corpus)
    random = __import__('random').Random(seed * 1009 + shard)
    for i in range(48):
        with open(os.path.join(corpus, '%02d' % i), 'wb') as f:
            f.write(bytes(random.randrange(256) for _ in range(random.choice((30, 120, 500, 2000)))))
    atheris.Setup([sys.argv[0], '-seed=%d' % (seed * 1009 + shard), '-max_len=4000', '-len_control=0', '-use_value_profile=1',
                   '-timeout=100000', '-rss_limit_mb=0', '-verbosity=0', '-artifact_prefix=%s/' % outdir, corpus], one)
    atheris.Fuzz()


# ------------------------------------------------------------------ replay

def replay_file(pid, path):
    """Runs the saved case(s) without Hypothesis; True if the last one violates the property."""
    check = load_check(pid)
    with open(path, encoding='utf-8', errors='surrogatepass') as f:
        saved = json.load(f)
    cases = saved.get('history') or [saved['case']]
    for i, case in enumerate(cases):
        try:
            result = limited(check, case)
        except Exception as e:
            if i == len(cases) - 1:
                print('replay: %s' % describe(e))
                return True
            continue
        for key in (result[2] if len(result) > 2 else ()):
            print('replay: known finding %s' % key)
    return False


def env():
    e = dict(os.environ)
    e.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='', LC_ALL='C.UTF-8', PYTHONWARNINGS='ignore',
             PYTHONIOENCODING='utf-8:backslashreplace')
    return e


def reproduces(pid, path):
    cmd = [PYTHON, os.path.join(VERIF, 'check.py'), pid, '--replay', path]
    try:
        return subprocess.run(cmd, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                              cwd=VERIF, timeout=120).returncode == 1
    except subprocess.TimeoutExpired:
        return False


def make_replay(pid, failure, tier, seed):
    """The smallest thing that reproduces in a fresh process: the shrunk case, else the case after its history."""
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, digest(dump(failure['case']))))
    head = {'property': pid, 'message': failure['message'], 'tier': tier, 'seed': seed,
            'how': 'python3-vt check.py %s --replay <this file>' % pid}
    write_json(path, dict(head, case=failure['case']))
    if reproduces(pid, path):
        return path, True
    history = failure['history']
    for n in (2, 4, 8, 32, 128, 512, 2048, len(history)):
        write_json(path, dict(head, history=history[-n:], note='fails only after the preceding cases: the result '
                                                               'depends on what was done before'))
        if reproduces(pid, path):
            return path, True
        if n >= len(history):
            break
    return path, False


# ------------------------------------------------------------------ the whole check

FUZZERS = {'quick': 2, 'thorough': 4}       # processes of coverage-guided search, next to those of Hypothesis
FUZZ_S = {'quick': 20, 'thorough': 240}


def fuzzable(pid, tier):
    """Coverage guides where calls run in the process of the search, undisturbed."""
    return pid not in ('C21', 'C23', 'C24', 'C25', 'C28') and load_check(pid).EXAMPLES[1 if tier == 'thorough' else 0]


def main(pid):
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    shards = int(os.environ.get('VERIF_SHARDS') or (6 if tier == 'quick' else 8))
    fuzzers = FUZZERS[tier] if fuzzable(pid, tier) else 0
    limit = 780 if tier == 'quick' else 6 * 3600
    shrink_limit = 60
    started = time.time()
    outdir = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    procs = []
    try:
        e = env()
        e['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(outdir, 'hypothesis')
        for i in range(shards + fuzzers):
            cmd = [PYTHON, os.path.join(VERIF, 'check.py'), pid, '--shard', str(i), str(shards), tier, str(seed), outdir]
            if i >= shards:
                cmd[3:] = ['--fuzz', str(i), str(FUZZ_S[tier]), tier, str(seed), outdir]
            log = open(os.path.join(outdir, 'log.%d' % i), 'wb')
            procs.append(subprocess.Popen(cmd, env=e, cwd=VERIF, stdout=log, stderr=subprocess.STDOUT,
                                          start_new_session=True))
            log.close()
        failing_since, dropped = {}, []
        while any(p.poll() is None for p in procs):
            time.sleep(0.05)
            now = time.time()
            for i, p in enumerate(procs):
                if i not in failing_since and i not in dropped and os.path.exists(os.path.join(outdir, 'fail.%d' % i)):
                    failing_since[i] = now
            shrunk = [i for i in failing_since if procs[i].poll() is not None or now - failing_since[i] > shrink_limit]
            for i in shrunk:
                # utg is instrumented in a coverage-guided process: what fails there counts if it fails without
                if i >= shards and not confirmed(pid, outdir, i, tier, seed):
                    stop([procs[i]])
                    os.remove(os.path.join(outdir, 'fail.%d' % i))
                    del failing_since[i]
                    dropped.append(i)
            if any(i in failing_since for i in shrunk) or now - started > limit:
                break
            if now - started > FUZZ_S[tier] + 60 and all(p.poll() is not None for p in procs[:shards]) and not failing_since:
                break                                       # a coverage-guided process that does not come to its end
        for i in range(shards, shards + fuzzers):
            if i not in failing_since and os.path.exists(os.path.join(outdir, 'fail.%d' % i)) \
                    and not confirmed(pid, outdir, i, tier, seed):
                os.remove(os.path.join(outdir, 'fail.%d' % i))
                dropped.append(i)
        unfinished = [p for p in procs if p.poll() is None]
        stop(unfinished)
        return conclude(pid, tier, seed, shards, fuzzers, outdir, procs, unfinished, started, dropped)
    finally:
        stop([p for p in procs if p.poll() is None])
        shutil.rmtree(outdir, ignore_errors=True)


def confirmed(pid, outdir, i, tier, seed):
    with open(os.path.join(outdir, 'fail.%d' % i), encoding='utf-8', errors='surrogatepass') as f:
        path, again = make_replay(pid, json.load(f), tier, seed)
    if not again:
        os.remove(path)
    return again


def stop(procs):
    for p in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()


def conclude(pid, tier, seed, shards, fuzzers, outdir, procs, unfinished, started, dropped):
    check = load_check(pid)
    failures, results, guided = [], [], 0
    for i in range(shards + fuzzers):
        path = os.path.join(outdir, 'fail.%d' % i)
        if os.path.exists(path):
            with open(path, encoding='utf-8', errors='surrogatepass') as f:
                failures.append(json.load(f))
        path = os.path.join(outdir, 'shard.%d' % i)
        if os.path.exists(path):
            with open(path, encoding='utf-8', errors='surrogatepass') as f:
                results.append(json.load(f))
            guided += results[-1]['evaluations'] if i >= shards else 0
    known, listed = set(), known_findings()
    nontrivial, labels, samples, evaluations = set(), collections.Counter(), [], 0
    for res in results:
        evaluations += res['evaluations']
        nontrivial.update(res['nontrivial'])
        labels.update(res['labels'])
        samples += [s for s in res['samples'] if s[0]][:2]
        known.update(res['known'])
    replay = None
    if failures:
        failures.sort(key=lambda f: (len(dump(f['case'])), dump(f['case'])))
        for failure in failures[:3]:
            replay, again = make_replay(pid, failure, tier, seed)
            chosen = failure
            if again:
                break
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations + (sum(len(f['history']) for f in failures) if not results else 0),
            'distinct_nontrivial': len(nontrivial),
            'rule': check.RULE,
            'samples': [s[1] for s in samples[:8]] or [f['case'] for f in failures[:2]],
            'classes': dict(sorted(labels.items())),
            'shards': shards + fuzzers,
            'shards_completed': len(results),
            'coverage_guided': {'processes': fuzzers, 'seconds_each': FUZZ_S[tier] if fuzzers else 0,
                                'evaluations': guided, 'only_when_instrumented': len(dropped),
                                'without_result': [i for i in range(shards, shards + fuzzers) if not os.path.exists(
                                    os.path.join(outdir, 'shard.%d' % i))]},
            'known_findings_met': sorted(known),
        },
        'assumptions': getattr(check, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - started, 2),
        'violations': len(failures) and 1,
    }
    if failures:
        evidence['coverage']['violation'] = {'case': chosen['case'], 'message': chosen['message']}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    write_json(os.path.join(VERIF, 'evidence', pid + '.json'), evidence)

    for key in sorted(known):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, key, listed[(pid, key)]))
    if failures:
        print('case: %s' % dump(chosen['case'])[:2000])
        print('what: %s' % chosen['message'][:2000])
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    broken = [i for i, p in enumerate(procs[:shards]) if p.returncode != 0]
    unfinished = [p for p in unfinished if p in procs[:shards]]
    if broken or unfinished:
        print('ERROR property=%s: %s' % (pid, 'out of time' if unfinished else 'a shard failed'))
        for i in broken[:1]:
            with open(os.path.join(outdir, 'log.%d' % i), errors='replace') as f:
                print(f.read()[-4000:])
        return 2
    print('OK property=%s tier=%s seed=%d cases=%d non-trivial=%d in %.1fs' % (
        pid, tier, seed, evaluations, len(nontrivial), time.time() - started))
    return 0
