"""Runner: generate cases for one property, shrink failures, write evidence.

  python -m dschpbt.run C01                    run the check
  python -m dschpbt.run C01 --replay FILE      re-execute one saved case

Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough),
VERIF_WORKERS, VERIF_CASES (overrides the number of cases), VERIF_FUZZ (number
of inputs for each worker of the coverage-guided phase, which is part of the
thorough tier).
"""
import argparse
import collections
import errno
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KNOWN = os.path.join(VERIF, 'known_findings.txt')
MACHINE = (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EIO,
           errno.EDQUOT, errno.EAGAIN)
TIME_LIMIT = {'quick': 700, 'thorough': 6 * 3600}


def load_check(prop):
    return importlib.import_module('checks.' + prop.lower())


def case_json(case):
    return json.dumps(case, sort_keys=True)


# --------------------------------------------------------------------------
# Executing a single case

def close_hdf5():
    """Close every open HDF5 file of this process, like ending it would."""
    import h5py
    from h5py import h5f, h5i
    # Files may also be kept open by their datasets and groups only.
    kinds = h5f.OBJ_FILE | h5f.OBJ_DATASET | h5f.OBJ_GROUP | h5f.OBJ_ATTR
    for _ in range(1000):
        ids = [i for i in h5f.get_obj_ids(h5f.OBJ_ALL, kinds) if i.valid]
        if not ids:
            return
        try:
            h5py.File(h5i.get_file_id(ids[0])).close()
        except Exception:
            return


def in_dsch(tb):
    """Whether the traceback passes through the code under test."""
    from . import REPO
    package = os.path.join(REPO, 'dsch') + os.sep
    return any(os.path.abspath(f.filename).startswith(package)
               for f in traceback.extract_tb(tb))


def execute(check, case, scratch):
    """Run one case; raise Violation, or another exception if the harness
    itself fails."""
    from . import Violation
    os.makedirs(scratch)
    try:
        check.check(case, scratch)
    except (Violation, MemoryError):
        raise
    except Exception as err:
        # Everything a check evaluates comes from the code under test: an
        # operation that should succeed, or a result used as documented.
        # Only trouble with the machine itself is an error of the check.
        if isinstance(err, OSError) and err.errno in MACHINE:
            raise
        frames = traceback.extract_tb(err.__traceback__)
        raise Violation('unexpected {}{}: {} (at {})'.format(
            type(err).__name__,
            '' if in_dsch(err.__traceback__) else ' using a result', err,
            '; '.join('{}:{}'.format(os.path.basename(f.filename), f.lineno)
                      for f in frames[-4:]))) from err
    finally:
        close_hdf5()
        shutil.rmtree(scratch, ignore_errors=True)


# --------------------------------------------------------------------------
# Worker: one Hypothesis run

def worker(prop, index, count, cases, seed, out_path):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity
    from hypothesis.internal.conjecture import engine
    from . import Violation

    if hasattr(engine, 'MAX_SHRINKING_SECONDS'):
        engine.MAX_SHRINKING_SECONDS = 60
    check = load_check(prop)
    scratch = os.path.join(os.getcwd(), 'case')
    labels = collections.Counter()
    nontrivial = set()
    samples = []
    state = {'n': 0, 'case': None, 'message': None, 'error': None,
             'first': None}

    @hypothesis.seed(seed * 1009 + index)
    @hypothesis.settings(
        max_examples=cases, deadline=None, database=None,
        derandomize=False, report_multiple_bugs=False, print_blob=False,
        verbosity=Verbosity.quiet, phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck))
    @hypothesis.given(check.strategy())
    def test(case):
        text = case_json(case)
        case = json.loads(text)
        if state['case'] is None:
            state['n'] += 1
            tags = check.classify(case)
            labels.update(tags)
            if 'nontrivial' in tags:
                digest = hashlib.sha1(text.encode()).hexdigest()[:16]
                if digest not in nontrivial:
                    nontrivial.add(digest)
                    if 100 < len(text) < 2500 and \
                            len(nontrivial) >= 10 * 4 ** len(samples):
                        samples.append(case)
                    if state['first'] is None:
                        state['first'] = case
        try:
            execute(check, case, scratch)
        except Violation as err:
            state['case'], state['message'] = case, str(err)
            raise

    def always(cases):
        for case in cases:
            state['n'] += 1
            labels.update(check.classify(case))
            try:
                execute(check, case, scratch)
            except Violation as err:
                state['case'], state['message'] = case, str(err)
                raise

    start = time.time()
    status = 'ok'
    try:
        # Cases that are always included, before or after generated ones.
        always(getattr(check, 'FIXED', [])[index::count])
        test()
        always(getattr(check, 'LARGE', [])[index::count])
    except Violation:
        status = 'violation'
    except Exception:
        status = 'violation' if state['case'] is not None else 'error'
        state['error'] = traceback.format_exc()
        if status == 'violation':
            status = 'flaky'
    with open(out_path, 'w') as file_:
        json.dump({'status': status, 'index': index,
                   'evaluations': state['n'],
                   'labels': labels, 'nontrivial': sorted(nontrivial),
                   'samples': samples or [state['first']] * (
                       state['first'] is not None), 'case': state['case'],
                   'message': state['message'], 'error': state['error'],
                   'seconds': time.time() - start}, file_)


# --------------------------------------------------------------------------
# Worker: coverage-guided fuzzing of the same property

def fuzz_worker(prop, index, cases, seed, out_path):
    """Let libFuzzer (atheris) choose the inputs of the Hypothesis strategy.

    Only the package under test is instrumented, so the search prefers inputs
    that reach new branches or comparisons there.  A failure is shrunk by
    Hypothesis.
    """
    import atheris
    # Import the package again, this time with instrumentation.
    for name in [n for n in sys.modules if n.split('.')[0] == 'dsch']:
        del sys.modules[name]
    with atheris.instrument_imports(include=['dsch']):
        for name in ('schema', 'data', 'frontend', 'storage', 'backends.inmem',
                     'backends.npz', 'backends.hdf5', 'backends.mat'):
            importlib.import_module('dsch.' + name)
    import hypothesis
    import random
    from hypothesis import HealthCheck, Phase, Verbosity
    from hypothesis.database import InMemoryExampleDatabase
    from . import Violation

    check = load_check(prop)
    scratch = os.path.join(os.getcwd(), 'case')
    labels = collections.Counter()
    nontrivial = set()
    state = {'runs': 0, 'n': 0, 'case': None, 'message': None}
    start = time.time()

    @hypothesis.settings(
        max_examples=5000, deadline=None, database=InMemoryExampleDatabase(),
        report_multiple_bugs=False, print_blob=False,
        verbosity=Verbosity.quiet, phases=(Phase.reuse, Phase.shrink),
        suppress_health_check=list(HealthCheck))
    @hypothesis.given(check.strategy())
    def test(case):
        text = case_json(case)
        case = json.loads(text)
        if state['case'] is None:
            state['n'] += 1
            tags = check.classify(case)
            labels.update(tags)
            if 'nontrivial' in tags:
                nontrivial.add(hashlib.sha1(text.encode()).hexdigest()[:16])
        try:
            execute(check, case, scratch)
        except Violation as err:
            state['case'], state['message'] = case, str(err)
            raise

    def finish(status, error=None):
        with open(out_path, 'w') as file_:
            json.dump({'status': status, 'index': index, 'fuzz': True,
                       'evaluations': state['n'], 'labels': labels,
                       'nontrivial': sorted(nontrivial), 'samples': [],
                       'case': state['case'], 'message': state['message'],
                       'error': error, 'seconds': time.time() - start}, file_)
        sys.stdout.flush()
        # libFuzzer would report leaving as a crash.
        os._exit(0)

    def one_input(data):
        state['runs'] += 1
        data = bytes(data)
        # Continue short inputs with noise, so that all are complete.
        tail = hashlib.shake_256(data[:4]).digest(6000)
        try:
            test.hypothesis.fuzz_one_input(data + tail)
        except Violation:
            try:
                test()
            except Violation:
                finish('violation')
            except Exception:
                pass
            finish('violation')
        except Exception:
            finish('error', traceback.format_exc())
        if state['runs'] >= cases:
            finish('ok')

    corpus = os.path.join(os.getcwd(), 'corpus')
    os.makedirs(corpus)
    for number in range(40):
        noise = random.Random(seed * 1009 + index * 101 + number)
        with open(os.path.join(corpus, str(number)), 'wb') as file_:
            file_.write(noise.randbytes(8 + 40 * number))
    atheris.Setup(
        [sys.argv[0], corpus, '-seed={}'.format(seed * 1009 + index + 1),
         '-max_len=4096', '-verbosity=0', '-rss_limit_mb=0', '-timeout=600',
         '-use_value_profile=1', '-artifact_prefix=' + os.getcwd() + '/'],
        one_input)
    atheris.Fuzz()


# --------------------------------------------------------------------------
# Parent

def child_env(cwd):
    env = dict(os.environ)
    env['PYTHONPATH'] = VERIF
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    # Never use or leave byte code in the repository.
    env['PYTHONPYCACHEPREFIX'] = os.path.join(cwd, 'pycache')
    env['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(cwd, 'hypo-store')
    for name in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        env[name] = '1'
    return env


def read_known(prop):
    """Entries of known_findings.txt: {key: description}."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as file_:
            for line in file_:
                parts = line.strip().split(' ', 3)
                if parts[0] == 'known:' and parts[1] == 'property=' + prop:
                    out[parts[2].split('=', 1)[1]] = parts[3]
    return out


def save_replay(prop, case, message):
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    digest = hashlib.sha1(case_json(case).encode()).hexdigest()[:12]
    path = os.path.join(folder, '{}-{}.json'.format(prop, digest))
    with open(path, 'w') as file_:
        json.dump({'property': prop, 'message': message, 'case': case}, file_,
                  indent=1)
    return path


def replay_in_child(prop, path, cwd):
    return subprocess.run(
        [sys.executable, '-m', 'dschpbt.run', prop, '--replay', path],
        cwd=cwd, env=child_env(cwd), stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True)


def parent(prop, tier, seed):
    start = time.time()
    workers = int(os.environ.get('VERIF_WORKERS') or
                  min(8, os.cpu_count() or 1))
    work = tempfile.mkdtemp(prefix='dschpbt-')
    try:
        return run_all(prop, tier, seed, workers, work, start)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_all(prop, tier, seed, workers, work, start):
    os.environ.update({k: v for k, v in child_env(work).items()
                       if k not in ('PYTHONPATH',)})
    sys.dont_write_bytecode = True
    check = load_check(prop)
    total = int(os.environ.get('VERIF_CASES') or
                (check.QUICK if tier == 'quick' else check.THOROUGH))
    per_worker = max(1, -(-total // workers))
    fuzz = os.environ.get('VERIF_FUZZ')
    fuzz = int(fuzz) if fuzz else 0 if tier == 'quick' else per_worker // 4
    deadline = start + TIME_LIMIT[tier]
    errors = []
    results = run_workers(prop, 'w', workers, per_worker, seed, work, deadline,
                          errors)
    if fuzz and not any(r['case'] is not None for r in results):
        results += run_workers(prop, 'f', workers, fuzz, seed, work, deadline,
                               errors)
    labels = collections.Counter()
    nontrivial = set()
    samples = []
    for result in results:
        labels.update(result['labels'])
        nontrivial.update(result['nontrivial'])
        samples += result['samples']
        if result['status'] in ('error', 'flaky'):
            errors.append(result['error'])

    # Known findings and repaired defects with dedicated inputs.
    lines, failures = [], []
    known = read_known(prop)
    scratch = os.path.join(work, 'probe')
    for key, probe in sorted(getattr(check, 'PROBES', {}).items()):
        case = {'probe': key}
        expected = key in known
        try:
            message = run_probe(probe, scratch)
        except Exception as err:
            # Not what the finding is about.
            message = 'unexpected {}: {}'.format(type(err).__name__, err)
            expected = False
        if message is None:
            continue
        if expected:
            lines.append('KNOWN-FINDING: property={} {} ({})'.format(
                prop, known[key], message))
        else:
            failures.append((case, message))

    found = [r for r in results if r['case'] is not None]
    found.sort(key=lambda r: (len(case_json(r['case'])), case_json(r['case'])))
    sequences = []
    for result in found[:3]:
        path = save_replay(prop, result['case'], result['message'])
        again = replay_in_child(prop, path, work)
        if again.returncode == 1:
            failures.append((result['case'], result['message']))
        else:
            os.unlink(path)
            errors.append('not reproduced: {}\n{}'.format(
                result['message'], again.stdout[-2000:]))
            if not result.get('fuzz'):
                sequences.append(result)
    if sequences and not failures:
        # The case alone passes, but maybe it depends on what the process did
        # before: repeat the same sequence of cases.
        for result in sequences:
            case = {'worker': result['index'], 'count': workers,
                    'cases': per_worker, 'seed': seed}
            message = run_sequence(prop, case, work)
            if message is not None:
                failures.append((case, message))
                break

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': len(nontrivial),
            'rule': check.RULE,
            'samples': samples[:5],
            'classes': dict(sorted(labels.items())),
            'workers': workers,
            'coverage_guided': sum(r['evaluations'] for r in results
                                   if r.get('fuzz')),
        },
        'assumptions': list(getattr(check, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - start, 2),
        'violations': len(failures),
    }
    folder = os.path.join(VERIF, 'evidence')
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, prop + '.json'), 'w') as file_:
        json.dump(evidence, file_, indent=1)
        file_.write('\n')

    for line in lines:
        print(line)
    cov = evidence['coverage']
    print('{}: {} cases, {} distinct non-trivial, {} s'.format(
        prop, cov['evaluations'], cov['distinct_nontrivial'],
        evidence['wall_s']))
    if failures:
        case, message = failures[0]
        path = save_replay(prop, case, message)
        print('  ' + message.replace('\n', '\n  '))
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if errors:
        print('{} errors of the check, the first one:\n{}'.format(
            len(errors), errors[0][-3000:]), file=sys.stderr)
        return 2
    return 0


def run_workers(prop, mode, workers, cases, seed, work, deadline, errors):
    """Run the workers in parallel; return their results."""
    procs, outs = [], []
    for index in range(workers):
        cwd = os.path.join(work, '{}{}'.format(mode, index))
        os.makedirs(cwd)
        out = os.path.join(work, 'out{}{}.json'.format(mode, index))
        outs.append(out)
        with open(os.path.join(cwd, 'log'), 'w') as log:
            # libFuzzer is talkative.
            procs.append(subprocess.Popen(
                [sys.executable, '-m', 'dschpbt.run', prop, '--worker',
                 str(index), '--count', str(workers), '--cases', str(cases),
                 '--seed', str(seed), '--out', out]
                + ['--fuzz'] * (mode == 'f'), cwd=cwd, env=child_env(work),
                stdout=log if mode == 'f' else None,
                stderr=log if mode == 'f' else None))
    for index, proc in enumerate(procs):
        try:
            code = proc.wait(timeout=max(1, deadline - time.time()))
            if code != 0:
                errors.append('worker {}{} ended with {}'.format(mode, index,
                                                                 code))
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.wait()
            errors.append('worker {}{} exceeded the time limit'.format(mode,
                                                                       index))
    results = []
    for out in outs:
        if os.path.exists(out):
            with open(out) as file_:
                results.append(json.load(file_))
    return results


def run_sequence(prop, case, work):
    """Repeat all cases of a worker; return the message of a violation."""
    cwd = tempfile.mkdtemp(prefix='sequence', dir=work)
    out = os.path.join(cwd, 'out.json')
    subprocess.run(
        [sys.executable, '-m', 'dschpbt.run', prop, '--worker',
         str(case['worker']), '--count', str(case['count']), '--cases',
         str(case['cases']), '--seed', str(case['seed']), '--out', out],
        cwd=cwd, env=child_env(cwd))
    if not os.path.exists(out):
        return None
    with open(out) as file_:
        result = json.load(file_)
    if result['case'] is None:
        return None
    return '{} (only after other cases in the same process)'.format(
        result['message'])


def run_probe(probe, scratch):
    """Run a probe; return a message if its finding still shows."""
    from . import Violation
    os.makedirs(scratch)
    try:
        return probe(scratch)
    except Violation as err:
        return str(err)
    finally:
        close_hdf5()
        shutil.rmtree(scratch, ignore_errors=True)


def replay(prop, path):
    from . import Violation
    check = load_check(prop)
    with open(path) as file_:
        case = json.load(file_)['case']
    scratch = tempfile.mkdtemp(prefix='dschpbt-')
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        if set(case) == {'worker', 'count', 'cases', 'seed'}:
            message = run_sequence(prop, case, scratch)
            if message is not None:
                raise Violation(message)
        elif set(case) == {'probe'}:
            message = run_probe(check.PROBES[case['probe']],
                                os.path.join(scratch, 'case'))
            if message is not None:
                raise Violation(message)
        else:
            execute(check, case, os.path.join(scratch, 'case'))
    except Violation as err:
        print('  {}'.format(err))
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    print('{}: the case passes'.format(prop))
    return 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('prop')
    parser.add_argument('--replay')
    parser.add_argument('--worker', type=int)
    parser.add_argument('--count', type=int)
    parser.add_argument('--cases', type=int)
    parser.add_argument('--seed', type=int)
    parser.add_argument('--out')
    parser.add_argument('--fuzz', action='store_true')
    args = parser.parse_args()
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if args.fuzz:
        fuzz_worker(args.prop, args.worker, args.cases, args.seed, args.out)
        return 1
    if args.worker is not None:
        worker(args.prop, args.worker, args.count, args.cases, args.seed,
               args.out)
        return 0
    if args.replay:
        return replay(args.prop, args.replay)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    return parent(args.prop, tier, seed)


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
