"""Write the corpus golden/: files written by the first release of the tree.

Usage (once; the result is committed):
  git -C /repo archive 50c6abf | tar x -C /tmp/base
  VERIF_REPO=/tmp/base /opt/venv/bin/python tools/make_golden.py

Only data that release could save without losses is used.
"""
import json
import os
import random
import sys

import numpy as np

np.object = object  # Used by the first release.
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

import dschpbt  # noqa: E402
import dsch  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase  # noqa: E402

from checks import c17  # noqa: E402
from dschpbt import gen, layout  # noqa: E402
from dschpbt import spec as sp  # noqa: E402
from dschpbt.files import end_session  # noqa: E402

GOLDEN = os.path.join(HERE, 'golden')
COUNT = 90


def lossless(spec, state, ext):
    if ext == '.mat' and not layout.mat_text_bytes(spec, state):
        return False
    if ext == '.npz' and not layout.npz_writable(spec, state):
        return False
    for _, sub, now in sp.paths(spec, state):
        if sub['t'] == 'Bytes' and now is not None:
            value = sp.decode(now)
            # Empty or padded bytes were not saved correctly.
            if not value or (ext == '.npz' and value.endswith(b'\0')):
                return False
    return True


def main():
    assert dschpbt.REPO != '/repo'
    os.makedirs(GOLDEN, exist_ok=True)
    found = []

    @hypothesis.seed(4711)
    @hypothesis.settings(max_examples=1500, database=None, deadline=None,
                         phases=(Phase.generate,),
                         suppress_health_check=list(HealthCheck))
    @hypothesis.given(gen.top_spec({'soc': 'yes', 'width': 5}).flatmap(
        lambda s: hypothesis.strategies.tuples(
            hypothesis.strategies.just(s), gen.valid_state(s, 0.9))))
    def collect(pair):
        found.append(json.loads(json.dumps(pair)))

    collect()
    random.Random(1).shuffle(found)
    cases, seen = [], set()
    for spec, state in found:
        if len(cases) >= COUNT:
            break
        state = c17.gapless(spec, state)
        text = json.dumps([spec, state], sort_keys=True)
        filled = [s['t'] for _, s, now in sp.paths(spec, state)
                  if sp.is_leaf(s) and now is not None]
        if text in seen or len(text) > 6000 or len(filled) < 2 \
                or any(n['t'] == 'Comp' and not n['fields']
                       for _, n in gen.spec_paths(spec)):
            continue
        if any(now is not None and now[0] == 'arr' and
               int(np.prod(now[2], dtype=int)) > 60
               for _, s, now in sp.paths(spec, state) if sp.is_leaf(s)):
            continue
        seen.add(text)
        files = []
        for ext in ('.h5', '.npz', '.mat'):
            if not lossless(spec, state, ext):
                continue
            name = 'g{:03d}{}'.format(len(cases), ext)
            path = os.path.join(GOLDEN, name)
            if os.path.exists(path):
                os.unlink(path)
            try:
                storage = dsch.create(path, sp.build(spec))
                sp.fill(storage.data, spec, state)
                storage.save(force=True)
                del storage
                files.append(name)
            except Exception as err:
                print(name, type(err).__name__, err)
                if os.path.exists(path):
                    end_session()
                    os.unlink(path)
            end_session()
        if files:
            cases.append({'spec': spec, 'state': state, 'files': files})
    with open(os.path.join(GOLDEN, 'cases.json'), 'w') as file_:
        json.dump(cases, file_)
        file_.write('\n')


main()
