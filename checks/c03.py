"""C03 A file always holds the state of the last save, across sessions."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

import dsch
from dschpbt import Violation, gen, history, require
from dschpbt import spec as sp
from dschpbt.files import BACKEND_OF, EXTENSIONS, copy_of, end_session, \
    read_bytes, storage_path

QUICK, THOROUGH = 5700, 120000
RULE = ('case = format + schema spec + history over sessions: edits, save, reopen (after closing or while still open), '
        'open-only; after every save and at every reopening the file (and a byte copy of it) is loaded and compared '
        'with the model of the last save; non-trivial = a save over an earlier save with a different state, or '
        'a reopening with unsaved edits')
ASSUMPTIONS = [
    'HDF5 files are edited in place (known finding): unsaved edits may be in the file; the check accepts either the '
    'last saved or the last edited state there, nothing else.',
    'The end of a process is modelled by closing all open files, and by copying the file right after a save.']
CFG = {'depths': [0, 1, 2, 2, 3], 'width': 3, 'depends': False, 'soc': 'yes'}


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(CFG))
    state = sp.blank(spec)
    steps = []
    start = draw(st.booleans())
    if start:
        state = draw(gen.valid_state(spec))
        steps.append(['fill', state])
        steps.append(['save'])
    for _ in range(draw(st.integers(1, 4))):
        ops = draw(history.history(spec, state, max_ops=4))
        steps += [['edit', op] for op in ops]
        state = history.run_model(spec, state, ops)[-1]
        steps.append([draw(st.sampled_from(
            ['save', 'save', 'save', 'reopen', 'abandon', 'look']))])
        if draw(st.integers(0, 2)) == 0:
            steps.append([draw(st.sampled_from(['reopen', 'abandon']))])
        # Reopening without saving loses edits of unsaved states; generation
        # continues from the state that will actually be there.
        state = _final(spec, steps)
    return {'spec': spec, 'steps': steps,
            'ext': draw(st.sampled_from(EXTENSIONS))}


def _final(spec, steps):
    """State and validity of later operations; edits apply to any format."""
    current, saved = sp.blank(spec), sp.blank(spec)
    for step in steps:
        if step[0] == 'fill':
            current = step[1]
        elif step[0] == 'edit':
            if applicable(spec, current, step[1]):
                current = history.apply_model(spec, current, step[1])
        elif step[0] == 'save':
            saved = current
        elif step[0] in ('reopen', 'abandon'):
            current = saved
    return current


def applicable(spec, state, op):
    """Whether an operation makes sense in a state (paths may be gone)."""
    try:
        history.apply_model(spec, state, op)
    except (IndexError, KeyError, TypeError, ValueError, AssertionError):
        return False
    return True


def strategy():
    return strategy_()


def classify(case):
    tags = {case['ext']}
    current, saves = sp.blank(case['spec']), 0
    saved = copy.deepcopy(current)
    for step in case['steps']:
        tags.add(step[0])
        if step[0] == 'fill':
            current = step[1]
        elif step[0] == 'edit':
            if applicable(case['spec'], current, step[1]):
                current = history.apply_model(case['spec'], current, step[1])
        elif step[0] == 'save':
            if saves and saved != current:
                tags.update(['nontrivial', 'save over different state'])
            saves += 1
            saved = copy.deepcopy(current)
        elif step[0] in ('reopen', 'abandon'):
            if saved != current:
                tags.update(['nontrivial', 'unsaved edits dropped'])
            current = saved
    return sorted(tags)


class Session:
    """The storage under test together with the reference model."""

    def __init__(self, case, scratch):
        self.spec, self.ext = case['spec'], case['ext']
        self.path = storage_path(scratch, BACKEND_OF[self.ext])
        self.current = sp.blank(self.spec)
        self.saved = None
        self.content = None
        self.create()

    def create(self):
        self.storage = dsch.create(self.path, sp.build(self.spec))
        # Clears automatic timestamps.
        sp.fill(self.storage.data, self.spec, sp.blank(self.spec))

    def save(self, what):
        force = bool(sp.tree_violations(self.spec, self.current))
        self.storage.save(force=force)
        self.saved = copy.deepcopy(self.current)
        sp.expect_state(self.storage.data, self.spec, self.current,
                        what + ', in memory after saving')
        self.content = read_bytes(self.path)
        self.check_copy(what + ', copy of the file after saving')

    def check_copy(self, what):
        path = copy_of(self.path)
        data = dsch.load(path, force=True).data
        sp.expect_state(data, self.spec, self.saved, what)
        del data
        if self.ext != '.h5':
            require(read_bytes(path) == self.content,
                    '{}: loading changed the file', what)
        os.unlink(path)

    def reopen(self, what, close):
        self.storage = None
        if close:
            end_session()
        if self.ext != '.h5' and self.content is None:
            require(not os.path.exists(self.path),
                    '{}: a file exists although nothing was saved', what)
            self.create()
            self.current = sp.blank(self.spec)
            return
        if self.ext != '.h5':
            require(read_bytes(self.path) == self.content,
                    '{}: the file changed since it was saved', what)
        self.storage = dsch.load(self.path, force=True)
        require(self.storage.schema_node.to_json() == sp.canon_json(self.spec),
                '{}: schema changed', what)
        if self.ext == '.h5':
            # Known finding: edits are written through to the file.
            options = [self.current]
            if self.content is not None:
                options.insert(0, self.saved)
            for number, state in enumerate(options):
                try:
                    sp.expect_state(self.storage.data, self.spec, state, what)
                    break
                except Violation:
                    if number == len(options) - 1:
                        raise
            self.current = copy.deepcopy(state)
        else:
            sp.expect_state(self.storage.data, self.spec, self.saved, what)
            self.current = copy.deepcopy(self.saved)


def check(case, scratch):
    spec = case['spec']
    session = Session(case, scratch)
    for number, step in enumerate(case['steps']):
        what = '{} step {} ({})'.format(case['ext'], number, step[0])
        if step[0] == 'fill':
            sp.fill(session.storage.data, spec, step[1])
            session.current = copy.deepcopy(step[1])
        elif step[0] == 'edit':
            if applicable(spec, session.current, step[1]):
                history.apply_dsch(spec, session.storage.data, step[1])
                session.current = history.apply_model(spec, session.current,
                                                      step[1])
        elif step[0] == 'save':
            session.save(what)
        elif step[0] == 'reopen':
            session.reopen(what, True)
        elif step[0] == 'abandon':
            session.reopen(what, False)
        elif step[0] == 'look' and session.content is not None:
            # Open the file elsewhere without changing anything.
            if case['ext'] != '.h5':
                session.check_copy(what)
                other = dsch.load(session.path, force=True)
                sp.expect_state(other.data, spec, session.saved, what)
                require(read_bytes(session.path) == session.content,
                        '{}: merely loading changed the file', what)
        sp.expect_state(session.storage.data, spec, session.current,
                        what + ', in memory')
    session.reopen('{} at the end'.format(case['ext']), True)


def probe_write_through(scratch):
    path = os.path.join(scratch, 'p.h5')
    storage = dsch.create(path, dsch.schema.String(max_length=3))
    storage.data.value = 'abc'
    storage.save()
    storage.data.value = 'xyz'
    del storage
    end_session()
    value = dsch.load(path).data.value
    return None if value == 'abc' else '{!r} instead of {!r}'.format(value,
                                                                   'abc')


def probe_failed_save(ext, bad):
    def probe(scratch):
        path = os.path.join(scratch, 'f' + ext)
        storage = dsch.create(path, dsch.schema.Array('int32'))
        storage.data.value = np.array([1, 2], dtype='int32')
        storage.save()
        storage.data.value = bad
        try:
            storage.save(force=True)
        except Exception as err:
            if isinstance(err, MemoryError):
                raise
        else:
            return None
        try:
            value = dsch.load(path).data.value.tolist()
        except Exception as err:
            return 'reading the last save fails: {}'.format(
                type(err).__name__)
        return None if value == [1, 2] else '{!r} is read'.format(value)
    return probe


PROBES = {'write-through-hdf5': probe_write_through,
          'failed-save-npz': probe_failed_save('.npz', [[1], [1, 2]]),
          'failed-save-mat': probe_failed_save('.mat', object())}
