"""C13 Storages are created and loaded at exactly the given path."""
import os

from hypothesis import strategies as st

import dsch
from dschpbt import Violation, gen, require
from dschpbt import spec as sp
from dschpbt.files import end_session, listing

QUICK, THOROUGH = 12600, 250000
RULE = ('case = a few related paths (directories, dots, spaces, hidden, known, unknown and nearly known endings, missing '
        'parent), some occupied by other files or directories, and a history of creating, copying, loading and opening '
        'with or without naming the backend; the outcome of each step and every file below the directory are compared '
        'with a model; non-trivial = at least one storage is saved and loaded, and another step is refused')
CFG = {'depths': [0, 1, 1], 'width': 2, 'constraints': False,
       'depends': False}
INMEM = '::inmem::'
KNOWN = {'.npz': 'npz', '.h5': 'hdf5', '.hdf5': 'hdf5', '.mat': 'mat'}
DIRS = ('', '', '', 'sub/', './', 'sub/../', 'ä b/', 'd.npz/', '/', '',
        'missing/', '~/', '$DSCH_X/', 'lïnk/', 'lïnk/../')
# A link to a directory, so that "lïnk/.." is not the directory of the link.
LINK, LINKED = 'lïnk', 'deep/er'
BASES = ('a', 'a', 'b', '.a', 'a.b', 'a b', 'ä', 'npz', 'a.npz', 'a.h5',
         'a.mat', 'h5', '', 'a.hdf5.bak', 'A', '%s', 'a*', '-a', "a'b",
         INMEM, 'file.tar', '$DSCH_X', 'a${DSCH_X}', '%DSCH_X%', '~', '~root',
         'a\\b', 'a:b', 'file:a', 'a?', '[a]', '{}', '#', ' a', 'a\n', '!',
         'x' * 120)
ENDINGS = ('.npz', '.h5', '.hdf5', '.mat', '.npz', '.h5', '.mat', '', '',
           '.npy', '.txt', '.', 'npz', 'h5', '.hdf', '.mat5', '.npz~',
           '.npz.mat', '.mat.npz', '.h5.npz', '.npz ', '.zip')
BACKENDS = ('npz', 'hdf5', 'mat')


@st.composite
def path(draw):
    dir_ = draw(st.sampled_from(DIRS))
    base = draw(st.one_of(
        st.sampled_from(BASES), st.sampled_from(BASES), st.sampled_from(BASES),
        st.text(st.characters(blacklist_categories=('Cs', 'Cn', 'Co'),
                              blacklist_characters='/\0'), max_size=6)))
    ending = draw(st.sampled_from(ENDINGS))
    return dir_ + ((base + ending) or 'x')


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(CFG))
    first = draw(path())
    pool = [first]
    for _ in range(draw(st.integers(0, 2))):
        pool.append(draw(st.one_of(
            path(), st.sampled_from(ENDINGS[:-1]).map(lambda e: first + e),
            st.just(os.path.splitext(first)[0] or 'y'))))
    pool = [p for p in pool if os.path.basename(p) not in ('', '.', '..')]
    pool = pool or ['a']
    others = []
    if draw(st.integers(0, 2)) == 0:
        others.append([draw(st.sampled_from(pool)),
                       draw(st.sampled_from(['file', 'empty', 'dir']))])
    steps = []
    for _ in range(draw(st.integers(3, 8))):
        kind = draw(st.sampled_from(['create', 'create', 'load', 'load',
                                     'load', 'load', 'save_as', 'create_from',
                                     'open', 'memory']))
        steps.append([kind, draw(st.integers(0, len(pool) - 1)),
                      draw(st.sampled_from([None] * 6 + ['npz', 'hdf5', 'mat']
                                           * 2 + ['same'] * 4 + ['inmem'])),
                      draw(st.integers(0, 1))])
    return {'spec': spec, 'states': [draw(gen.valid_state(spec)) for _ in
                                     range(2)],
            'paths': pool, 'others': others, 'steps': steps}


def strategy():
    return strategy_().filter(lambda c: c['paths'])


def autodetect(name):
    if name == INMEM:
        return 'inmem'
    for ending, backend in KNOWN.items():
        if name.endswith(ending):
            return backend
    return None


class World:
    """The directory (or only a model of it) during a history.

    files: normalized absolute path -> (backend, state number), or 'other'.
    """

    def __init__(self, case, scratch):
        self.case = case
        self.root = os.path.join(scratch, 'root')
        self.files = {}
        self.log = []
        self.dirs = {self.root} | {os.path.join(self.root, d)
                                   for d in ('sub', 'ä b', 'd.npz', 'deep',
                                             'deep/er')}
        for name, kind in case['others']:
            key = self.key(name)
            if os.path.dirname(key) not in self.dirs:
                continue
            if kind == 'dir':
                self.dirs.add(key)
            elif key not in self.dirs:
                self.files[key] = 'other'

    def name(self, number):
        name = self.case['paths'][number]
        return self.root + name if name.startswith('/') else name

    def key(self, name):
        if name.startswith('/') and not name.startswith(self.root):
            name = self.root + name
        if name.startswith(LINK + '/'):
            name = LINKED + name[len(LINK):]
        return os.path.normpath(os.path.join(self.root, name))

    def expected(self, step):
        """(outcome, backend) of a step; outcome is 'ok' or an error."""
        kind, number, named, _ = step
        name = self.name(number)
        key = self.key(name)
        exists = key in self.files or key in self.dirs
        named = self.backend_argument(step)
        if kind == 'memory':
            return 'ok', 'inmem'
        backend = named or autodetect(name)
        if kind == 'open':
            # A pseudo-storage only detects backends.
            backend = autodetect(name)
            kind = 'load' if exists else 'create'
        if backend is None:
            return 'AutodetectBackendError', None
        if backend == 'inmem':
            # There are no paths in memory, and nothing to load from.
            if kind == 'load' or name != INMEM:
                return 'refused', backend
            return 'ok', backend
        if kind == 'load':
            if not exists:
                return 'FileNotFoundError', backend
            if self.files.get(key, 'other')[0] != backend:
                return 'refused', backend
            return 'ok', backend
        if exists:
            return 'FileExistsError', backend
        if os.path.dirname(key) not in self.dirs:
            return 'no parent', backend
        return 'ok', backend

    def backend_argument(self, step):
        if step[2] == 'same':
            known = self.files.get(self.key(self.name(step[1])), 'other')
            return known[0] if known != 'other' else 'npz'
        return step[2]

    def apply(self, step, expected):
        outcome, backend = expected
        self.log.append(outcome if outcome != 'ok' else
                        'load' if step[0] == 'load' else 'save')
        if outcome == 'ok' and backend != 'inmem' and step[0] != 'load':
            key = self.key(self.name(step[1]))
            if step[0] != 'open' or key not in self.files:
                self.files[key] = (backend, step[3])


def classify(case):
    world = World(case, '/scratch')
    tags = set()
    for step in case['steps']:
        expected = world.expected(step)
        tags.add('{}: {}'.format(step[0], expected[0]))
        if expected[0] == 'ok' and step[0] != 'memory':
            name = world.name(step[1])
            auto = autodetect(name)
            if auto is None:
                tags.add('saved or loaded, unknown ending')
            elif auto != expected[1]:
                tags.add('saved or loaded, other ending')
            if expected[1] != 'inmem' and \
                    os.path.basename(name).count('.') > 1:
                tags.add('several dots')
        world.apply(step, expected)
    if 'save' in world.log and 'load' in world.log and \
            set(world.log) - {'save', 'load'}:
        tags.add('nontrivial')
    return sorted(tags)


def check(case, scratch):
    world = World(case, scratch)
    for dir_ in sorted(world.dirs):
        os.makedirs(dir_, exist_ok=True)
    os.symlink(LINKED, os.path.join(world.root, LINK))
    for name, kind in case['others']:
        key = world.key(name)
        if key in world.files:
            with open(key, 'wb') as file_:
                file_.write(b'' if kind == 'empty' else b'something else\n')
    cwd = os.getcwd()
    os.chdir(world.root)
    # Nothing of a path is to be expanded.
    home = os.environ.get('HOME')
    os.environ['HOME'] = os.path.join(world.root, 'sub')
    os.environ['DSCH_X'] = 'sub'
    try:
        for number, step in enumerate(case['steps']):
            run_step(world, step, 'step {} ({} {!r}, backend {!r})'.format(
                number, step[0], world.name(step[1]),
                world.backend_argument(step)))
    finally:
        os.chdir(cwd)
        del os.environ['DSCH_X']
        if home is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = home


def run_step(world, step, what):
    outcome, backend = expected = world.expected(step)
    key = world.key(world.name(step[1]))
    before = listing(world.root)
    try:
        perform(world, step, what, backend)
    except Violation:
        raise
    except Exception as err:
        name = type(err).__name__
        if outcome == 'ok':
            raise Violation('{}: {}: {}'.format(what, name, err)) from err
        if outcome == 'no parent':
            require(isinstance(err, OSError), '{}: {}: {}', what, name, err)
        elif outcome != 'refused':
            require(name == outcome, '{}: {} ({}) instead of {}', what, name,
                    err, outcome)
        del err
        end_session()
        # The HDF5 library itself turns an empty file into an HDF5 file.
        touched = os.path.relpath(key, world.root) if \
            outcome == 'refused' and backend == 'hdf5' and key in world.files \
            and step[0] in ('load', 'open') else None
        after = listing(world.root)
        require(touched is None or touched in after, '{}: {!r} has '
                'disappeared', what, touched)
        expect_files(world, before, after, touched, what)
        world.apply(step, expected)
        return
    require(outcome == 'ok', '{}: no error, expected {}', what, outcome)
    end_session()
    written = os.path.relpath(key, world.root) if backend != 'inmem' else None
    after = listing(world.root)
    if written is not None:
        require(after.get(written) is not None, '{}: there is no file {!r}, '
                'but {}', what, written, sorted(after))
        if step[0] == 'load' and backend != 'hdf5':
            written = None
    expect_files(world, before, after, written, what)
    world.apply(step, expected)


def expect_files(world, before, after, written, what):
    for name in sorted(set(before) | set(after)):
        if name == written:
            continue
        require(name in after, '{}: {!r} has disappeared', what, name)
        require(name in before, '{}: {!r} has appeared', what, name)
        require(before[name] == after[name], '{}: {!r} has changed', what,
                name)


def perform(world, step, what, backend):
    kind, number, _, which = step
    case = world.case
    spec, state = case['spec'], case['states'][which]
    name = world.name(number)
    named = world.backend_argument(step)
    # Options that are not needed are sometimes left out.
    kwargs = {} if named is None and which else {'backend': named}
    if kind == 'memory':
        storage = dsch.create(INMEM, sp.build(spec))
        sp.fill(storage.data, spec, state)
        expect_module(storage, 'inmem', what)
        return
    if kind == 'load':
        storage = dsch.load(name, **kwargs)
        known = world.files.get(world.key(name), 'other')
        require(known != 'other', '{}: loaded although there is no storage',
                what)
        saved = case['states'][known[1]]
        expect_module(storage, backend, what)
        require(storage.schema_node.to_json() == sp.canon_json(spec),
                '{}: wrong schema', what)
        sp.expect_state(storage.data, spec, saved, what)
        return
    if kind == 'open':
        exists = world.files.get(world.key(name), 'other')
        pseudo = dsch.PseudoStorage(name, sp.build(spec))
        expect_module(pseudo.storage, backend, what)
        if exists != 'other':
            sp.expect_state(pseudo.data, spec, case['states'][exists[1]],
                            what)
        else:
            sp.fill(pseudo.data, spec, state)
        pseudo.close()
        return
    if kind == 'create':
        storage = dsch.create(name, sp.build(spec), **kwargs)
        sp.fill(storage.data, spec, state)
    else:
        source = dsch.create(INMEM, sp.build(spec))
        sp.fill(source.data, spec, state)
        if kind == 'save_as':
            storage = source.save_as(name, **kwargs)
        else:
            storage = dsch.create_from(name, source, **kwargs)
    expect_module(storage, backend, what)
    require(storage.storage_path == name, '{}: storage_path is {!r}', what,
            storage.storage_path)
    if backend != 'inmem':
        storage.save()
        storage.save()
        sp.expect_state(storage.data, spec, state, what)


def expect_module(storage, backend, what):
    module = type(storage).__module__
    require(module == 'dsch.backends.' + backend,
            '{}: used the backend {}, expected {}', what, module, backend)
