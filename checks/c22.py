"""C22 Storages in one process do not affect each other."""
import copy
import os

from hypothesis import strategies as st

import dsch
from dschpbt import gen, history, require
from dschpbt import spec as sp
from dschpbt.files import BACKENDS, end_session, read_bytes, storage_path

QUICK, THOROUGH = 8400, 150000
RULE = ('case = one or two schemas and a history of steps on several storages living at the same time (create, edit, '
        'copy a node between storages, save, save as, reload, drop, use through a pseudo-storage, change a separately '
        'built schema), some of them created from the very same schema object; after every step all storages are '
        'compared with their models and all files not written to with their content; non-trivial = at least two '
        'storages at once, both edited, and at least one of them saved or copied')
CFG = {'depths': [0, 1, 1, 2, 2, 3], 'width': 3, 'soc': 'yes',
       'constraints': False}
STEPS = ('edit', 'edit', 'edit', 'edit', 'edit', 'new', 'copy', 'save',
         'reload', 'save_as', 'drop', 'drop', 'pseudo', 'schema', 'fail')


def start(case):
    return {'live': {}, 'next': 0, 'saved': {}}


def advance(case, model, step):
    """Apply a step to the model; model is changed in place."""
    kind, live = step[0], model['live']
    if kind == 'new':
        live[model['next']] = {
            'spec': step[1], 'backend': step[2],
            'state': copy.deepcopy(step[4])}
        model['next'] += 1
    elif kind in ('edit', 'pseudo'):
        entry = live[step[1]]
        entry['state'] = history.apply_model(
            case['specs'][entry['spec']], entry['state'], step[2])
    elif kind == 'copy':
        source = sp.state_at(live[step[1]]['state'], step[3])
        live[step[2]]['state'] = sp.set_state(
            live[step[2]]['state'], step[4], copy.deepcopy(source))
    elif kind == 'save_as':
        live[model['next']] = dict(copy.deepcopy(live[step[1]]),
                                   backend=step[2])
        model['next'] += 1
    elif kind == 'drop':
        del live[step[1]]


@st.composite
def draw_step(draw, case, model):
    live, specs = model['live'], case['specs']
    kind = draw(st.sampled_from(STEPS)) if live else 'new'
    if kind == 'new' and len(live) >= 5:
        kind = 'edit'
    if kind == 'new' or len(live) < 2:
        index = draw(st.integers(0, len(specs) - 1))
        return ['new', index, draw(st.sampled_from(BACKENDS)),
                draw(st.sampled_from(['shared', 'shared', 'own'])),
                draw(gen.valid_state(specs[index], draw(st.sampled_from(
                    [0.0, 0.5, 0.75, 1.0]))))]
    number = draw(st.sampled_from(sorted(live)))
    entry = live[number]
    spec = specs[entry['spec']]
    if kind in ('edit', 'pseudo'):
        return [kind, number, draw(history.operation(
            spec, entry['state'], history.DEFAULT_KINDS))]
    if kind == 'copy':
        pairs = []
        for other in sorted(live):
            for path, sub, _ in sp.paths(specs[live[other]['spec']],
                                         live[other]['state']):
                for mine, own, _ in sp.paths(spec, entry['state']):
                    if len(pairs) < 40 and other != number \
                            and sp.canon_json(sub) == sp.canon_json(own):
                        pairs.append([other, list(path), list(mine)])
        if pairs:
            other, path, mine = draw(st.sampled_from(pairs))
            return ['copy', other, number, path, mine]
        kind = 'save'
    if kind == 'save_as':
        if len(live) >= 6:
            return ['save', number]
        return ['save_as', number, draw(st.sampled_from(BACKENDS))]
    if kind == 'drop':
        return ['drop', number, draw(st.integers(0, 2))]
    return [kind, number]


@st.composite
def strategy_(draw):
    specs = [draw(gen.top_spec(CFG))]
    if draw(st.booleans()):
        specs.append(draw(st.one_of(gen.top_spec(CFG), gen.mutated(
            specs[0], depends=False).filter(gen.sane), st.just(specs[0]))))
    case = {'specs': specs, 'steps': []}
    model = start(case)
    for _ in range(draw(st.integers(4, 14))):
        step = draw(draw_step(case, model))
        case['steps'].append(step)
        advance(case, model, step)
    return case


def strategy():
    return strategy_()


def classify(case):
    tags, model = set(), start(case)
    edited, at_once, moved = set(), 0, False
    for step in case['steps']:
        tags.add(step[0])
        advance(case, model, step)
        at_once = max(at_once, len(model['live']))
        if step[0] == 'new':
            tags.update((step[2], step[3]))
        if step[0] in ('edit', 'pseudo'):
            edited.add(step[1])
        moved |= step[0] in ('copy', 'save', 'save_as')
    tags.add('{} at once'.format(at_once))
    tags.add('{} schemas'.format(len(case['specs'])))
    if len(edited) >= 2 and at_once >= 2 and moved:
        tags.add('nontrivial')
    return sorted(tags)


class World:
    def __init__(self, case, scratch):
        self.case, self.scratch = case, scratch
        self.model = start(case)
        self.live, self.path, self.content = {}, {}, {}
        self.shared = [sp.build(spec) for spec in case['specs']]
        self.own, self.free = {}, {}
        self.texts = [sp.canon_json(spec) for spec in case['specs']]

    def new_path(self, number, backend):
        self.path[number] = storage_path(self.scratch, backend,
                                         's{}'.format(number))
        if self.free.get(backend):
            # The path of a storage that was removed.
            self.path[number] = self.free[backend].pop()
        return self.path[number]

    def note(self, number):
        """Remember what a file holds."""
        path = self.path[number]
        self.content.pop(number, None)
        if path != '::inmem::' and not path.endswith('.h5') \
                and os.path.exists(path):
            self.content[number] = read_bytes(path)

    def spec(self, number):
        return self.case['specs'][self.model['live'][number]['spec']]

    def step(self, step):
        kind = step[0]
        if kind == 'new':
            number = self.model['next']
            node = self.shared[step[1]]
            if step[3] == 'own':
                node = self.own[number] = sp.build(self.case['specs'][step[1]])
            self.live[number] = dsch.create(self.new_path(number, step[2]),
                                            node)
            sp.fill(self.live[number].data, self.case['specs'][step[1]],
                    step[4])
        elif kind == 'edit':
            history.apply_dsch(self.spec(step[1]), self.live[step[1]].data,
                               step[2])
        elif kind == 'pseudo':
            spec = self.spec(step[1])
            with dsch.PseudoStorage(self.live[step[1]].data, sp.build(spec),
                                    bool(step[1] % 2)) as pseudo:
                history.apply_dsch(spec, pseudo.data, step[2])
        elif kind == 'copy':
            target = sp.node_at(self.live[step[2]].data, step[4])
            target.load_from(sp.node_at(self.live[step[1]].data, step[3]))
        elif kind == 'save':
            self.save(step[1])
        elif kind == 'save_as':
            number = self.model['next']
            path = self.new_path(number, step[2])
            self.live[number] = self.live[step[1]].save_as(path)
            self.note(number)
        elif kind == 'reload':
            if self.path[step[1]] != '::inmem::':
                self.save(step[1])
                self.live[step[1]] = None
                self.live[step[1]] = dsch.load(self.path[step[1]], force=True)
        elif kind == 'drop':
            path = self.path[step[1]]
            del self.live[step[1]]
            if step[2] and path != '::inmem::':
                self.content.pop(step[1], None)
                if os.path.exists(path):
                    os.remove(path)
                self.free.setdefault(self.model['live'][step[1]]['backend'],
                                     []).append(path)
        elif kind == 'schema':
            # Another schema of the same configuration is changed.
            node = sp.build(self.spec(step[1]))
            loaded = dsch.schema.node_from_json(node.to_json())
            for other in (node, loaded):
                spoil(other)
        elif kind == 'fail':
            try:
                self.live[step[1]].data.nothing_of_this_name = 1
            except (dsch.exceptions.ResetSubnodeError, AttributeError):
                pass
            node = self.live[step[1]].data
            if not isinstance(node, (dsch.data.Compilation, dsch.data.List)):
                return
            other = dsch.create('::inmem::', dsch.schema.Bytes(max_length=77))
            try:
                node.load_from(other.data)
            except dsch.exceptions.IncompatibleNodesError:
                pass
            else:
                require(False, 'loading from an incompatible node works')

    def save(self, number):
        if self.path[number] != '::inmem::':
            self.live[number].save(force=True)
            self.note(number)

    def check(self, what):
        for number, storage in self.live.items():
            entry = self.model['live'][number]
            mine = '{}, {} storage {}'.format(what, entry['backend'], number)
            spec = self.spec(number)
            sp.expect_state(storage.data, spec, entry['state'], mine)
            require(storage.schema_node.to_json()
                    == self.texts[entry['spec']], '{}: its schema is {}',
                    mine, sp.short(storage.schema_node.to_json()))
            require(storage.storage_path == self.path[number]
                    or entry['backend'] == 'inmem',
                    '{}: its path is {}', mine, storage.storage_path)
        for number, content in self.content.items():
            require(read_bytes(self.path[number]) == content,
                    '{}: the file of storage {} changed', what, number)
        for node, text in zip(self.shared, self.texts):
            require(node.to_json() == text, '{}: the schema object given to '
                    'create() is {} now', what, sp.short(node.to_json()))


def spoil(node):
    """Change the configuration of a schema."""
    if isinstance(node, dsch.schema.Compilation):
        for sub in node.subnodes.values():
            spoil(sub)
        node.subnodes.clear()
        node.optionals = list(node.optionals) + ['spoiled']
    elif isinstance(node, dsch.schema.List):
        spoil(node.subnode)
        node.max_length = 1
    elif hasattr(node, 'unit'):
        node.unit = 'spoiled'
    elif hasattr(node, 'max_length'):
        node.max_length = 0


def check(case, scratch):
    world = World(case, scratch)
    for number, step in enumerate(case['steps']):
        world.step(step)
        advance(case, world.model, step)
        world.check('step {} ({})'.format(number, step[0]))
    # In the end, all files are loaded again, last ones first.
    for number in sorted(world.live):
        world.save(number)
        world.check('saving storage {}'.format(number))
    numbers = [n for n in world.live if world.path[n] != '::inmem::']
    world.live.clear()
    end_session()
    for number in sorted(numbers, reverse=True):
        world.live[number] = dsch.load(world.path[number], force=True)
    world.check('after loading all files again')
