"""C26: new ids of learned BPE codes are unique."""
import re
from .world import *

META = dict(
    technique='constant propagation through the registry code over given states of the registry directory',
    level_note='Dataset names with regular expression metacharacters, digits, underscores and hyphens, with every kind of conflicting registered id '
               '(numbered, prefixes, extensions, suffixes, without computed merges), for configurations with and without an id suffix. '
               'Other names are covered only as far as the code does not treat further characters specially.',
    explanation='For each state of the registry the id that gets written is computed and compared with the ids in use: it has to differ from all of '
                'them, to be the plain name if that is free, and otherwise to carry the number after the highest one in use.',
)
NAMES = ('data', 'c++', 'a.b', 'x_1', 'v[0-9]+', 'a-1', '(x)', '$', '1k', 'data_7', 'back\\slash', '^a|b*?')
MERGES = ('10', '7')
NEW = sym('new_id', 'str')


def states(base):
    """Registered (id, has merges) sets for an id base."""
    b = base
    other = re.sub(r'[^a-z0-9_]', 'x', b) or 'x'
    return [
        [],
        [('other', True)],
        [(b, True)],
        [(b, False)],
        [(b, True), (b + '_1', True)],
        [(b, True), (b + '_1', False)],
        [(b, False), (b + '_3', False)],
        [(b + '_5', True)],
        [(b, True), (b + '_2', True), (b + '_11', True), (b + '_9', True)],
        [(b + '_10', True), (b, True), (b + '_9', False)],
        [(b, True), (b + '_4x', True), (b + '_', True), (b + '7', True), ('y' + b + '_8', True), (b + '_1_6', True)],
        [(b, True), (other, True), (other + '_3', True), (other + other + '_2', True), (b + b, True), (b + b + '_9', True)],
        [(b, True), (b[:-1] + '_12', True), (b[:-1] or 'q', True)],
        [(b, True), (b + '_yes', True), (b + '_yes_2', True)],
    ]


def check(ctx):
    ctx.rule('an id given by the user is taken unchanged')
    ctx.rule('an assigned id differs from the ids of all directories of the registry, with or without computed merges')
    ctx.rule('an assigned id is the name if that is not in use, and the name and the number after the highest number in use otherwise')
    ctx.rule('learning writes the id into the directory of the codes only if there is none yet, and what it writes is what is read back')
    for n in NAMES:
        for i in range(len(states('x'))):
            evaluate(ctx, n, i)
    for n in ('data', 'c++'):
        for kw in (dict(WORD_END=True), dict(UNICODE='no'), dict(UNICODE='bytes'), dict(WORD_END=True, UNICODE='no')):
            for i in range(len(states('x'))):
                evaluate(ctx, n, i, kw)
    given(ctx)
    learning(ctx)


def entry_for(ctx, w, path, got, id_=None, cfg=None):
    def entry(run):
        w.root = ctx.get(run, 'config', 'USER_BPE_DIR')
        got['fn'] = ctx.get(run, 'pipeline.bperegistry', 'create_new_id_from')
        c = cfg(run) if cfg else plain_bpe_config(ctx, run)
        return run.call(got['fn'], [C(path), c] + ([C(id_)] if id_ is not None else []))
    return entry


def tree_of(ids):
    tree = {}
    for k, (i, merges) in enumerate(ids):
        d = f'dir{k}_{k}'
        tree[d] = None
        tree[d + '/.name'] = i + ('\n' if k % 2 else '')
        tree[d + '/part_vocab'] = None
        if merges:
            for m in MERGES:
                tree[f'{d}/{m}/merges.txt'] = ''
        elif k % 2:
            tree[f'{d}/100.part'] = None
    tree['fresh'] = None
    tree['fresh/part_vocab'] = None
    return tree


def judge(ctx, what, res, base, ids, got):
    used = {i for i, _ in ids}
    if not res.paths:
        ctx.undecided(f'{what}: not evaluated')
    for p in res.paths:
        if p.outcome != 'return' or not (isinstance(p.value, C) and isinstance(p.value.v, str)):
            if p.outcome == 'raise':
                ctx.violation(got['fn'], f'{what}: no id is assigned ({p.value!r})', p, key='raises')
            else:
                ctx.undecided(f'{what}: {p.outcome} {p.value!r}')
            continue
        v = p.value.v
        if v in used:
            ctx.violation(got['fn'], f'{what}: the assigned id {v!r} is already in use', p, key='in use')
            continue
        ns = [int(m[1]) for m in (re.fullmatch(re.escape(base) + '_([0-9]+)', i) for i in used) if m]
        want = base if base not in used else f'{base}_{max(ns + [0]) + 1}'
        ctx.check(v == want, got['fn'], f'{what}: the assigned id is {v!r}, expected {want!r}', p, key='number')


def evaluate(ctx, name, i, cfg=None):
    base = name
    if cfg:
        r = ctx.explore(f'id suffix of {cfg}', lambda run: run.call(run.getattr(plain_bpe_config(ctx, run, **cfg), 'to_suffix'), []), Opts(), note=False)
        v = [p.value for p in r.paths]
        if len(v) != 1 or not isinstance(v[0], C) or not v[0].v:
            ctx.undecided(f'id suffix of {cfg}: {v}')
            return
        base = f'{name}_{v[0].v}'
    ids = states(base)[i]
    got = {}
    w = World(tree_of(ids))
    what = f'name {name!r}, base {base!r}, registered ' + (', '.join(a + ('' if m else ' (no merges yet)') for a, m in ids) or 'nothing')
    c = (lambda run: plain_bpe_config(ctx, run, **cfg)) if cfg else None
    res = ctx.explore(what, entry_for(ctx, w, '/data/' + name, got, None, c), w.opts(max_paths=50), note=False)
    judge(ctx, what, res, base, ids, got)


def given(ctx):
    got = {}
    w = World(tree_of([('mine', True)]))
    res = ctx.explore('id given', entry_for(ctx, w, '/data/x', got, 'given'), w.opts(max_paths=20))
    for p in res.paths:
        ctx.check(p.outcome == 'return' and p.value == C('given'), got['fn'], f'the given id is replaced by {p.value!r}', p, key='given')


def learning(ctx):
    """The command line: when an id is written, where, and which."""
    for idarg in (None, 'mine'):
        for state in (None, '', 'old', 'old\n'):
            learn(ctx, idarg, state)


def learn(ctx, idarg, state):
    got = {}

    def new_id(run, fn, args, kw, node):
        if isinstance(fn, Fn) and fn.cls is None and fn.name == 'create_new_id_from':
            a = dict(zip([x.arg for x in fn.node.args.args], args))
            a.update(kw)
            v = a.get('predefined_bpe_codes_id', NONE)
            run.asked = a
            return v if v == C('mine') else NEW
        if isinstance(fn, Fn) and fn.cls is None and fn.mod.name.endswith('pipeline.bpelearner'):
            run.emit('stage', name='learning')
            with quietly(run):
                run.dspath = canon(run.getattr(args[0], 'bpe_path'))
            return NONE
        return NotImplemented

    def is_name(path):
        p = canon(path)
        last = p.args[-1] if isinstance(p, T) and p.op == 'cat' else p
        return isinstance(last, C) and isinstance(last.v, str) and last.v.endswith('/.name')

    def ex(run, kind, path):
        return state is not None if is_name(path) else True

    def read(run, f, how):
        if is_name(f.path) and isinstance(state, str):
            return C(state) if how in ('all', 'line') else run.new_list([C(state)] if state else [])
        return NotImplemented

    def entry(run):
        args = {'--path': C('/data/x'), '--ext': NONE, '--id': C(idarg), '<n-merges>': C('10'), '--legacy': FALSE, '--verbose': FALSE,
                '--bytes': FALSE, '--word-end': FALSE, '--no-case': FALSE, '--no-unicode': FALSE, '--case-prefix': FALSE}
        d = run.alloc(HDict([(C(k), v) for k, v in args.items()], []))
        got['f'] = ctx.get(run, 'cli.impl', 'handle_learnbpe')
        return run.call(got['f'], [d])
    what = f'learn-bpe --id {idarg}, ' + ('no id yet' if not state else 'an id assigned')
    res = ctx.explore(what, entry, opts(new_id, exists_default=ex, read_hook=read))
    for p in res.paths:
        if p.outcome != 'return':
            continue
        writes = [e for e in p.events if e.kind == 'write' and e.path is not None and is_name(e.path)]
        learned = any(e.kind == 'stage' for e in p.events)
        if state and state.strip():
            ctx.check(not writes, writes[0] if writes else got['f'], f'{what}: the id is written again', p, key='reassigned')
            continue
        if not learned:
            continue
        if len(writes) != 1:
            ctx.check(len(writes) > 1, got['f'], f'{what}: no id is written before learning', p, key='not written')
            continue
        want = C('mine') if idarg else NEW
        ctx.check(fz(writes[0].data) == want, writes[0], f'{what}: {fz(writes[0].data)!r} is written instead of the id', p, key='content')
        ctx.check(canon(writes[0].path) == cat(p.run.dspath, C('/.name')), writes[0], f'{what}: the id is written to {writes[0].path!r}', p, key='place')
