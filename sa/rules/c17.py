"""C17: configuration strings are valid, unique and reversible."""
import itertools
from .common import *

META = dict(
    technique='exhaustive constant propagation through constructor, encoder and decoder over the finite parameter domains',
    level_note='All values of every parameter; all combinations of splitting and case with every value of the other two-valued parameters and all string '
               'length values (the remaining cross product differs only in independent characters). Invalid inputs by representatives of each kind.',
    explanation='Constructing, encoding and decoding are evaluated abstractly with constants; outcomes and encodings are compared with the rules.',
)
PARAMS = ('EN_ONLY', 'COM', 'STR', 'SPLIT', 'TABS_NEWLINES', 'CASE')
NOSPLIT, BPE = ('0', 'F'), ('4', '5', '6', '7', '9')


def single(ctx, entry, opts=None):
    """('return', value, run) / ('raise', exception name, run) if all paths agree on it, else None."""
    res = ctx.explore('constants', entry, opts or Opts(max_paths=50), note=False)
    outs = {}
    for p in res.paths:
        if p.outcome == 'return':
            outs.setdefault(('return', repr(fz(p.value))), p)
        elif p.outcome == 'raise':
            outs.setdefault(('raise', p.value.name()), p)
        else:
            return None
    if len(outs) != 1 or res.errors or res.limits:
        return None
    (k, _), p = list(outs.items())[0]
    return k, p.value, p.run


def check(ctx):
    ctx.rule('a configuration with valid values of all parameters and a supported combination is accepted, encoded with one character per parameter in '
             'one order, decoded to equal values, and no two share an encoding; everything else is rejected')
    dom = values(ctx)
    at = {}

    def anchors(run):
        K = ctx.get(run, 'prepconfig', 'PrepConfig')
        for n in ('__init__', '__str__', 'from_encoded_string', 'get_param_value'):
            try:
                f = run.getattr(K, n)
                at[n] = getattr(f, 'fn', f)
            except PyExc:
                pass
        at['cls'] = K
        return NONE
    ctx.explore('anchors', anchors, note=False)
    init, enc, dec = (at.get(n) or at['cls'] for n in ('__init__', '__str__', 'from_encoded_string'))
    base = dict(EN_ONLY='u', COM='c', STR='1', SPLIT='1', TABS_NEWLINES='s', CASE='u')
    configs = []
    for s, c in itertools.product(dom['SPLIT'], dom['CASE']):
        for e, m, t in itertools.product(dom['EN_ONLY'], dom['COM'], dom['TABS_NEWLINES']):
            configs.append(dict(base, SPLIT=s, CASE=c, EN_ONLY=e, COM=m, TABS_NEWLINES=t))
    for v in dom['STR']:
        configs.append(dict(base, STR=v))
        configs.append(dict(base, STR=v, SPLIT='F', COM='0'))
    seen = {}
    order = {}
    for v in configs:
        bad = v['CASE'] == 'l' and (v['SPLIT'] in NOSPLIT or v['SPLIT'] in BPE)
        r = build(ctx, v)
        if r is None:
            ctx.open_obligation(f'configuration {v}: not decided')
            continue
        if bad:
            ctx.check(r[0] == 'raise', init, f'lowercasing with the splitting value {v["SPLIT"]!r} is accepted', None)
            continue
        if not ctx.check(r[0] == 'return', init, f'the valid configuration {"".join(v[k] for k in PARAMS)} is rejected', None, key='valid rejected'):
            continue
        vals, e, back = r[1]
        ctx.check(vals == tuple(v[k] for k in PARAMS), init, f'the configuration does not have the values it was created with: {vals}', None, key='values')
        if e is None:
            ctx.open_obligation('encoding not decided')
            continue
        ctx.check(len(e) == len(PARAMS), enc, f'the encoding {e!r} does not have one character per parameter', None, key='length')
        if e in seen and seen[e] != v:
            d = [k for k in PARAMS if seen[e][k] != v[k]]
            ctx.violation(enc, f'two configurations that differ in {d[0]} have the same encoding {e!r}', None, key='same encoding')
        seen[e] = v
        for k in PARAMS:
            pos = {i for i, ch in enumerate(e) if ch == v[k]}
            order[k] = order.get(k, pos) & pos
        if back is None:
            ctx.open_obligation('decoding not decided')
        else:
            ctx.check(back == vals, dec, f'decoding {e!r} gives {back} instead of {vals}' if back != 'rejected' else f'decoding rejects the encoding {e!r}', None, key='decode')
    for k in PARAMS:
        if seen:
            ctx.check(bool(order.get(k)), enc, f'the value of {k} is not at one fixed place of the encoding', None)
    # invalid values and sets of parameters
    for k in PARAMS:
        others = {x for d in dom.values() for x in d} | {'', 'x!', '-', dom[k][0] + dom[k][1], '\xe9'}
        for bad in sorted(others - set(dom[k]))[:40]:
            r = build(ctx, dict(base, **{k: bad}))
            if r is not None:
                ctx.check(r[0] == 'raise', init, f'the impossible value {bad!r} of {k} is accepted', None, key=f'impossible {k}')
            enc_s = ''.join(dict(base, **{k: bad})[x] for x in PARAMS)
            decode(ctx, dec, enc_s, len(enc_s) == len(PARAMS), f'decoding accepts {enc_s!r} with an impossible value of {k}')
        r = build(ctx, {x: y for x, y in base.items() if x != k})
        if r is not None:
            ctx.check(r[0] == 'raise', init, f'a configuration without {k} is accepted', None)
        r = build(ctx, base, drop_add=(k, 'other'))
        if r is not None:
            ctx.check(r[0] == 'raise', init, f'a configuration with an unknown parameter instead of {k} is accepted', None)
    r = build(ctx, base, drop_add=(None, 'other'))
    if r is not None:
        ctx.check(r[0] == 'raise', init, 'a configuration with an additional parameter is accepted', None)
    full = ''.join(base[k] for k in PARAMS)
    for s in ('', full[:-1], full + 'u', full[1:], full + full):
        decode(ctx, dec, s, False, f'decoding accepts {s!r}, which does not have one character per parameter')
    for sp in NOSPLIT + BPE:
        s = ''.join(dict(base, SPLIT=sp, CASE='l')[k] for k in PARAMS)
        decode(ctx, dec, s, False, f'decoding accepts the unsupported combination {s!r}')
    bpe(ctx)


def values(ctx):
    got = {}

    def entry(run):
        K, E = ctx.get(run, 'prepconfig', 'PrepConfig'), ctx.get(run, 'prepconfig', 'PrepParam')
        d = run.getattr(K, 'possible_param_values')
        for n in PARAMS:
            m = run.getattr(E, n)
            for k, v in d.pairs:
                if fz(k) == fz(m):
                    xs = []
                    run.iterate(v, lambda x: xs.append(x.v))
                    got[n] = xs
        return NONE
    ctx.explore('the parameter domains', entry)
    if set(got) != set(PARAMS):
        raise AnchorMissing('PrepConfig.possible_param_values')
    return got


def read(ctx, run, E, pc):
    out = []
    for k in PARAMS:
        v = run.call(run.getattr(pc, 'get_param_value'), [run.getattr(E, k)])
        out.append(v.v if isinstance(v, C) else None)
    return tuple(out)


def build(ctx, v, drop_add=None):
    def entry(run):
        K, E = ctx.get(run, 'prepconfig', 'PrepConfig'), ctx.get(run, 'prepconfig', 'PrepParam')
        items = [(run.getattr(E, k), C(x)) for k, x in v.items() if not (drop_add and drop_add[0] == k)]
        if drop_add:
            items.append((C(drop_add[1]), C('u')))
        pc = run.call(K, [run.alloc(HDict(items))])
        run.vals = read(ctx, run, E, pc)
        run.enc = run.back = None
        e = run.call_builtin('str', [pc]) if hasattr(run, 'call_builtin') else run.call(run.getattr(pc, '__str__'), [])
        if isinstance(e, C):
            run.enc = e.v
            try:
                b = run.call(run.getattr(K, 'from_encoded_string'), [e])
                run.back = read(ctx, run, E, b)
            except PyExc:
                run.back = 'rejected'
        return NONE
    r = single(ctx, entry)
    if r is None:
        return None
    if r[0] == 'raise':
        return 'raise', r[1]
    return 'return', (r[2].vals, r[2].enc, r[2].back)


def decode(ctx, dec, s, _same_length, msg):
    def entry(run):
        K = ctx.get(run, 'prepconfig', 'PrepConfig')
        return run.call(run.getattr(K, 'from_encoded_string'), [C(s)])
    r = single(ctx, entry)
    if r is None:
        ctx.open_obligation(f'decoding {s!r}: not decided')
    else:
        ctx.check(r[0] == 'raise', dec, msg, None)


def bpe(ctx):
    """Suffixes of the BPE configurations a user can ask for."""
    got = {}
    for w, u in itertools.product((False, True), ('yes', 'no', 'bytes')):
        def entry(run):
            K, E = ctx.get(run, 'bpepkg.bpe_config', 'BpeConfig'), ctx.get(run, 'bpepkg.bpe_config', 'BpeParam')
            c = mk_enum_config(ctx, run, 'bpepkg.bpe_config', 'BpeConfig', 'BpeParam', dict(CASE='yes', WORD_END=w, BASE='code', UNICODE=u))
            run.K = K
            s = run.call(run.getattr(c, 'to_suffix'), [])
            b = run.call(run.getattr(K, 'from_suffix'), [s])
            run.sfx = s.v if isinstance(s, C) else None
            run.vals = tuple(fz(run.call(run.getattr(b, 'get_param_value'), [run.getattr(E, k)])) for k in ('CASE', 'WORD_END', 'UNICODE'))
            return NONE
        r = single(ctx, entry)
        if r is None or r[0] == 'return' and (r[2].sfx is None or not all(isinstance(x, C) for x in r[2].vals)):
            ctx.open_obligation(f'BPE configuration word_end={w} unicode={u}: not decided')
            continue
        at = ('codeprep.bpepkg.bpe_config', 0, 'BpeConfig.from_suffix')
        if not ctx.check(r[0] == 'return', at, f'the BPE configuration word_end={w}, unicode={u} cannot be encoded and decoded', None):
            continue
        run = r[2]
        ctx.check(tuple(x.v for x in run.vals) == ('yes', w, u), at, f'the suffix {run.sfx!r} is decoded to other values than word_end={w}, unicode={u}', None)
        ctx.check(run.sfx not in got, at, f'two BPE configurations have the suffix {run.sfx!r}', None)
        got[run.sfx] = (w, u)
    for k, bad in (('CASE', 'maybe'), ('WORD_END', 'x'), ('BASE', 'c'), ('UNICODE', 'utf'), ('UNICODE', '')):
        def entry(run):
            v = dict(CASE='yes', WORD_END=False, BASE='code', UNICODE='yes')
            v[k] = bad
            return mk_enum_config(ctx, run, 'bpepkg.bpe_config', 'BpeConfig', 'BpeParam', v)
        r = single(ctx, entry)
        if r is None:
            ctx.open_obligation(f'BPE configuration with {k}={bad!r}: not decided')
        else:
            ctx.check(r[0] == 'raise', ('codeprep.bpepkg.bpe_config', 0, 'BpeConfig.__init__'), f'the impossible value {bad!r} of {k} is accepted', None)
