"""C10: the command line, the text API and the corpus API agree on the configuration."""
import itertools
from ..usage import usages
from .common import *

META = dict(
    technique='decision tables by constant propagation: each interface is evaluated abstractly for every combination of option constants its grammar '
              'or signature admits, and the tables are compared',
    level_note='Exhaustive over the boolean options and the forms of the command line grammar; the string length limit by representative values '
               '(below, at and above both limits), BPE codes by predefined and custom ids. Loading codes by id is a symbol of the id (C27).',
    explanation='For each split type the configuration and the BPE codes that reach the preprocessing (the sinks: Dataset.create and the stages for '
                'corpora, init_bpe_data and to_repr for text) are computed for every combination of options, for the text API, the corpus API and '
                'the command line, and compared.',
)
PARAMS = ('EN_ONLY', 'COM', 'STR', 'SPLIT', 'TABS_NEWLINES', 'CASE')
FLAGS = ('no_spaces', 'no_unicode', 'no_case', 'no_com', 'no_str', 'full_strings', 'split_numbers', 'ronin', 'stem')
LENGTHS = (0, 1, 2, 3, 26, 60, 61, 62, 63, 1000)
TYPES = ('nosplit', 'chars', 'basic', 'bpe')
IDS = ('1k', '5k', '10k', 'codes-100', '0')


def sink(run, fn, args, kw, node):
    if not isinstance(fn, Fn):
        return NotImplemented
    ctx = run.ctx10
    if fn.name == 'from_id' and fn.cls is not None:
        v = args[-1] if args else list(kw.values())[0]
        return typed(ctx, run, 'codes of ' + (v.v if isinstance(v, C) and isinstance(v.v, str) else repr(fz(v))), 'pipeline.bperegistry', 'CustomBpeConfig')
    a = dict(zip(params_of(fn), args))
    a.update(kw)
    if fn.name == 'init_bpe_data' and fn.cls is None:
        run.got['load'] = (values(ctx, run, a.get('prep_config')), codes(a.get('custom_bpe_config')))
        return NONE
    if fn.name == 'to_repr' and fn.cls is None and fn.mod.name.startswith('codeprep.pipeline'):
        run.got['prep'] = values(ctx, run, a.get('prep_config'))
        return Tup([run.alloc(HList([('s', T('represented'))])), T('metadata_of')])
    if fn.name == 'convert_text' and fn.cls is None:
        run.got['ext'] = fz(a.get('extension', NONE))
        run.got['input'] = fz(a.get('text', NONE))
        return run.alloc(HList([]))
    if fn.name == 'create' and fn.cls is not None and fn.cls.name == 'Dataset':
        run.got['prep'] = values(ctx, run, a.get('prep_config'))
        run.got['dscodes'] = codes(a.get('custom_bpe_config'))
        run.got['ext'] = fz(a.get('extensions', NONE))
        run.got['input'] = fz(a.get('path', NONE))
        run.got['out'] = fz(a.get('overriden_path_to_prep_dataset', NONE))
        run.got['suppress'] = fz(a.get('suppress_caching', FALSE))
        return typed(ctx, run, 'the dataset', 'pipeline.dataset', 'Dataset')
    if fn.cls is None and fn.mod.name == 'codeprep.pipeline.stages':
        run.got['stage'] = fn.name
        run.got['load'] = (run.got.get('prep'), codes(a.get('custom_bpe_config')))
        return NONE
    return NotImplemented


def params_of(fn):
    n = fn.node.args
    ps = [x.arg for x in n.posonlyargs + n.args]
    return ps


def codes(v):
    return 'none' if v is None or is_const(v, None) else repr(fz(v))


def values(ctx, run, pc):
    if pc is None:
        return None
    out = []
    with quietly(run):
        E = ctx.get(run, 'prepconfig', 'PrepParam')
        for k in PARAMS:
            v = run.call(run.getattr(pc, 'get_param_value'), [run.getattr(E, k)])
            out.append(v.v if isinstance(v, C) else repr(v))
    return tuple(out)


def evaluate(ctx, entry):
    """The sinks reached with constant inputs: a dict, 'rejected', or None if not decided."""
    def e(run):
        run.ctx10 = ctx
        run.got = {}
        return entry(run)
    res = ctx.explore('options', e, Opts(call_hook=sink, max_paths=64, sepfree=sepfree), note=False)
    outs = set()
    for p in res.paths:
        if p.outcome == 'return':
            outs.add(tuple(sorted((k, repr(v)) for k, v in p.run.got.items())))
        elif p.outcome == 'raise':
            outs.add('rejected')
        elif p.outcome.startswith('end:'):
            outs.add('ended')
        else:
            return None
    if len(outs) != 1 or not outs:
        return None
    o = outs.pop()
    return o if isinstance(o, str) else dict(o)


def sig(fn):
    n = fn.node.args
    return [x.arg for x in n.posonlyargs + n.args + n.kwonlyargs]


def combos(names):
    fl = [n for n in FLAGS if n in names]
    for bits in itertools.product((False, True), repeat=len(fl)):
        yield {n: True for n, b in zip(fl, bits) if b}


def label(kw):
    return ', '.join(f'{k}={v!r}' for k, v in sorted(kw.items())) or 'no options'


def check(ctx):
    ctx.rule('for every split type and every combination of options: the configuration values and BPE codes that reach the preprocessing are the same '
             'for the text API, the corpus API and the command line (or all reject it); each option changes the configuration in some combination')
    n = 0
    us = {u.fn.name: (m, u) for (m, f), u in usages(ctx.prog).items()}
    for typ in TYPES:
        got = {}

        def probe(run):
            got['text'] = ctx.get(run, 'api.text', typ)
            got['corpus'] = ctx.get(run, 'api.corpus', typ)
            return NONE
        ctx.explore('entry points', probe, Opts(), note=False)
        ts, cs = sig(got['text']), sig(got['corpus'])
        both = [x for x in ts if x in cs]
        table = {}

        def api(which, kw):
            mod, first, ext = ('api.text', 'the text', 'extension') if which == 'text' else ('api.corpus', 'the path', 'extensions')

            def entry(run):
                kws = {k: C(v) for k, v in kw.items()}
                kws.setdefault(ext, C('java'))
                return run.call(ctx.get(run, mod, typ), [C(first)], kws)
            return evaluate(ctx, entry)

        def both_apis(kw):
            key = tuple(sorted(kw.items()))
            if key not in table:
                t, c = api('text', kw), api('corpus', kw)
                table[key] = (t, c)
                if t is None or c is None:
                    ctx.open_obligation(f'{typ}({label(kw)}): not decided')
                    return table[key]
                same(ctx, typ, kw, 'the text API', t, got['text'], 'the corpus API', c, got['corpus'])
            return table[key]
        ids = [dict(bpe_codes_id=i) for i in IDS[:4]] if 'bpe_codes_id' in both else [{}]
        for idk in ids:
            for kw in combos(both):
                both_apis({**kw, **idk})
            if 'max_str_length' in both:
                for l in LENGTHS:
                    both_apis({'max_str_length': l, **idk})
                    both_apis({'max_str_length': l, 'no_str': True, **idk})
        # every option reaches the configuration
        for which, names, i in (('text', ts, 0), ('corpus', cs, 1)):
            for f in FLAGS:
                if f not in names:
                    continue
                pairs = 0
                hit = False
                for key, r in list(table.items()):
                    d = dict(key)
                    if d.get(f):
                        continue
                    o = table.get(tuple(sorted({**d, f: True}.items())))
                    if not isinstance(r[i], dict) or o is None or o[i] is None:
                        continue
                    pairs += 1
                    hit = hit or o[i] == 'rejected' or o[i].get('prep') != r[i].get('prep')
                if pairs:
                    ctx.check(hit, got[which], f'the option {f} of {which} {typ} has no effect on the configuration', None)
            if 'max_str_length' in names:
                ls = {repr(table.get(tuple(sorted({'max_str_length': l, **ids[0]}.items())), (None, None))[i]) for l in (2, 26, 61)}
                ctx.check(len(ls) > 1 or 'None' in ls, got[which], f'the option max_str_length of {which} {typ} has no effect on the configuration', None)
        if 'bpe_codes_id' in both:
            for i in (0, 1):
                ls = [table.get((('bpe_codes_id', x),), (None, None))[i] for x in IDS[:4]]
                if all(isinstance(x, dict) for x in ls):
                    ctx.check(len({repr((x.get('prep'), x.get('load'))) for x in ls}) == 4, got['text' if i == 0 else 'corpus'],
                              f'two different BPE codes of {typ} select the same merges', None)
        n += cli(ctx, typ, us, ts, cs, both_apis, got)
    if not n:
        ctx.undecided('no command line handler was analysed')


def same(ctx, typ, kw, an, a, af, bn, b, bf, extra=()):
    what = f'{typ}({label(kw)})'
    if a == 'rejected' or b == 'rejected':
        ctx.check(a == b, bf if b == 'rejected' else af, f'{what}: {an if a == "rejected" else bn} rejects what {bn if a == "rejected" else an} accepts', None)
        return
    if not isinstance(a, dict) or not isinstance(b, dict):
        ctx.check(a == b, bf, f'{what}: {an} and {bn} end differently', None)
        return
    pa, pb = a.get('prep'), b.get('prep')
    if pa is None or pb is None:
        ctx.open_obligation(f'{what}: no configuration reached the preprocessing')
        return
    d = diff(pa, pb)
    ctx.check(pa == pb, bf, f'{what}: {bn} uses the configuration value {d[1]} where {an} uses {d[0]}' if d else f'{what}: {an} and {bn} differ', None,
              key=f'{typ} {an} {bn} {d[2] if d else ""}')
    la, lb = a.get('load'), b.get('load')
    ca, cb = (code_part(la), code_part(lb))
    if ca is not None and cb is not None:
        ctx.check(ca == cb, bf, f'{what}: {bn} selects the BPE codes {cb} where {an} selects {ca}', None, key=f'{typ} {an} {bn} codes')
    elif 'bpe' in typ or typ == 'chars':
        if (ca is None) != (cb is None):
            ctx.open_obligation(f'{what}: the BPE codes of one interface were not seen')
    for x, bx in ((a, bf), (b, bf)):
        if 'dscodes' in x and x.get('load') is not None:
            ctx.check(eval(x['dscodes']) == code_part(x['load']), bx, f'{what}: the dataset and the stage are given different BPE codes', None,
                      key=f'{typ} dataset codes')


def code_part(l):
    if l is None:
        return None
    return eval(l)[1]


def diff(pa, pb):
    a, b = eval(pa), eval(pb)
    if a is None or b is None:
        return None
    for k, x, y in zip(PARAMS, a, b):
        if x != y:
            return f'{k}={x!r}', f'{k}={y!r}', k


def cli(ctx, typ, us, ts, cs, both_apis, got):
    n = 0
    for fname, (m, u) in us.items():
        if u.names.get(typ) != 'cmd':
            continue
        fixed = ('--verbose', '--ext', '--path', '<text>', '--output-path', '--calc-vocab')
        forms = u.forms(lambda k: k not in fixed)
        opt = {}
        for k in u.names:
            if k.startswith('--'):
                opt[k] = k[2:].replace('-', '_')
        for mode in ('text', 'corpus'):
            for form in sorted(forms, key=lambda f: (len(f), sorted(f))):
                vs = ['26'] if '--max-str-length' in form else [None]
                if '--max-str-length' in form and len(form - {typ, '1k'}) <= 1:
                    vs = [str(l) for l in LENGTHS]
                for lv in vs:
                    n += 1
                    one_cli(ctx, typ, m, fname, u, form, lv, mode, opt, ts, cs, both_apis)
        passes(ctx, typ, m, fname, u, opt)
    return n


def args_of(u, given):
    d = {}
    for k, kind in u.names.items():
        if k in given:
            d[k] = given[k]
        else:
            d[k] = False if kind in ('flag', 'cmd') else None
    return d


def call_cli(ctx, m, fname, d):
    def entry(run):
        h = run.global_get(m, fname)
        return run.call(h, [run.alloc(HDict([(C(k), C(v)) for k, v in d.items()]))])
    return evaluate(ctx, entry)


def one_cli(ctx, typ, m, fname, u, form, lv, mode, opt, ts, cs, both_apis):
    given, kw = {}, {}
    for k in form:
        kind = u.names[k]
        if kind in ('flag', 'cmd'):
            given[k] = True
            if k in IDS:
                kw['bpe_codes_id'] = k
            elif k in opt:
                kw[opt[k]] = True
        elif k == '--max-str-length':
            given[k] = lv
            kw[opt[k]] = int(lv)
        elif 'id' in k:
            given[k] = IDS[3]
            kw['bpe_codes_id'] = IDS[3]
        else:
            return
    names = ts if mode == 'text' else cs
    if any(k not in names for k in kw):
        return
    given['--ext'] = 'java'
    if mode == 'text':
        given['<text>'] = 'the text'
    else:
        given['--path'] = 'the path'
    r = call_cli(ctx, m, fname, args_of(u, given))
    if r is None:
        ctx.open_obligation(f'command {typ} ({label(kw)}): not decided')
        return
    t = both_apis(kw)[0 if mode == 'text' else 1]
    if t is None:
        ctx.open_obligation(f'{typ}({label(kw)}): not decided')
        return
    h = (m.name, u.fn.lineno, fname)
    same(ctx, typ, kw, f'the {mode} API', t, h, 'the command line', r, h)
    if isinstance(r, dict) and isinstance(t, dict):
        for k, what in (('ext', 'extension'), ('input', 'input')):
            if k in t and k in r:
                ctx.check(t[k] == r[k], h, f'command {typ}: the {what} {r[k]} is used where the {mode} API uses {t[k]}', None)


def passes(ctx, typ, m, fname, u, opt):
    """Output path and vocabulary calculation reach the stages."""
    h = (m.name, u.fn.lineno, fname)
    base = {typ: True, '--path': 'the path'}
    if typ == 'bpe':
        base['1k'] = True
    r0 = call_cli(ctx, m, fname, args_of(u, base))
    if '--calc-vocab' in u.names:
        r1 = call_cli(ctx, m, fname, args_of(u, {**base, '--calc-vocab': True}))
        if isinstance(r0, dict) and isinstance(r1, dict) and 'stage' in r0 and 'stage' in r1:
            ctx.check(r0['stage'] != r1['stage'], h, f'command {typ}: --calc-vocab has no effect', None)
    if '--output-path' in u.names:
        r1 = call_cli(ctx, m, fname, args_of(u, {**base, '--output-path': 'the output'}))
        if isinstance(r0, dict) and isinstance(r1, dict) and 'out' in r0 and 'out' in r1:
            ctx.check('the output' in r1['out'], h, f'command {typ}: --output-path has no effect', None)
    r1 = call_cli(ctx, m, fname, args_of(u, {**base, '--ext': 'a|b'}))
    if isinstance(r0, dict) and isinstance(r1, dict) and 'ext' in r0 and 'ext' in r1:
        ctx.check(r1['ext'] != r0['ext'], h, f'command {typ}: --ext has no effect', None)
