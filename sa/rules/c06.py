"""C06: an interrupted vocabulary calculation is resumed without loss or double counting."""
from .common import *

META = dict(
    technique='path-sensitive effect and typestate analysis of partial results with injected errors, and constant propagation of directory listings through the resuming code',
    level_note='All paths of calc_vocab from scratch, when merging and when resuming, with an error injected at every effect. The listing of the '
               'partial results is propagated as a constant for each point a crash can leave (names derived from the names the code creates). '
               'Contents are opaque. Trusts the models of files, queues, pools and processes.',
    explanation='Partial results are followed through creation, reading back, removal and renaming on every path of the three modes; '
                'the resuming code is evaluated abstractly on each listing an interrupted merge can leave.',
)
KINDS = ('open', 'write', 'close', 'rename', 'work', 'remove', 'read')


def pieces(q):
    """Name of a file of the partial results as alternating constants and ids: 'x', [id..], 'y' ..."""
    r = below(q, PARTS)
    if r is None or r == C(''):
        return None
    out = []
    for x in parts_of(r):
        if isinstance(x, C):
            out.append(str(x.v).lstrip('/') if not out else str(x.v))
        elif out and isinstance(out[-1], tuple):
            out[-1] = out[-1] + (x,)
        else:
            out.append((x,))
    return out if all(o != '' for o in out) else [o for o in out if o != '']


def split_ids(q):
    """Ids in the name of a merged partial result and its suffix, or None."""
    ps = pieces(q)
    if ps is None:
        return None
    if len(ps) == 1 and isinstance(ps[0], str):
        b, dot, ext = ps[0].partition('.')
        return b.split('_'), dot + ext
    ids = [p for p in ps if isinstance(p, tuple)]
    seps = [p for p in ps if isinstance(p, str)]
    if isinstance(ps[0], str) or len(ids) != len(seps) or any(s != '_' for s in seps[:-1]):
        return None
    return ids, seps[-1]


def name_of(ids, suffix):
    return [ids, suffix] if not isinstance(ids, str) else [ids + suffix]


def check(ctx):
    ctx.rule('the record that all partial results exist is created only after every partial result was written and closed without an error, over '
             'no left-overs; a merged result is read back before the two it names are removed, only these two are removed, and it gets its own '
             'name only after both are gone; partial results are deleted only after the vocabulary has its final name; for every listing an '
             'interruption can leave, resuming reads each remaining partial result exactly once')
    tails = set()
    scratch(ctx, tails)
    created = {'scratch': set(tails), 'merge': set()}
    merging(ctx, created['merge'])
    resume(ctx, created)


def part_events(p):
    return [e for e in p.events[p.run.n0:] if getattr(p.run, 'n0', None) is not None]


def scratch(ctx, tails):
    for inject in (False, True):
        res = ctx.explore('calc_vocab: from scratch' + (' with injected errors' if inject else ''), vocab_entry(ctx),
                          vocab_opts('scratch', inject=inject, inject_kinds=KINDS), max_paths=5000)
        n = 0
        for p in res.paths:
            if not hasattr(p.run, 'n0'):
                continue
            state, bad, ready, cleaned, absent = {}, None, None, False, False
            rebuilt = False
            for e in p.events[p.run.n0:]:
                if e.inject and ready is None and not (e.kind == 'open' and isinstance(below(e.path, PARTS), C)):
                    bad = bad or e
                if e.kind in ('errors_dropped', 'abandoned'):
                    bad = bad or e
                if e.kind == 'query' and canon(e.path) == PARTS and e.answer is False:
                    absent = True
                if e.kind in ('rmtree', 'rename') and canon(e.get('path') if e.kind == 'rmtree' else e.src) == PARTS:
                    ctx.check(not rebuilt, e, 'the partial results just created are removed again', p)
                    cleaned = True
                if e.kind == 'open' and e.writing and below(e.path, PARTS) is not None:
                    q = canon(e.path)
                    if isinstance(below(q, PARTS), C):
                        ready = ready or e
                        n += 1
                        ctx.check(bad is None, e, 'all partial results are recorded as present although an error occurred before '
                                  f'({bad.kind + " at " + bad.where() if bad else ""})', p)
                        open_ = [q2 for q2, s in state.items() if not s]
                        ctx.check(not open_, e, 'all partial results are recorded as present while one of them has not been closed', p)
                        ctx.check(bool(state), e, 'all partial results are recorded as present before any of them has been created', p)
                        continue
                    rebuilt = True
                    ctx.check(ready is None, e, 'a partial result is created only after all of them have been recorded as present: '
                              'an interruption between the two loses it', p)
                    if not absent and not cleaned:
                        ctx.violation(e, 'new partial results are added to those left by an interrupted calculation: their files are counted twice', p)
                    state[q] = False
                    identity(ctx, p, e, q)
                    s = pieces(q)
                    if s and isinstance(s[-1], str):
                        tails.add(tuple('#' if isinstance(x, tuple) else x for x in s))
                elif e.kind == 'close' and e.path is not None and canon(e.path) in state:
                    state[canon(e.path)] = e.exc in (False, None)
                elif e.kind == 'write' and e.path is not None and canon(e.path) in state and ready is not None:
                    ctx.violation(e, 'a partial result is written only after all of them have been recorded as present', p)
        if not n:
            ctx.open_obligation('no path records that all partial results exist')


def merging(ctx, tails):
    for inject in (False, True):
        res = ctx.explore('calc_vocab: merging' + (' with injected errors' if inject else ''), vocab_entry(ctx),
                          vocab_opts('merge', inject=inject, inject_kinds=KINDS), max_paths=8000)
        judge_merges(ctx, res, tails)


def judge_merges(ctx, res, tails=None, need=True):
    final = vocab_paths(ctx)['vocab']
    n = 0
    for p in res.paths:
        if not hasattr(p.run, 'n0'):
            continue
        st = {}           # path -> dict(written, closed, good, failed)
        gone = set()
        pub, pending = False, None
        for e in p.events[p.run.n0:]:
            if pending and (e.kind in ('qput', 'rmtree') or e.kind == 'open' and e.writing and e.path != pending[0]):
                if e.kind != 'qput' or pending[1] is not None and same_item(e.val, pending[1]):
                    ctx.violation(e, 'a merged vocabulary is passed on although its partial result has neither replaced those it was merged '
                                  'from nor been discarded: both are counted after an interruption', p)
                    pending = None
            q = canon(e.path) if e.get('path') is not None else None
            if e.kind == 'open' and q is not None and below(q, PARTS) is not None:
                s = st.setdefault(q, dict(good=False, failed=False, closed=True, new=False))
                s['closed'] = False
                if e.writing:
                    s['new'], s['good'] = True, False
                    pending = (q, dumped_at(p, e)) if split_ids(q) and len(split_ids(q)[0]) == 3 and not e.inject else pending
                    identity(ctx, p, e, q)
                    ps = pieces(q)
                    if tails is not None and ps:
                        tails.add(tuple('#' if isinstance(x, tuple) else x for x in ps))
                if e.inject:
                    s['failed'] = True
            elif e.kind == 'read' and q in st:
                if e.inject:
                    st[q]['failed'], st[q]['good'] = True, False
                elif st[q]['closed'] is False and not st[q].get('writing'):
                    st[q]['good'] = not st[q]['failed']
            elif e.kind == 'close' and q in st:
                st[q]['closed'] = True
                if e.inject:
                    st[q]['failed'], st[q]['good'] = True, False
                if e.exc not in (False, None):
                    st[q]['good'] = False
            elif e.kind == 'caught':
                last = [x for x in p.events[p.run.n0:e.i] if x.kind in ('read', 'open', 'close') and x.get('path') is not None][-1:]
                if last and canon(last[0].path) in st:
                    st[canon(last[0].path)]['failed'], st[canon(last[0].path)]['good'] = True, False
            elif e.kind == 'write' and q in st and e.inject:
                st[q]['failed'] = True
            elif e.kind == 'query' and q is not None and e.answer is False:
                gone.add(q)
            elif e.kind == 'remove' and q is not None and below(q, PARTS) is not None:
                n += 1
                removal(ctx, p, e, q, st, gone)
                if not e.inject:
                    gone.add(q)
                    if pending and q == pending[0]:
                        pending = None
            elif e.kind == 'rename' and below(e.src, PARTS) is not None:
                n += 1
                renaming(ctx, p, e, canon(e.src), canon(e.dst), st, gone)
                if pending and canon(e.src) == pending[0]:
                    pending = None
            elif e.kind == 'rename' and canon(e.dst) == final and not e.inject:
                pub = True
            elif e.kind == 'rmtree' and q is not None and (q == PARTS or below(PARTS, q) is not None):
                n += 1
                ctx.check(pub, e, 'the partial results are deleted before the vocabulary has been published under its final name', p)
    if need and not n:
        ctx.open_obligation('no partial result is ever replaced on the paths found')


def same_item(a, b):
    return canon(a) == canon(b) if isinstance(a, (T, C)) and isinstance(b, (T, C)) else a is b


def dumped_at(p, e):
    d = [x for x in getattr(p.run, 'dumped', []) if x[0] > e.i]
    return d[0][1] if d else None


def identity(ctx, p, e, q):
    """The name of a partial result carries the id of the vocabulary stored in it."""
    d = [x for x in getattr(p.run, 'dumped', []) if x[0] > e.i]
    s = split_ids(q)
    if not d or s is None or d[0][2] is None or len(s[0]) not in (1, 3):
        return
    i = canon(d[0][2])
    want = [tuple(parts_of(i)), tuple(parts_of(T('str', i))), (T('str', i),)]
    ctx.check(tuple(s[0][-1]) in want, e, 'a partial result is stored under another id than the one of the vocabulary in it: '
              'it is not found again when it has been merged', p)
    if len(s[0]) == 3:
        ctx.check(s[0][0] != s[0][1], e, 'the name of a merged partial result names the same source twice', p)


def merged_for(q, st):
    """Merged results (three ids) whose name contains the id of q."""
    s = split_ids(q)
    if s is None or len(s[0]) != 1:
        return []
    out = []
    for m in st:
        t = split_ids(m)
        if t and len(t[0]) == 3 and t[1] == s[1] and s[0][0] in t[0]:
            out.append((m, t[0].index(s[0][0])))
    return out


def removal(ctx, p, e, q, st, gone):
    s = split_ids(q)
    if s is None:
        ctx.undecided(f'{e.where()}: the name of the removed partial result has no known form')
        return
    if len(s[0]) == 3:
        ctx.check(q in st and not st[q]['good'], e, 'a merged partial result that could be read is removed', p)
        ctx.check(not any(name in gone for name in sources(q)) or q not in st or st[q]['failed'], e, 'a merged partial result is removed after those it replaces are gone', p)
        return
    ms = merged_for(q, st)
    if not ms:
        ctx.violation(e, 'a partial result is removed that no merged result replaces', p)
        return
    m, i = ms[-1]
    ctx.check(i != 2, e, 'the partial result that carries the merged counts is removed', p)
    ctx.check(st[m]['good'], e, 'a partial result is removed before the merged one that replaces it has been read back without an error', p)


def sources(m):
    ids, suffix = split_ids(m)
    out = []
    for i in ids[:2]:
        xs = [C(i)] if isinstance(i, str) else list(i)
        out.append(canon(cat(PARTS, C('/'), *xs, C(suffix))))
    return out


def renaming(ctx, p, e, src, dst, st, gone):
    t = split_ids(src)
    if t is None or len(t[0]) != 3:
        ctx.undecided(f'{e.where()}: the name of the renamed partial result has no known form')
        return
    new = split_ids(dst)
    ctx.check(new is not None and len(new[0]) == 1 and new[0][0] == t[0][2] and new[1] == t[1], e,
              'a merged partial result is not renamed to the name of its new id', p)
    ctx.check(src in st and st[src]['good'], e, 'a merged partial result gets its own name without having been read back without an error', p)
    left = [s for s in sources(src) if s not in gone]
    ctx.check(not left, e, 'a merged partial result gets its own name while one it replaces may still exist: both would be counted after an interruption', p)


# ---------------------------------------------------------------- resuming
def resume(ctx, created):
    single = [t for t in created['scratch'] if t.count('#') == 1]
    merged = [t for t in created['merge'] if t.count('#') == 3]
    if not merged and single:
        merged = [('#', '_', '#', '_', '#') + tuple(single[0][1:])]
    if not single:
        ctx.open_obligation('the names of partial results have no known form: resuming was not decided')
        return
    fill = lambda t, ids: ''.join(ids.pop(0) if x == '#' else x for x in t)
    one = lambda i: fill(single[0], [i])
    unfinished = fill(merged[0], ['11', '12', '13'])
    cases = []
    for have in (('11', '12'), ('12',), ('11',), ()):
        cases.append(([one(i) for i in have] + [one('15'), one('17')], True))
    cases.append(([one('13'), one('15'), one('17')], False))
    for k, (names, pending) in enumerate(cases):
        listing = ['ready'] + names + ([unfinished] if pending else [])
        for order in ((1, -1) if pending else (1,)):
            run_case(ctx, f'resume case {k + 1}{"" if order == 1 else " reversed"}', listing[::order], one, unfinished if pending else None)


def current(run, names):
    cur = list(names)
    for e in run.events[getattr(run, 'n0', 0):]:
        if e.kind == 'remove' and not e.inject:
            b = base(e.path)
            if b in cur:
                cur.remove(b)
        elif e.kind == 'rename' and not e.inject:
            b, d = base(e.src), base(e.dst)
            if b in cur:
                cur[cur.index(b)] = d
    return cur


def base(q):
    r = below(canon(q), PARTS)
    return str(r.v).lstrip('/') if isinstance(r, C) else None


def run_case(ctx, nm, names, one, unfinished):
    def ext(run, f, args, kw, node):
        if f == 'os.listdir' and canon(args[0]) == PARTS:
            run.emit('listdir', path=canon(args[0]))
            return run.new_list([C(x) for x in current(run, names)])
        if f in ('os.walk', 'os.scandir', 'glob.glob', 'glob.iglob', 'pathlib.Path'):
            run.unsure = True
        if f == 'platform.system':
            return C('Linux')
        return NotImplemented

    def ex(run, kind, q):
        q = canon(q)
        if base(q) is not None:
            return base(q) in current(run, names)
        return q == PARTS
    o = vocab_opts('load', ext_hook=ext, exists_default=ex, inject=False)
    res = ctx.explore(f'calc_vocab: {nm}', vocab_entry(ctx), o, max_paths=600)
    good = 0
    for p in res.paths:
        if not hasattr(p.run, 'n0') or getattr(p.run, 'unsure', False):
            continue
        if not [e for e in p.events[p.run.n0:] if e.kind == 'listdir']:
            continue
        st, reads, bad = {}, [], False
        for e in p.events[p.run.n0:]:
            if e.kind == 'read' and e.get('path') is not None and base(e.path):
                reads.append(base(e.path))
        fail = [e for e in p.events[p.run.n0:] if e.kind == 'caught']
        removed = [base(e.path) for e in p.events[p.run.n0:] if e.kind == 'remove']
        starts = [e for e in p.events[p.run.n0:] if e.kind in ('procstart', 'stage')]
        want = sorted(x for x in names if x not in ('ready', unfinished))
        if unfinished and not fail:
            want = sorted([x for x in want if x not in (one('11'), one('12'))] + [one('13')])
        if not starts:
            continue
        at = [e for e in p.events[p.run.n0:] if e.kind == 'listdir'][-1]
        got = sorted(x for x in reads if x not in (unfinished,))
        good += 1
        ctx.check(got == want, at, f'after an interruption that left {names} the partial results counted are {got} instead of {want}', p)
        if unfinished:
            ctx.check(reads.count(unfinished) == 1, at, f'the merged partial result {unfinished} is not finished exactly once', p)
        if fail:
            ctx.check(removed == [unfinished], at, f'an unreadable merged partial result leads to the removal of {removed}', p)
    if not good:
        ctx.open_obligation(f'{nm}: the listing could not be followed')
