"""Decides one property of /repo's current source by static analysis.  usage: check.py Cxx [Cyy ...]"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa import rulekit  # noqa: E402


def known(prop):
    out = []
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            if line.startswith('finding: property=' + prop + ' '):
                body = line[len('finding: property=' + prop + ' '):].strip()
                key, _, what = body.partition(' :: ')
                out.append((key.strip(), what.strip()))
    return out


def run(prop, tier, repo):
    t0 = time.time()
    mod = importlib.import_module('sa.rules.' + prop.lower())
    evdir = os.path.join(HERE, 'evidence') if repo == '/repo' else os.path.join(repo, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    ctx, status, err = None, 0, None
    try:
        ctx = rulekit.Ctx(prop, repo, tier)
        rulekit.in_big_stack(lambda: mod.check(ctx))
    except rulekit.AnchorMissing as e:
        err = f'the public entry point {e} was not found: nothing was decided'
    except SyntaxError as e:
        err = f'the source cannot be parsed: {e}'
    except Exception:
        err = 'the analysis failed: ' + traceback.format_exc()
    if err:
        print(f'ERROR property={prop}: {err}')
        status = 2
    kf = known(prop)
    news = []
    for v in (ctx.violations if ctx else []):
        k = [w for key, w in kf if key == v.key]
        if k:
            print(f'KNOWN-FINDING: property={prop} {k[0] or v.msg}')
        else:
            news.append(v)
    replay = os.path.join(evdir, prop + '.violations.txt')
    if os.path.exists(replay):
        os.remove(replay)
    if news:
        with open(replay, 'w') as f:
            f.write(f'property {prop}: {len(news)} violation(s) found in the source of {repo}\n')
            for v in news:
                f.write(f'\n{v.file}:{v.line} in {v.fn}\n  {v.msg}\n')
                for l in v.lines if v.lines is not None else ctx.path_lines(v.path):
                    f.write('  ' + l[:600] + '\n')
        for v in news:
            print(f'{v.file}:{v.line} in {v.fn}: {v.msg}')
        print(f'VIOLATION property={prop} replay={replay}')
        status = 1
    elif ctx and not err and ctx.obligations == 0:
        print(f'ERROR property={prop}: no obligation could be formed from the source; nothing was decided')
        status = 2
    meta = getattr(mod, 'META', {})
    cov = {
        'explanation': meta.get('explanation', ''),
        'evaluations': ctx.n_paths if ctx else 0,
        'distinct_nontrivial': len(ctx.sites) if ctx else 0,
        'rule': ' | '.join(ctx.rules) if ctx else '',
        'samples': (ctx.samples if ctx else []) or ['none'],
        'obligations': ctx.obligations if ctx else 0,
        'discharged': ctx.discharged if ctx else 0,
        'undecided': ctx.undecided_[:60] if ctx else [],
        'entries': [dict(entry=a, paths=b, limits=c, analyser_errors=d) for a, b, c, d in (ctx.entries if ctx else [])],
        'functions_analysed': sorted(ctx.functions) if ctx else [],
        'sites': sorted(ctx.sites)[:200] if ctx else [],
        'effect_events': ctx.n_events if ctx else 0,
        'prefixes_explored': ctx.n_explored if ctx else 0,
    }
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              assumptions=rulekit.KIT_ASSUME + meta.get('assumptions', []), wall_s=round(time.time() - t0, 3),
              violations=len(news))
    if err:
        ev['coverage']['error'] = err[:2000]
    tmp = os.path.join(evdir, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(evdir, prop + '.json'))
    if status == 0:
        print(f'OK property={prop} obligations={cov["obligations"]} discharged={cov["discharged"]} '
              f'paths={cov["evaluations"]} undecided={len(cov["undecided"])} wall={ev["wall_s"]}s')
    return status


def main():
    props = [a for a in sys.argv[1:] if not a.startswith('--')]
    repo = next((a[7:] for a in sys.argv[1:] if a.startswith('--repo=')), '/repo')
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    sys.exit(max(run(p, tier, repo) for p in props))


if __name__ == '__main__':
    main()
