"""Rewrites the per-property part of DESIGN.md (between the markers) from the rule modules and WHY.  usage: gen_design.py"""
import glob
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
# what the tests cannot reach, and the oracle
WHY = {
    'C01': ('a test sees the files after a run, not at the instant of a crash', 'the typestate opened → written → closed without error → renamed'),
    'C02': ('needs a failure at one particular operation of one particular file', 'the marker write is after, and control-dependent on, the success of all work'),
    'C03': ('quantifies over histories of earlier runs', 'the facts a path has established (marker exists, stamps equal) when it skips a stage'),
    'C04': ('needs an interruption inside save_results', 'all files closed before the one directory rename; names of unfinished directories are not selected'),
    'C05': ('needs an interruption during a write, or between two writes', 'as C01, for every file whose existence alone is trusted'),
    'C06': ('crash points inside a multi-process merge', 'typestate of partial results; for each crash point the listing it leaves, resumed'),
    'C07': ('a negative over all operations and all paths', 'no write effect on a path at or below the dataset symbol'),
    'C08': ('a negative over all operations and all paths', 'deletion targets ∩ finished results = ∅; archive names contain the stamp'),
    'C09': ('quantifies over pairs of runs', 'each input symbol occurs untruncated in the location term; constants differing in one input differ'),
    'C10': ('2^n option combinations × three interfaces', 'the decision tables of the interfaces are equal'),
    'C11': ('all configurations × all token kinds × any content', "the documented effect of each option, written down per token kind in the rule (not taken from the code)"),
    'C12': ('information flow: "contributes nothing" cannot be sampled', 'content symbols do not occur in the outputs; outputs are path-independent'),
    'C13': ('all token kinds × all configurations × any content', 'definition of the metadata: boundaries from 0 to the number of tokens, one more than token types'),
    'C14': ('as C13', 'the position of the marker relative to the word boundaries'),
    'C15': ('history-dependent: quantifies over sequences of calls', 'no write to objects older than the call; equal symbolic results when repeated'),
    'C16': ('all tokens, including ones with separators', 'reader(writer(x)) = x on terms'),
    'C17': ('all values and combinations, and invalid ones', 'bijection between accepted configurations and encodings'),
    'C18': ('all option combinations × all token kinds', 'no path ends in an error; data paths exist in the source tree'),
    'C19': ('a negative over declared options', 'declared name set vs names read; change of an option changes what is passed on'),
    'C20': ('interleavings of merging processes', 'atomicity of lock regions; sums of propagated constants'),
    'C21': ('schedules and numbers of workers', 'disjointness of what tasks touch; equality of contents over orders and machines'),
    'C22': ('trees with names that resemble suffixes', 'injectivity and equality of the name sets between stages'),
    'C23': ('all texts', 'alignment of token texts with the delivered text'),
    'C24': ('all lexer token types', 'the table kind-of-type → kind-of-token, written down in the rule'),
    'C25': ('all byte strings, errors at every operation', 'closed on every end of a path; the last decoder is total'),
    'C26': ('all names and registry states', 'assigned ∉ in use; numbered after the highest'),
    'C27': ('all sets of existing results × all n', 'the first n lines of a file with at least n'),
    'C28': ('all words', 'restore(store(w)) = w; undoing the prefix gives w'),
    'C29': ('any content, incl. empty', 'given tokens (minus one trailing newline) + one end-of-file token iff due'),
    'C30': ('all configurations', 'no effect before refusal; table of base configurations'),
    'C31': ('trees with odd names', 'the set of matching files of the given tree, computed in the rule'),
    'C32': ('all entries of all trees', 'the maximum over all entries, computed in the rule'),
    'C33': ('all words × all merges × cache states', 'concatenation of the parts = the word'),
    'C34': ('failure of any one operation', 'old data unchanged, or new data complete'),
    'C35': ('failure of processes', 'path condition at a normal end implies that the vocabulary exists'),
    'C36': ('a merge order the doctests do not have, or a pair that recurs', 'equality with the defined result for every membership and order of the pairs of a word pattern'),
    'C39': ('an unusual sequence of capitals, digits and underscores', 'equality with the pieces of the convention for every class sequence'),
    'C41': ('boundaries or formatting functions the doctests do not have', 'terms delivered for unknown subtokens and an unknown formatting function'),
    'C42': ('blanks at places the doctest does not have', 'equality of the token with the text delivered by the lexer, for every character class'),
    'C44': ('a combination of arguments the tests do not use', 'the dataset built in the rule from the same arguments'),
}


def main():
    props = {}
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(l)
        props[d['id']] = d
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    seeded = {}
    for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        d = json.load(open(m))
        seeded.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
    out = []
    for c in man['checks']:
        i = c['property']
        M = importlib.import_module('sa.rules.' + i.lower()).META
        why, oracle = WHY.get(i, M.get('why', ('', '')))
        out += [f"### {i} {props[i]['title']}", '', f"*Method.* {M['technique']}. {M['explanation']}", '',
                f"*Oracle.* {oracle}. *Bounds.* {M['level_note']}", '', f'*Beyond tests.* {why}.']
        if i in seeded:
            out += ['', '*Planted bugs it catches.* ' + '; '.join(f"`{n}` ({d['what_it_breaks']})" for n, d in seeded[i]) + '.']
        out.append('')
    out += ['### Not applicable', '']
    for n in man['not_applicable']:
        out += [f"- {n['property']} {props[n['property']]['title']}: {n['reason']}"]
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    a, b = '<!-- properties: begin (tools/gen_design.py) -->', '<!-- properties: end -->'
    i, j = s.index(a) + len(a), s.index(b)
    open(p, 'w').write(s[:i] + '\n\n' + '\n'.join(out) + '\n' + s[j:])


main()
