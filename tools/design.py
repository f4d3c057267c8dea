"""writes DESIGN.md"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools'), os.environ.get('VERIF_REPO', '/repo')]
import props
from mc import core
import mc.p_hnf, mc.p_lattice, mc.p_solver, mc.p_mart, mc.p_util, mc.p_meta


def load(p, d):
    try:
        with open(os.path.join(V, p)) as f:
            return json.load(f)
    except (IOError, OSError):
        return d


def main():
    out = [open(os.path.join(V, 'tools/design_head.md')).read().rstrip(), '']
    cost = load('tools/cost.json', {})
    for p in props.P:
        e = load('evidence/%s.json' % p['id'], None)
        if e and e.get('tier') == 'quick':
            c = e['coverage'] if 'coverage' in e else e
            cost[p['id']] = [round(e['wall_s'], 1 if e['wall_s'] < 10 else None), c['states'], c['transitions'], c['traces_validated_against_impl']]
    with open(os.path.join(V, 'tools/cost.json'), 'w') as f:
        json.dump(cost, f, indent=0, sort_keys=True)
    for p in props.P:
        r = core.REGISTRY[p['id']]
        b = r['bounds']
        out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '',
                '* **Method**: %s. Quantified over %s.' % (p['technique'], p['quantifier']['text']),
                '* **Where**: ' + '; '.join('%s in `%s`' % (m['name'], m['where']) for m in p['anchors']['mechanism'])]
        if isinstance(b, dict):
            out += ['* **Bounds, quick**: %s.' % b['quick'], '* **Bounds, thorough**: %s.' % b['thorough']]
        else:
            out += ['* **Bounds**: %s.' % b]
        if r['assumptions']:
            out.append('* **Oracle and assumptions**: %s.' % '; '.join(r['assumptions']))
        out.append('* **Beyond the tests**: %s' % p['why_tests_cant'])
        if p['note']:
            out.append('* **Note**: %s.' % p['note'])
        if p['id'] in cost:
            c = cost[p['id']]
            out.append('* **Cost, quick**: %s s on 8 cores; %d states, %d calls of the real code, %d traces compared.' % tuple(c))
        out.append('')
    out += ['## 4. Not applicable', '', 'None.', '', '## 5. Defects found and repaired', '',
            'Each is one `fix:` commit in /repo; the check named reports it again when the commit is reverted.', '']
    kf = load('known_findings.json', {'findings': []})['findings']
    out += ['* %s' % f['what'] if f['status'] == 'fixed' else '* KNOWN: %s %s' % (f['id'], f['what']) for f in kf]
    res = load('tools/seeded_results.json', {})
    out += ['', '## 6. Planted changes and the checks that catch them', '',
            'Every change builds, passes the existing tests and has a demonstration that fails with it. "caught" means the quick check of the',
            'property exits 1 with its VIOLATION line while the change is applied.', '',
            '| change | what it breaks | needs | result |', '|---|---|---|---|']
    for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = load('seeded/%s/meta.json' % d, None)
        if m:
            r = res.get(d, {})
            esc = lambda s: str(s).replace('|', '\\|').replace('\n', ' ')
            out.append('| %s | %s: %s | %s | %s |' % (d, m['property'], esc(m['what_it_breaks']), esc(m['needs']), ', '.join('%s %s' % kv for kv in sorted(r.items())) or '-'))
    out += ['', open(os.path.join(V, 'tools/design_tail.md')).read()]
    with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()
