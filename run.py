"""usage: run.py PROPERTY quick|thorough   |   run.py PROPERTY replay FILE   |   run.py list"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mc import core  # noqa: E402

sys.path.insert(0, core.REPO)


def load():
    for f in sorted(glob.glob(os.path.join(HERE, 'mc', 'p_*.py'))):
        importlib.import_module('mc.' + os.path.basename(f)[:-3])


def main():
    pid, what = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import warnings
    warnings.simplefilter('ignore')
    try:
        import structrans  # noqa: F401
        where = os.path.dirname(os.path.abspath(structrans.__file__))
        assert where.startswith(os.path.abspath(core.REPO) + os.sep), where
    except Exception as e:
        if pid == 'list':
            raise
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        p = os.path.join(HERE, 'replays', pid + '-import.json')
        with open(p, 'w') as f:
            json.dump(dict(property=pid, message='the library cannot be imported: %r' % e), f)
        print('the library cannot be imported: %r' % e)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    load()
    if pid == 'list':
        print('\n'.join(sorted(core.REGISTRY)))
        return 0
    if what == 'replay':
        with open(sys.argv[3]) as f:
            body = json.load(f)
        ev, viol, replay, hits, known = core.run(pid, body['tier'], seed, only_unit=body['unit'])
    else:
        ev, viol, replay, hits, known = core.run(pid, what, seed, verbose='-v' in sys.argv)
    c = ev['coverage']
    print('%s %s: states=%d transitions=%d traces=%d outcomes=%d shards=%d/%d exhaustive=%s wall=%.1fs' % (
        pid, ev['tier'], c['states'], c['transitions'], c['traces_validated_against_impl'], c['distinct_outcomes'],
        c['shards'], c['shards_planned'], c['exhaustive'], ev['wall_s']))
    for s in c['parts_not_present_in_this_tree']:
        print('not explored: ' + s)
    for k in known:
        if k['id'] in hits:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viol:
        print(viol['viol']['msg'])
        print('case: ' + json.dumps(viol['viol']['case'], default=repr)[:2000])
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
