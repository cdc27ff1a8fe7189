#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   run a property's check (VERIF_SEED, VERIF_TIER)
check.py --setup                       build the instrumented flavours
check.py --replay <file>               run the cases of a replay file and show what they yield"""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    from vf import build
    if sys.argv[1] == '--setup':
        for f in sys.argv[2:] or ['asan']:
            print(build.build(f))
        return 0
    if sys.argv[1] == '--replay':
        from vf.run import Case, run_chunk
        d = json.load(open(sys.argv[2]))
        print(d['property'], d['key'], '\n', d['message'])
        for c in d['cases']:
            if 'entry' not in c:
                print(json.dumps(c, indent=1)); continue
            k = Case(c['entry'], c['input'].encode('latin1'), **c['opts'])
            fl = 'ndebug' if 'ctor' in c['opts'] else 'asan'
            run_chunk(os.path.join(build.build(fl), 'drv'), [k], 60)
            print(repr(c['input'])); print(c['opts']); print(json.dumps(k.out)[:6000])
        return 0
    from vf import checks
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = checks.get(sys.argv[1])
    return c.run(tier, seed)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
