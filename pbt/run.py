"""Entry point: run every subcheck of one property against /repo's current tree."""
import argparse, importlib, json, os, sys, time, traceback

def bootstrap():
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if p not in ('', '/repo')]
    sys.path.insert(0, '/repo')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(1, here)
    sys.path.append('/opt/venv/lib/python3.12/site-packages')
    import big
    assert os.path.realpath(big.__file__).startswith('/repo/'), big.__file__

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS') or 0))
    args = ap.parse_args()
    bootstrap()
    from pbt import harness
    mod = importlib.import_module('pbt.props.' + args.property.lower())
    prop = mod.prop
    assert prop.id == args.property
    if args.replay:
        return harness.replay(prop, args.replay)
    return harness.run(prop, args)

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)
