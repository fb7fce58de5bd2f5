import argparse
import importlib
import os
import sys
import traceback
import warnings

warnings.simplefilter('ignore')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier')
    ap.add_argument('--only')
    a = ap.parse_args()
    if a.tier:
        os.environ['VERIF_TIER'] = a.tier
    from mc import lib
    sys.path.insert(0, lib.REPO)
    run = lib.Run(a.prop, only=a.only)
    try:
        mod = importlib.import_module(f'mc.{a.prop.lower()}')
        mod.main(run)
    except Exception as e:
        # The code under test cannot even be set up the way the property needs.
        tb = traceback.format_exc()
        if lib.repo_frames(e.__traceback__):
            run.violations.append(('setup', f'unexpected {type(e).__name__}: {e}\n{tb[-2000:]}', 'setup'))
        else:
            run.errors.append(tb)
    return run.finish()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
