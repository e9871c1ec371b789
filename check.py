#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough]: decides one property.

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: machinery failure."""
import argparse
import importlib
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.environ.setdefault('TZ', 'UTC')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True

from lib import core  # noqa: E402

MODULES = {
    'M05': 'harness.storage_checks',
    'M': 'harness.mst_checks',
    'S': 'harness.storage_checks',
    'Q': 'harness.seq_checks',
    'F': 'harness.firehose_checks',
    'X': 'harness.xrpc_checks',
    'L': 'harness.lease_checks',
    'P': 'harness.plc_checks',
    'B': 'harness.blob_checks',
    'T': 'harness.tid_checks',
    'D': 'harness.did_checks',
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    args = ap.parse_args()
    sys.path.insert(0, core.REPO)
    ctx = core.Ctx(args.property, args.tier, args.seed)
    try:
        mod = importlib.import_module(MODULES.get(args.property) or MODULES[args.property[0]])
        getattr(mod, f'check_{args.property}')(ctx)
    except core.Hang as e:
        ctx.violation(f'{args.property}.hang', str(e))
    except Exception:
        text = traceback.format_exc()
        sys.stderr.write(text)
        if os.path.join(core.REPO, 'arroba') + os.sep in text:
            # the code under test raised where nothing may fail
            ctx.violation(f'{args.property}.raised', text[-3000:])
        if not ctx.violations:
            ctx.finish()
            print(f'ERROR property={args.property}: the check itself failed')
            return 2
    return ctx.finish()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
