"""Run a check: ``python -m mv C07 [--replay FILE]``."""
import importlib
import os
import shutil
import sys
import tempfile
import traceback


def main():
    """Execute the main routine."""
    # pylint: disable=import-outside-toplevel
    import mv
    from mv import registry, runner
    if len(sys.argv) < 2 or sys.argv[1] not in registry.CHECKS:
        print(
            'usage: python -m mv PROPERTY [--replay FILE]', file=sys.stderr)
        return 2
    prop = sys.argv[1]
    module = importlib.import_module(
        'mv.checks.' + registry.CHECKS[prop])
    scratch = tempfile.mkdtemp(prefix='mv-{}-'.format(prop))
    tempfile.tempdir = scratch
    os.environ['TMPDIR'] = scratch
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            with open(sys.argv[3], 'rt', encoding='utf-8') as fid:
                failure = runner.loads(fid.read())
            message = module.replay(prop, failure, scratch)
            if message is None:
                print('the case passes')
                return 0
            print(
                'VIOLATION property={} replay={}'.format(prop, sys.argv[3]))
            print(message)
            return 1
        ctx = runner.Context(prop, scratch)
        return module.check(prop, ctx)
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
