"Runs one task of a check in its own process: python -m mc.worker < spec"
import gc
import json
import os
import pickle
import sys

from mc import core


def main():
    spec = json.load(sys.stdin)
    import postgresql
    root = os.environ['PYTHONPATH'].split(os.pathsep)[0]
    assert postgresql.__file__.startswith(root + os.sep), postgresql.__file__
    if spec['variant'] == 'py':
        try:
            from postgresql.port import optimized
        except ImportError:
            pass
        else:
            raise SystemExit('the extension is importable in the py variant')
    else:
        from postgresql.port import optimized
        assert optimized.__file__.startswith(root + os.sep)
    gc.disable()
    mod = core.load(spec['prop'])
    progress = open(spec['out'] + '.case', 'w', encoding='utf-8') if spec['log'] else None
    R = core.Recorder(core.known_findings(spec['prop']), spec['only'], progress=progress)
    R.tier = spec['tier']
    R.variant = spec['variant']
    try:
        mod.run(spec['name'], spec['params'], R)
    except core.StopTask:
        pass
    except Exception as e:
        # outside of a case: if the code under test raised it, that is an answer
        import traceback
        frames = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(root + os.sep) for f in frames):
            raise
        try:
            R.violate('task:' + spec['name'] + ':raises:' + type(e).__name__, traceback.format_exc())
        except core.StopTask:
            pass
    with open(spec['out'], 'wb') as f:
        pickle.dump(R.dump(), f)


if __name__ == '__main__':
    main()
