"""Replays solver models on the unmodified package (run by /opt/venv python).
stdin: one JSON request per line; stdout: one JSON reply per line."""
import importlib
import json
import logging
import os
import resource
import signal
import sys
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('DCF_REPO', '/repo'))
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
LIMIT = 45


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    sys.setrecursionlimit(600)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    import dcf
    root = os.path.realpath(os.environ.get('DCF_REPO', '/repo'))
    assert os.path.realpath(dcf.__file__).startswith(root), dcf.__file__
    from engine import api, noise, state
    state.save()
    mods = {}
    for line in sys.stdin:
        req = json.loads(line)
        m = req['module']
        if m not in mods:
            mods[m] = importlib.import_module('checks.' + m)
        state.restore()
        signal.alarm(LIMIT)             # a run that does not end is ended
        noise.make(dcf)
        rep = api.run_concrete(mods[m].REG, req, dcf)
        signal.alarm(0)
        out.write(json.dumps(rep) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
