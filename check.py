#!/usr/bin/env python3
"""check.py <property id> [--replay FILE]"""
import sys, os, importlib, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import core

def main():
    pid = sys.argv[1]
    replay = None
    if '--replay' in sys.argv: replay = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
    if replay: os.environ['VERIF_SEED'] = str(replay.get('seed', 1))
    mod = importlib.import_module('chk_' + pid.lower())
    run = core.Run(pid)
    try:
        rc = mod.check(run, replay)
    except core.MachineryError as e:
        sys.stderr.write('check %s could not complete: %s\n' % (pid, e))
        run.cleanup()
        rc = 2
    sys.exit(rc)

main()
