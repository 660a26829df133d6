"""Runs one S03 history with real worker processes; prints 'RESULT {json}'."""
import json, os, sys


def main():
    d = json.loads(sys.argv[1])
    os.environ['VERIF_REAL'] = '1'
    import time
    _sleep = time.sleep
    time.sleep = lambda s: _sleep(min(s, 0.02))
    import mdp, mdp.parallel
    from mc.props import S03
    from mc.core import Violation
    s = mdp.parallel.ProcessScheduler(n_processes=d['n'], cache_callable=d['cache'])
    try:
        S03.sequence('processc%d' % d['n'] if d['cache'] else 'processn%d' % d['n'], d['ops'], 'default', s)
        v = None
    except Violation as e:
        v = str(e)
    except Exception as e:
        v = 'caller got %r' % e
    print('RESULT ' + json.dumps(dict(violation=v)), flush=True)
    os._exit(0)


if __name__ == '__main__':
    main()
