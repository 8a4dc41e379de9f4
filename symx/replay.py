"""python -m symx.replay FILE.json : re-run a counterexample on the unpatched code of /repo."""
import json
import os
import sys
import traceback


def run_one(mod, name, values, tier):
    from symx.runtime import ConcreteCtx, AssumeFailed, Violated
    from symx import core
    from symx.runner import REPO
    ob = {o.name: o for o in mod.OBLIGATIONS}[name]
    ctx = ConcreteCtx(values, tier)
    try:
        ob.fn(ctx)
    except AssumeFailed:
        return 'assume', 'precondition not met'
    except Violated as e:
        return 'violated', str(e)
    except core.Steer as e:
        return 'error', repr(e)
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        in_repo = any(f.filename.startswith(REPO + '/pyforecaster') for f in frames)
        tb = ''.join(traceback.format_exception(e))[-3000:]
        if in_repo:
            return 'violated', 'the real code raised %s: %s\n%s' % (type(e).__name__, e, tb)
        return 'error', 'harness exception %s: %s\n%s' % (type(e).__name__, e, tb)
    return 'held', '%d checks held' % ctx.n_checks


def main():
    from symx import runner
    runner.setup_env(False)
    if sys.argv[1] == '--worker':
        pid, tier = sys.argv[2], sys.argv[3]
        out = os.fdopen(os.dup(1), 'w')
        os.dup2(2, 1)
        mod = runner.load_check(pid)
        for line in sys.stdin:
            d = json.loads(line)
            st, detail = run_one(mod, d['obligation'], d['values'], tier)
            out.write('@@' + json.dumps({'status': st, 'detail': detail}) + '\n')
            out.flush()
        os._exit(0)
    d = json.load(open(sys.argv[1]))
    mod = runner.load_check(d['property'])
    st, detail = run_one(mod, d['obligation'], d['values'], d.get('tier', 'quick'))
    print(st, detail)
    sys.stdout.flush()
    os._exit(1 if st == 'violated' else 0)


if __name__ == '__main__':
    main()
