import json
import os
import sys


def main():
    pid, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    from symx import runner
    out = os.fdopen(os.dup(1), 'w')
    # anything the code under test prints goes to stderr
    os.dup2(2, 1)
    runner.setup_env(True)
    mod = runner.load_check(pid, symbolic=True)
    obs = {o.name: o for o in mod.OBLIGATIONS}
    rep = runner.Replayer(pid, tier)

    def log(s):
        out.write(s + '\n')
        out.flush()
    for line in sys.stdin:
        line = line.strip()
        if line == '@@quit':
            break
        n0 = rep.n
        r = runner.run_obligation(obs[line], pid, tier, rep, seed, log)
        log('@@R' + json.dumps({'result': r, 'replays': rep.n - n0}, default=str))
    rep.close()
    out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
