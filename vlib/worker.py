"""worker.py PID PROP SHARD N SEED BUDGET OUTFILE  |  worker.py PID PROP --replay CASEFILE OUTFILE"""
import json
import os
import resource
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import boot, core  # noqa: E402


def main():
    pid, pname = sys.argv[1:3]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(2000)
    boot.boot()
    mod = core.load_check(pid)
    prop = {p.name: p for p in mod.PROPS}[pname]
    if prop.setup:
        prop.setup()
    if sys.argv[3] == '--replay':
        case = core.literal(open(sys.argv[4], encoding='utf-8',
                                 errors='surrogatepass').read())
        try:
            labels, msg = core.evaluate(prop, case)
        except core._Hang:
            msg = 'no answer within %s s of CPU time' % prop.cpu_limit
        out = {'msg': msg}
        with open(sys.argv[5], 'w') as f:
            json.dump(out, f)
        return 0
    shard, n, seed, budget = (int(x) for x in sys.argv[3:7])
    outfile = sys.argv[7]
    res = core.run_shard(prop, n, seed, budget, outfile + '.cur')
    res['hashes'] = sorted(res['hashes'])
    res['labels'] = dict(res['labels'])
    with open(outfile + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(outfile + '.tmp', outfile)
    return 0


try:
    rc = main()
except BaseException:
    traceback.print_exc()
    rc = 3
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
