#!/usr/bin/env python3
"""Corrupts one recorded result per trace line and reports which corruptions the
trace specification still accepts: ./selftest.py <ID> [lines] [seed]
(run the check first; its traces are read from work/<ID>)."""
import collections, json, os, random, re, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
from checks import CHECKS

SKIP = {"who", "n", "ty", "nsteps", "msg", "do", "qs", "ds", "perm", "op", "ps", "a", "st", "err"}


def leaves(v, path, out, inside):
    if isinstance(v, dict):
        for k, x in v.items():
            if k not in SKIP or (k in ("a", "n") and inside and not isinstance(x, (dict, list, int))):
                leaves(x, path + [k], out, inside or k in ("r", "g", "o", "out"))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            leaves(x, path + [i], out, inside)
    elif inside and isinstance(v, (bool, int)):
        out.append(path)


def main():
    pid, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 300
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    for binname, module in CHECKS[pid]["traces"]:
        src = [json.loads(l) for l in open("work/%s/%s.ndjson" % (pid, binname))]
        rnd.shuffle(src)
        lines, notes = [], []
        for e in src:
            ls = []
            leaves(e, [], ls, False)
            if not ls:
                continue
            byk = collections.defaultdict(list)
            for p in ls:
                byk[tuple(x for x in p if not isinstance(x, int))].append(p)
            p = rnd.choice(rnd.choice(list(byk.values())))
            x = e
            for k in p[:-1]:
                x = x[k]
            old = x[p[-1]]
            x[p[-1]] = (not old) if isinstance(old, bool) else old + rnd.choice([-1, 1])
            notes.append((p, old, x[p[-1]]))
            lines.append(json.dumps(e))
            if len(lines) >= n:
                break
        work = os.path.join("/tmp", "selftest-" + pid)
        os.makedirs(work, exist_ok=True)
        tr = work + "/t.ndjson"
        left = list(range(len(lines)))
        bad = set()
        while left:
            open(tr, "w").write("\n".join(lines[i] for i in left) + "\n")
            r = run.tlc(module, module + ".cfg", work, "t", workers=6, env={"TRACE": tr}, heap="8g")
            for a in re.findall(r'<<"REJECT", (\d+), \d+, "[^"]*">>', r["out"]):
                bad.add(left[int(a) - 1])
            for a in re.findall(r'<<"GENERROR", (\d+)', r["out"]):
                bad.add(left[int(a) - 1])
            if r["ok"]:
                break
            at = re.findall(r"ln = (\d+)", r["out"])
            if not at:
                print(r["out"][-1500:])
                break
            bad.add(left[int(at[-1]) - 1])
            left = [i for i in left if i not in bad]
        ok = [i for i in range(len(lines)) if i not in bad]
        print("%s %s: %d corrupted lines, %d rejected, %d accepted" % (pid, module, len(lines), len(bad), len(ok)))
        c = collections.defaultdict(list)
        for i in ok:
            c[(json.loads(lines[i]).get("op"),) + tuple(k for k in notes[i][0] if not isinstance(k, int))].append(i)
        for k, v in sorted(c.items(), key=str):
            print("  ", k, len(v), notes[v[0]], lines[v[0]][:400])


main()
