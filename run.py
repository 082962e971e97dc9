#!/usr/bin/env python3
"""Run the check of one property: ./run.py <ID> [quick|thorough]

build driver from /repo's working tree -> (TLC generates inputs) -> driver
records traces of the real code -> TLC model-checks the design modules and
validates the traces -> evidence/<ID>.json.

exit 0: held on everything explored; exit 1 + VIOLATION line: the real code
did something the specification does not allow; exit 2: tool error.
"""
import collections, concurrent.futures, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ)
ENV["RUSTUP_TOOLCHAIN"] = "1.83.0-x86_64-unknown-linux-gnu"
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
for v in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER"):
    ENV.pop(v, None)
SPEC = os.path.join(HERE, "spec")


class ToolError(Exception):
    pass


def build(bins):
    cmd = ["cargo", "build", "--offline", "--manifest-path", HERE + "/harness/Cargo.toml"]
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("cargo build failed:\n" + p.stdout[-4000:])


def tlc(module, cfg, work, tag, workers=8, env=None, timeout=800, heap="6g", extra=()):
    md = os.path.join(work, "md-" + tag)
    shutil.rmtree(md, ignore_errors=True)
    e = dict(ENV)
    e.update(env or {})
    cmd = ["timeout", "-k", "5", str(timeout), "java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", JARS,
           "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    p = subprocess.run(cmd, env=e, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(md, ignore_errors=True)
    out = p.stdout
    with open(os.path.join(work, "tlc-%s.log" % tag), "w") as f:
        f.write(out)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    ok = p.returncode == 0 and "Model checking completed. No error has been found." in out
    g, d, left = (int(x) for x in m[-1]) if m else (0, 0, 0)
    return dict(ok=ok, rc=p.returncode, generated=g, distinct=d, left=left, out=out)


def validate(module, work, binname, lines, timeout, part_bytes=9000000, at_once=3):
    """Validates a trace in parts, some at a time; yields (number of lines before the part, result of TLC)."""
    parts, size = [0], 0
    for i, ln in enumerate(lines):
        if size > part_bytes:
            parts.append(i)
            size = 0
        size += len(ln)
    ends = parts[1:] + [len(lines)]
    workers = 8 if len(parts) == 1 else 4 if len(parts) == 2 else 3

    def one(k):
        tag = "%s-%d" % (binname, k)
        path = os.path.join(work, tag + ".part.ndjson")
        with open(path, "w") as f:
            f.write("\n".join(lines[parts[k]:ends[k]]) + "\n")
        r = tlc(module, module + ".cfg", work, "trace-" + tag, workers=workers, env={"TRACE": path}, heap="6g", timeout=timeout)
        os.remove(path)
        return parts[k], r

    with concurrent.futures.ThreadPoolExecutor(at_once) as ex:
        yield from ex.map(one, range(len(parts)))


def load_known(pid):
    known = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=(\{.*\}) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                known.append((json.loads(m.group(2)), m.group(3)))
    return known


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = CHECKS[pid]
    t0 = time.time()
    work = os.path.join(HERE, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    quick = tier == "quick"

    # 1. design models, concurrently with the build
    model_res = []

    def run_models():
        for i, m in enumerate(chk.get("models", [])):
            cfg = m.get("quick") if quick else m.get("thorough", m.get("quick"))
            if not cfg:
                continue
            r = tlc(m["module"], cfg, work, "model%d" % i, workers=4 if quick else 6, timeout=600 if quick else 3000)
            model_res.append((m, cfg, r))

    th = threading.Thread(target=run_models)
    th.start()
    build([b for b, _ in chk["traces"]])

    # 2. inputs generated by the specification
    gen_n = 0
    polys = None
    if chk.get("gen"):
        polys = os.path.join(work, "gen.ndjson")
        with open(polys, "w") as f:
            for i, g in enumerate(chk["gen"]):
                cfg = g.get("quick") if quick else g.get("thorough", g.get("quick"))
                if not cfg:
                    continue
                r = tlc(g["module"], cfg, work, "gen%d" % i)
                if not r["ok"]:
                    raise ToolError("generator %s failed: %s" % (cfg, r["out"][-2000:]))
                for m in re.finditer(r'^"(GEN .*)"$', r["out"], re.M):
                    f.write(m.group(1)[4:].replace('\\"', '"') + "\n")
                    gen_n += 1
        if gen_n == 0:
            raise ToolError("generator produced nothing")

    # 3. drive the real code and validate its traces
    violations, known_hits, tot = [], [], collections.Counter()
    samples, ops = [], collections.Counter()
    known = load_known(pid)
    for binname, module in chk["traces"]:
        trace = os.path.join(work, binname + ".ndjson")
        cmd = [HERE + "/harness/target/debug/" + binname, trace, tier, str(seed)] + ([polys] if polys else [])
        dt = 420 if quick else 2400
        t1 = time.time()
        try:
            p = subprocess.run(cmd, env=ENV, timeout=dt, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        except subprocess.TimeoutExpired:
            raise ToolError("driver %s exceeded %ds" % (binname, dt))
        tot["driver_s"] += time.time() - t1
        if p.returncode in (-11, -6, -4):
            path = os.path.join(work, "crash-%s.txt" % binname)
            with open(path, "w") as f:
                f.write("driver killed by signal %d\ncmd: %s\n%s\n" % (-p.returncode, cmd, p.stderr[-5000:]))
            violations.append(("driver crashed (signal %d)" % -p.returncode, path))
            continue
        if p.returncode != 0:
            raise ToolError("driver %s failed (%d): %s" % (binname, p.returncode, p.stderr[-3000:]))
        lines = open(trace).read().splitlines()
        if not lines:
            raise ToolError("driver %s recorded nothing" % binname)
        steps, before = 0, tot["states"]
        seen_op = set()
        for ln in lines:
            m = re.match(r'\{"op":"([^"]*)"(?:,"nsteps":(\d+))?', ln)
            op = m.group(1)
            ops[op] += 1
            steps += int(m.group(2) or 1)
            if op not in seen_op and len(ln) < 1500:
                seen_op.add(op)
                samples.append(json.loads(ln))
            for n in re.findall(r'"n":(\d+)\}', ln):
                tot["impl"] += int(n)
        t1 = time.time()
        rej = []
        for first, r in validate(module, work, binname, lines, 700 if quick else 3000):
            tot["states"] += r["distinct"]
            tot["transitions"] += r["generated"]
            if "GENERROR" in r["out"]:
                raise ToolError("driver broke a precondition: " + str(re.findall(r"<<\"GENERROR.*", r["out"])[:3]))
            part = {(int(a), int(b), c) for a, b, c in re.findall(r'<<"REJECT", (\d+), (\d+), "([^"]*)">>', r["out"])}
            if not r["ok"] and re.search(r"Attempted to|Overflow when computing", r["out"]):
                # the recorded value has a shape no behaviour of the specification has
                at = re.findall(r"ln = (\d+)", r["out"])
                part.add((int(at[-1]) if at else 1, 0, "malformed"))
            elif not r["ok"] and not part:
                raise ToolError("trace validation %s failed: %s" % (module, r["out"][-3000:]))
            rej += [(first + a, b, c) for a, b, c in part]
        rej.sort()
        tot["trace_tlc_s"] += time.time() - t1
        want = len(lines) + steps
        if not rej and tot["states"] - before != want:
            raise ToolError("trace validation incomplete: %d states, expected %d" % (tot["states"] - before, want))
        tot["transitions"] -= len(lines)
        tot["traces"] += len(lines)
        tot["impl"] = max(tot["impl"], tot["traces"])
        for (l, k, why) in rej:
            ev = json.loads(lines[l - 1])
            hit = [w for (m, w) in known if all(ev.get(a) == b for a, b in m.items())]
            if hit:
                known_hits.append(hit[0])
                continue
            path = os.path.join(work, "violation-%d.json" % (len(violations) + 1))
            if len(violations) < 50:
                with open(path, "w") as f:
                    json.dump({"property": pid, "spec": "spec/%s.tla" % module, "line": l, "step": k, "why": why,
                               "seed": seed, "tier": tier, "driver": binname,
                               "how": "the recorded behaviour in 'event' is not allowed by the specification; rerun: "
                                      "VERIF_SEED=%d ./run.py %s %s" % (seed, pid, tier),
                               "event": ev}, f)
            violations.append((why, path))
    th.join()
    mstates = mtrans = 0
    minfo = []
    for m, cfg, r in model_res:
        if not r["ok"]:
            raise ToolError("design model %s: %s" % (cfg, r["out"][-3000:]))
        mstates += r["distinct"]
        mtrans += r["generated"]
        minfo.append({"module": m["module"], "cfg": cfg, "states": r["distinct"], "transitions": r["generated"],
                      "what": m.get("what", "")})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["states"] + mstates,
            "transitions": tot["transitions"] + mtrans,
            "traces_validated_against_impl": tot["traces"],
            "samples": samples[:8],
            "events_by_kind": dict(ops),
            "impl_executions_over_scalar_types_and_embeddings": tot["impl"],
            "inputs_generated_by_tlc": gen_n,
            "design_models": minfo,
            "driver_s": round(tot["driver_s"], 1), "trace_tlc_s": round(tot["trace_tlc_s"], 1),
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w in sorted(set(known_hits)):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    if violations:
        for why, path in violations[:5]:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        print("%d rejected behaviours (%s)" % (len(violations), ", ".join(sorted({w for w, _ in violations}))[:300]))
        return 1
    print("OK property=%s %s: %d traces, %d states, %d impl executions, %.0fs" % (
        pid, tier, tot["traces"], tot["states"] + mstates, tot["impl"], time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except ToolError as e:
        print("TOOL ERROR: %s" % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
