#!/usr/bin/env python3
"""Decide one property: compile the real sources of /repo together with the
harness to a goto program, let CBMC's solver decide every assertion for all
values within the stated bounds, replay any counterexample natively.

usage: run.py ID [--tier quick|thorough] [--query NAME] [-v]
exit: 0 held on everything explored, 1 violation (reproduced), 2 no answer
"""
import argparse, concurrent.futures as cf, json, os, re, resource, shutil, signal
import subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)
import props  # noqa: E402

NGX = "/usr/share/nginx/src/src"
INCS = ["-I", HERE + "/lib", "-I", HERE + "/lib/auto"]
for d in ("core", "event", "event/modules", "os/unix", "http", "http/modules",
          "http/v2", "stream"):
    INCS += ["-I", f"{NGX}/{d}"]
for d in ("nginx-rtmp-module", "nginx-rtmp-module/http", "nginx-rtmp-module/hls",
          "nginx-rtmp-module/mpegts", "nginx-rtmp-module/dash",
          "nginx-rtmp-module/json", "nginx-client-module",
          "nginx-multiport-module", "nginx-toolkit-module",
          "nginx-ts-module/src"):
    INCS += ["-I", f"{REPO}/modules/{d}"]

# what CBMC checks by itself on every reached statement.  Arithmetic that the
# C standard leaves undefined but every supported compiler wraps is only turned
# on (signed=1 / shift=1) where a property is about it.
BASE = ["--no-malloc-may-fail", "--no-signed-overflow-check",
        "--no-pointer-primitive-check",
        "--no-undefined-shift-check", "--object-bits", "10",
        "--drop-unused-functions"]

MEM = 8 << 30


def sh(cmd, timeout, mem=MEM, env=None, cwd=None):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=pre, env=env, cwd=cwd)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e


class Query:
    def __init__(self, pid, q, tier):
        self.pid = pid
        self.__dict__.update(dict(file=None, entry=None, unwind=8, unwindset=[],
                             defs={}, flags=[], signed=0, shift=0, timeout=None,
                             known=None, solver=None, name=None, bounds="",
                             objbits=None, skip=[], sub=[], paths=0, fs=0))
        base = {k: v for k, v in q.items() if k not in ("quick", "thorough")}
        self.__dict__.update(base)
        self.defs = dict(base.get("defs", {}))
        t = q.get(tier, {})
        for k, v in t.items():
            if k == "defs":
                self.defs.update(v)
            else:
                setattr(self, k, v)
        self.name = self.name or self.entry
        if self.timeout is None:
            self.timeout = 400 if tier == "quick" else 2400

    def D(self):
        return [f"-D{k}" if v is None else f"-D{k}={v}" for k, v in self.defs.items()]


def subs(q, tmp):
    """Copies of sources with a size constant made smaller (each listed in the
    evidence): the copy shadows the original on the include path."""
    if not q.sub:
        return []
    d = f"{tmp}/{q.name}.src"
    os.makedirs(d, exist_ok=True)
    for rel, pat, rep in q.sub:
        dst = f"{d}/{os.path.basename(rel)}"
        t = open(dst if os.path.exists(dst) else f"{REPO}/modules/{rel}").read()
        open(dst, "w").write(re.sub(pat, rep, t, flags=re.M))
    return ["-I", d]


def compile_goto(q, tmp, unwind_defs=None):
    out = f"{tmp}/{q.name}.gb"
    cmd = ["goto-cc", "-D_GNU_SOURCE", "-D_FILE_OFFSET_BITS=64", "-w", *q.D(), *subs(q, tmp), *INCS,
           "--function", q.entry, f"{HERE}/h/{q.file}", "-o", out]
    rc, o, e = sh(cmd, 120)
    if rc != 0:
        return None, (o + e).decode(errors="replace")
    return out, ""


def cbmc_cmd(q, gb, unwind, extra):
    cmd = ["cbmc", gb, *BASE, "--unwind", str(unwind), "--json-ui", *q.flags]
    if q.unwindset:
        cmd += ["--unwindset", ",".join(q.unwindset)]
    if q.signed:
        cmd[cmd.index("--no-signed-overflow-check")] = "--signed-overflow-check"
    if q.shift:
        cmd[cmd.index("--no-undefined-shift-check")] = "--undefined-shift-check"
    if q.objbits:
        cmd[cmd.index("--object-bits") + 1] = str(q.objbits)
    if q.paths:
        # one symbolic path at a time, a solver call for each
        cmd += ["--paths", "lifo"]
    if q.fs:
        cmd += ["--max-field-sensitivity-array-size", str(q.fs)]
    if q.solver:
        cmd += ["--sat-solver", q.solver]
    return cmd + extra


# Forming (not using) a pointer outside its object, and ordering pointers into
# different objects, is undefined only on paper; no replay can show it, so these
# generated checks are left out.  Every access is still checked.
SKIP = ("pointer relation", "same object violation")


def wanted(q, gb, unwind):
    rc, o, e = sh(cbmc_cmd(q, gb, unwind, ["--show-properties"]), 120)
    try:
        pp = [m for m in json.loads(o) if "properties" in m][0]["properties"]
    except Exception:
        return None
    skip = SKIP + tuple(q.skip)
    return [p["name"] for p in pp if not p["description"].startswith(skip)]


def parse(out):
    try:
        js = json.loads(out)
    except Exception:
        # a killed cbmc leaves the array open
        return None, []
    res, msgs = None, []
    for m in js:
        if "result" in m:
            res = m["result"]
        if "messageText" in m:
            msgs.append((m.get("messageType", ""), m["messageText"]))
    return res, msgs


def stats(msgs):
    d = {"solver_s": 0.0, "vccs": 0, "vars": 0, "clauses": 0, "steps": 0, "paths": 0, "nobody": set()}
    for _, t in msgs:
        m = re.match(r"Runtime (?:Solver|decision procedure): ([\d.e+-]+)s", t)
        if m and t.startswith("Runtime decision"):
            d["solver_s"] += float(m.group(1))
        m = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
        if m:
            d["vccs"] += int(m.group(2))
        if t.startswith("Starting Bounded Model"):
            d["paths"] += 1
        m = re.match(r"(\d+) variables, (\d+) clauses", t)
        if m:
            d["vars"] = max(d["vars"], int(m.group(1)))
            d["clauses"] = max(d["clauses"], int(m.group(2)))
        m = re.match(r"size of program expression: (\d+) steps", t)
        if m:
            d["steps"] = int(m.group(1))
        m = re.search(r"no body for (?:function|callee) '?([\w.$]+)'?", t)
        if m:
            d["nobody"].add(m.group(1))
    return d


def build_native(q, tmp):
    exe = f"{tmp}/{q.name}.native"
    if os.path.exists(exe):
        return exe, ""
    ubsan = []
    if q.signed:
        ubsan.append("signed-integer-overflow")
    if q.shift:
        ubsan.append("shift")
    # UBSan's array check sees what ASan cannot: an index past the end of an
    # array that is a member of a larger object
    ubsan.append("bounds")
    fl = ["-fsanitize=address", "-fsanitize=" + ",".join(ubsan),
          "-fno-sanitize-recover=all"]
    obj = f"{tmp}/{q.name}.o"
    rc, o, e = sh(["gcc", "-g", "-O1", "-w", "-DVF_NATIVE", "-D_GNU_SOURCE",
                   "-D_FILE_OFFSET_BITS=64", "-ffunction-sections", "-fno-strict-aliasing",
                   *fl, *q.D(), f"-Dvf_entry={q.entry}", *subs(q, tmp), *INCS, "-c",
                   f"{HERE}/h/{q.file}", "-o", obj], 200, mem=0)
    if rc != 0:
        return None, e.decode(errors="replace")
    main = f"{tmp}/{q.name}.main.c"
    with open(main, "w") as f:
        f.write(f"void {q.entry}(void);\nint main(void) {{ {q.entry}(); return 0; }}\n")
    link = ["gcc", "-g", *fl, "-Wl,--gc-sections", main, obj, "-o", exe, "-lm", "-lcrypto"]
    for _ in range(4):
        rc, o, e = sh(link, 120, mem=0)
        if rc == 0:
            return exe, ""
        und = sorted(set(re.findall(r"undefined reference to `([^']+)'",
                                    e.decode(errors="replace"))))
        if not und:
            return None, e.decode(errors="replace")
        stub = f"{tmp}/{q.name}.undef.c"
        with open(stub, "a") as f:
            f.write("#include <stdio.h>\n#include <stdlib.h>\n")
            for u in und:
                if re.search(r"_module$", u) or re.match(r"ngx_(cycle|cached|current)", u):
                    f.write(f"char {u}[8192] __attribute__((aligned(64)));\n")
                else:
                    f.write(f"void {u}(void) {{ fprintf(stderr, \"VF-UNMODELLED {u}\\n\"); _Exit(79); }}\n")
        if stub not in link:
            link.insert(3, stub)
            link.insert(3, "-w")
            link.insert(3, "-fno-builtin")
    return None, "link failed"


def replay(q, tmp, values):
    """-> (verdict, text); verdict in violation / none / invalid"""
    exe, err = build_native(q, tmp)
    if exe is None:
        return "invalid", "native build failed: " + err[-2000:]
    inp = f"{tmp}/{q.name}.in"
    with open(inp, "w") as f:
        f.write("\n".join(str(v) for v in values) + "\n")
    last = ("none", "")
    for fill in ("190", "0", "255"):
        env = dict(os.environ, VF_INPUT=inp,
                   ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1000000:"
                   f"malloc_fill_byte={fill}:detect_stack_use_after_return=1",
                   UBSAN_OPTIONS="print_stacktrace=1")
        rc, o, e = sh([exe], 20, mem=0, env=env)
        t = e.decode(errors="replace")
        if rc is None:
            return "violation", "does not terminate (20 s)"
        if rc == 76 or "AddressSanitizer" in t or "runtime error" in t:
            return "violation", t[:3000]
        if rc == 77 or rc == 78 or rc == 79:
            last = ("invalid", t[:500])
            continue
        if rc != 0:
            return "violation", f"exit {rc}\n" + t[:2000]
    return last


def trace_values(q, gb, unwind, prop):
    rc, o, e = sh(cbmc_cmd(q, gb, unwind, ["--property", prop, "--trace"]), 240)
    res, _ = parse(o)
    if not res:
        return None
    for r in res:
        if r.get("property") == prop and "trace" in r:
            vals = []
            for st in r["trace"]:
                if st.get("stepType") == "assignment" and st.get("lhs") == "vf_nd_log" \
                        and not st.get("hidden", False) and st.get("assignmentType") != "actual-parameter":
                    b = st["value"].get("binary")
                    if b is None:
                        continue
                    if st.get("sourceLocation", {}).get("function", "").startswith("__CPROVER"):
                        continue
                    vals.append(int(b, 2))
            return vals
    return None


def run_query(q, tmp, verbose):
    t0 = time.time()
    r = {"query": q.name, "verdict": "noanswer", "detail": "", "obligations": 0,
         "functions": [], "reach": [], "values": None, "bounds": q.bounds,
         "solver_s": 0.0, "vccs": 0, "vars": 0, "clauses": 0, "steps": 0, "nobody": [], "unwind": q.unwind,
         "defs": q.defs, "reduced_constants": [f"{x[0]}: {x[1]} -> {x[2]}" for x in q.sub]}
    gb, err = compile_goto(q, tmp)
    if gb is None:
        r["detail"] = "goto-cc failed:\n" + err[-3000:]
        r["wall_s"] = time.time() - t0
        return r
    unwind = q.unwind
    q.unwindset = list(q.unwindset)
    raised = {}
    for attempt in range(8):
        left = q.timeout - (time.time() - t0)
        if left < 5:
            r["detail"] = "solver budget exhausted"
            break
        names = wanted(q, gb, unwind)
        if not names:
            r["detail"] = "no properties generated"
            break
        sel = []
        for n in names:
            sel += ["--property", n]
        rc, o, e = sh(cbmc_cmd(q, gb, unwind, ["--verbosity", "8", *sel]), left)
        res, msgs = parse(o)
        if res is None:
            errs = [t for k, t in msgs if k == "ERROR"]
            r["detail"] = ("solver budget exhausted" if rc is None else
                           f"cbmc exit {rc}: " + "; ".join(errs)[-1500:] + e.decode(errors="replace")[-500:])
            if not msgs:
                r["detail"] += " " + o.decode(errors="replace")[-300:]
            break
        st = stats(msgs)
        r["solver_s"] += st["solver_s"]
        for k in ("vccs", "vars", "clauses", "steps", "paths"):
            r[k] = st[k]
        r["nobody"] = sorted(st["nobody"])
        r["unwind"] = unwind
        fns = set()
        odd = []
        fails, unw, reach_ok, reach_bad, nob = [], [], [], [], 0
        for p in res:
            sl = p.get("sourceLocation", {})
            if sl.get("file", "").startswith((REPO, tmp)) and sl.get("function"):
                fns.add(os.path.basename(sl["file"]) + ":" + sl["function"])
            d = p.get("description", "")
            if d.startswith("REACH:"):
                (reach_ok if p["status"] == "FAILURE" else reach_bad).append(d[7:])
                continue
            if d.startswith("assertion") and "no body" in d:
                continue
            nob += 1
            if p["status"] == "FAILURE":
                if "unwinding assertion" in d or "recursion unwinding" in d:
                    unw.append(p)
                else:
                    fails.append(p)
            elif p["status"] != "SUCCESS":
                odd.append(p["property"] + ":" + p["status"])
        r["functions"] = sorted(fns)
        r["obligations"] = nob
        r["reach"] = reach_ok
        if verbose:
            print(f"   [{q.name}] {len(fails)} failures, {len(unw)} unwinding, odd: {odd[:3]}", file=sys.stderr)
            for p in fails[:12] + unw[:6]:
                sl = p.get("sourceLocation", {})
                print(f"   [{q.name}] {p['property']} {p['description']} "
                      f"{os.path.basename(sl.get('file',''))}:{sl.get('line')}", file=sys.stderr)
        if not fails and not unw:
            if odd:
                r["detail"] = "undecided: " + ", ".join(odd[:5])
                break
            if reach_bad or not reach_ok:
                r["detail"] = "vacuous: not reached: " + ", ".join(reach_bad or ["(no witness)"])
                break
            r["verdict"] = "holds"
            break
        # prefer our own assertions, then memory safety, then unwinding
        fails.sort(key=lambda p: 0 if p["description"].startswith("VF:") else 1)
        unconfirmed = []
        for p in fails[:5] + unw[:2]:
            if len(unconfirmed) >= 2 and time.time() - t0 > q.timeout:
                break
            vals = trace_values(q, gb, unwind, p["property"])
            if vals is None:
                unconfirmed.append(p["description"] + " (no trace)")
                continue
            verdict, text = replay(q, tmp, vals)
            sl = p.get("sourceLocation", {})
            what = f"{p['description']} at {sl.get('file','?')}:{sl.get('line','?')} in {sl.get('function','?')}"
            if verdict == "violation":
                r.update(verdict="violation", detail=what, replay_text=text, values=vals,
                         check=p["description"])
                break
            unconfirmed.append(f"{what} [{verdict}: {text.strip()[:300]}]")
        if r["verdict"] == "violation":
            break
        if unw and not fails:
            # some loop needs more rounds than the harness allowed for: raise
            # just those
            for p in unw:
                m = re.match(r"(.+)\.unwind\.(\d+)$", p["property"])
                if m:
                    k = f"{m.group(1)}.{m.group(2)}"
                    cur = [int(x.split(":")[1]) for x in q.unwindset if x.split(":")[0] == k]
                    raised[k] = 2 * (raised.get(k) or (cur[0] if cur else unwind))
                else:
                    unwind *= 2
            q.unwindset = [x for x in q.unwindset if x.split(":")[0] not in raised] \
                + [f"{k}:{v}" for k, v in raised.items()]
            r["detail"] = "loop bound raised"
            continue
        r["detail"] = "counterexample did not reproduce: " + " | ".join(unconfirmed)
        break
    r["wall_s"] = round(time.time() - t0, 2)
    return r


def known_findings():
    f = f"{HERE}/known_findings.txt"
    out = []
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) query=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--query")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    pid = a.id
    P = props.PROPS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"vf-{pid}-")
    try:
        qs = [Query(pid, q, a.tier) for q in P["queries"]
              if not (a.tier == "quick" and q.get("only") == "thorough")
              and not (a.tier == "thorough" and q.get("only") == "quick")]
        if a.query:
            qs = [q for q in qs if q.name == a.query]
        with cf.ThreadPoolExecutor(a.j) as ex:
            rs = list(ex.map(lambda q: run_query(q, tmp, a.v), qs))
        known = {(k[0], k[1]): k[2] for k in known_findings()}
        bad = noans = 0
        os.makedirs(f"{HERE}/evidence/replay", exist_ok=True)
        viol = []
        for q, r in zip(qs, rs):
            print(f"{pid} {q.name}: {r['verdict']} obligations={r['obligations']} "
                  f"vccs={r['vccs']} solver={r['solver_s']:.1f}s wall={r.get('wall_s',0):.1f}s "
                  f"{r['detail'] if r['verdict'] != 'holds' else ''}")
            if r["nobody"] and a.v:
                print("   no body:", ", ".join(r["nobody"]))
            if q.known:
                if r["verdict"] == "violation" and (pid, q.name) in known:
                    print(f"KNOWN-FINDING: property={pid} {known[(pid, q.name)]}")
                    continue
                if r["verdict"] == "holds":
                    continue
            if r["verdict"] == "violation":
                path = f"{HERE}/evidence/replay/{pid}-{q.name}.txt"
                with open(path, "w") as f:
                    f.write(f"property {pid}, query {q.name} ({q.file}:{q.entry})\n{r['detail']}\n"
                            f"defines: {q.defs}\nharness inputs, in order:\n"
                            + " ".join(map(str, r["values"])) + "\n\nnative replay of the real code:\n"
                            + r.get("replay_text", ""))
                print(f"VIOLATION property={pid} replay={path}")
                viol.append({"query": q.name, "what": r["detail"], "replay": path})
                bad = 1
            elif r["verdict"] == "noanswer":
                noans = 1
        ev = {
            "property": pid, "tier": a.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "other",
            "coverage": {
                "explanation": "Bounded symbolic execution of the real sources in /repo with CBMC 6.11: "
                    "each query compiles the functions listed from the current tree, makes the inputs "
                    "named under bounds symbolic, and a SAT solver decides every obligation (property "
                    "assertions, memory-safety checks, loop-bound assertions) for all values within the "
                    "bounds.  Reach witnesses show the assertions are not vacuous.  A counterexample "
                    "counts only after it is replayed against the natively compiled code.",
                "tool": "cbmc 6.11.0 (minisat2 unless stated)",
                "obligations": sum(r["obligations"] for r in rs),
                "discharged": sum(r["obligations"] for r in rs if r["verdict"] == "holds"),
                "queries": [{k: r.get(k) for k in
                             ("query", "verdict", "obligations", "vccs", "vars", "clauses", "steps", "paths",
                              "solver_s", "wall_s", "unwind", "defs", "reduced_constants", "bounds", "functions", "reach", "nobody", "detail")}
                            for r in rs],
                "solver_s": round(sum(r["solver_s"] for r in rs), 2),
                "violations": viol,
                "bounded_to": [f"{r['query']}: {r['bounds']}" for r in rs],
            },
            "wall_s": round(time.time() - t0, 2),
            "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
            "violations": len(viol),
        }
        with open(f"{HERE}/evidence/{pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        if bad:
            return 1
        if noans:
            print(f"{pid}: no answer")
            return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
