#!/usr/bin/env python3
"""check.py <property> : decide one property against /repo's current working tree.

exit 0: held on everything explored; exit 1 + 'VIOLATION property=<id> replay=<path>' otherwise.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
ENGINE = VERIF + "/engine/arv"
T0 = time.time()
JOBS = os.cpu_count() or 4
BASE_TRUST = [
    "clang 18 front end and opt passes sroa, early-cse, simplifycfg (they produce the LLVM IR that is verified)",
    "Z3 4.8.12 (unsat answers), the interval pre-solver and term simplifier of engine/ (cross-checked against Z3 by engine self tests)",
    "engine/ semantics of LLVM IR, of memory allocation (never fails) and of the Itanium exception ABI",
    "64-bit little-endian target; pointer values are not compared across objects; argument lists of at most 2^20 tokens of at most 2^20 bytes",
]
LEVELS = json.load(open(VERIF + "/tools/levels.json")) if os.path.exists(VERIF + "/tools/levels.json") else {}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def parse_entries(src):
    """entries of a harness file: // @entry name key=value ..."""
    out = []
    txt = open(src).read()
    loops = "VH_LOOP" in txt
    for m in re.finditer(r"^// @entry (\w+)(.*)$", txt, re.M):
        o = dict(kv.split("=", 1) for kv in m.group(2).split() if "=" in kv)
        body = ""
        b = re.search(r"VH_ENTRY\(%s\)\s*\{(.*?)^\}" % m.group(1), txt, re.S | re.M)
        if b:
            body = b.group(1)
        out.append(dict(name=m.group(1), opts=o, src=src, loops=loops, covers=re.findall(r'VH_COVER\("([^"]+)"\)', body)))
    return out


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tmp = tempfile.mkdtemp(prefix="arv_%s_" % pid)
        self.srcs = sorted(glob.glob(VERIF + "/harness/%s.cpp" % pid) + glob.glob(VERIF + "/harness/%s_*.cpp" % pid))
        self.limit = float(os.environ.get("ARV_LIMIT", 840))
        self.violations = []
        self.native_ready = {}
        self.notes = []
        self.lost = []
        self.procs = []

    # ------------------------------------------------------------------ building
    def bc(self, src):
        out = "%s/%s.bc" % (self.tmp, os.path.basename(src))
        r = sh([VERIF + "/tools/bc.sh", src, out], timeout=300)
        if r.returncode or not os.path.exists(out):
            return None, r.stdout
        return out, ""

    def native(self, src):
        out = "%s/%s.native" % (self.tmp, os.path.basename(src))
        p = subprocess.Popen(["clang++-18", "-std=c++20", "-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                "-D_GLIBCXX_ASSERTIONS", "-DVH_NATIVE", "-DVH_FILE=\"%s\"" % src, "-I" + REPO + "/include", "-I" + VERIF + "/harness",
                VERIF + "/harness/native.cpp", "-o", out, "-rdynamic", "-ldl"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        self.procs.append(p)
        return out if p.wait() == 0 else None

    def native_run(self, exe, args, timeout=60):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:exitcode=5", UBSAN_OPTIONS="print_stacktrace=0:exitcode=6")
        try:
            r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=self.tmp)
            return r.returncode, r.stdout.decode("latin-1")
        except subprocess.TimeoutExpired as e:
            return 3, (e.stdout or b"").decode("latin-1") + "\nNATIVE-FAIL does not come to an end\n"

    @staticmethod
    def native_failed(rc, out):
        return "NATIVE-FAIL" in out or "ERROR: AddressSanitizer" in out or "runtime error:" in out or "Assertion '" in out or (rc not in (0, 2, 4) and "NATIVE-OK" not in out)

    # ------------------------------------------------------------------ verifier
    def verify(self, bc, e):
        r = self.verify1(bc, e, True)
        if not (r["failures"] or r["unsupported"]): return r
        if e["opts"].get("ghost") != "yes" and (not e["loops"] or not (r["loops_with_invariant"] or r["loop_notes"])): return r
        why = "invariants did not carry the proof: " + "; ".join((r["unsupported"] + [f["label"] for f in r["failures"]] + r["loop_notes"])[:4])
        if e["opts"].get("ghost") == "yes":   # stated with the ghost functions the invariants define: nothing to decide without them
            r["unsupported"].append(why); r["failures"] = []
            return r
        r = self.verify1(bc, e, False)        # bounded, without invariants
        r["loop_notes"] = [why]
        return r

    def verify1(self, bc, e, loops):
        n = e["name"]
        o = e["opts"]
        t = self.tier == "thorough"
        unroll = o.get("unroll_t", o.get("unroll", "24")) if t else o.get("unroll", "24")
        left = self.limit - (time.time() - T0)
        budget = float(o.get("budget_t", 700)) if t else float(o.get("budget", 120))
        budget = max(5.0, min(budget, left - 25))
        out = "%s/%s%s.json" % (self.tmp, n, "" if loops else ".bounded")
        cmd = [ENGINE, bc, "--entry", "vh_" + n, "--out", out, "--unroll", unroll, "--budget", "%.0f" % budget, "--pool", self.tmp + "/pool", "--jobs", str(JOBS), "--timeout", o.get("timeout", "20000")]
        if o.get("forksel") == "yes": cmd.append("--fork-select")
        if not loops: cmd.append("--no-loops")
        if "visits" in o: cmd += ["--max-visits", o["visits"]]
        try:
            r = sh(cmd, timeout=budget + 90)
            err = r.stdout
        except subprocess.TimeoutExpired:
            err = "engine timed out"
        res = []
        for f in sorted(glob.glob(out) + glob.glob(out + ".*")):
            try:
                res.append(json.loads(open(f).read(), strict=False))
            except Exception as ex:
                res.append({"unsupported": ["unreadable engine output: %s" % ex]})
        if not res:
            res = [{"unsupported": ["engine gave no result: " + err[-400:]]}]
        m = {"entry": n, "unroll": unroll, "cmd": " ".join(cmd).replace(self.tmp, "$TMP")}
        for k in ("paths", "steps", "obligations", "discharged", "trivial", "memory_checks", "queries", "cache_hits", "solver_s", "interval_decisions", "unknown"):
            m[k] = sum(x.get(k, 0) for x in res)
        m["slowest_query_s"] = max(x.get("slowest_query_s", 0) for x in res)
        m["wall_s"] = max(x.get("wall_s", 0) for x in res)
        for k in ("labels", "covers", "bounded_loops"):
            d = {}
            for x in res:
                for a, b in x.get(k, {}).items():
                    d[a] = [d.get(a, [0, 0])[0] + b[0], d.get(a, [0, 0])[1] + b[1]] if isinstance(b, list) else d.get(a, 0) + b
            m[k] = d
        for k in ("unsupported", "contracts_used", "externals_used", "functions", "signature_mismatch", "loop_notes", "loops_with_invariant"):
            m[k] = sorted({y for x in res for y in x.get(k, [])})
        m["failures"] = [y for x in res for y in x.get("failures", [])]
        if "engine" in err[:30] and not res: m["unsupported"].append(err[:200])
        return m

    # ------------------------------------------------------------------ replay
    @staticmethod
    def input_file(path, inputs):
        hx = lambda s: s.encode("latin-1").hex() or "-"
        with open(path, "w") as f:
            for i in inputs:
                k, n, v = i["kind"], i["name"], i["value"]
                if k == "int": f.write("int %s %s\n" % (n, v))
                elif k == "bytes": f.write("bytes %s %s\n" % (n, hx(v)))
                else:
                    f.write("%s %s %d\n" % (k, n, len(v)))
                    for p, t in v: f.write("%d %s\n" % (p, hx(t)))

    def save_replay(self, e, kind, label, input_text, log, extra):
        d = VERIF + "/replays"
        os.makedirs(d, exist_ok=True)
        base = "%s/%s-%s-%s" % (d, self.pid, e["name"], hashlib.sha1((label + input_text).encode("latin-1", "replace")).hexdigest()[:8])
        with open(base + ".txt", "w", encoding="latin-1", errors="replace") as f:
            f.write("property %s\nharness %s entry %s\n%s: %s\n" % (self.pid, os.path.relpath(e["src"], VERIF), e["name"], kind, label))
            f.write("reproduce: python3 tools/check.py %s --replay %s\n" % (self.pid, os.path.relpath(base + ".in", VERIF)) if input_text else "")
            f.write("\n--- inputs\n%s\n--- output\n%s\n--- verifier\n%s\n" % (input_text, log[-6000:], extra[:20000]))
        if input_text:
            with open(base + ".in", "w", encoding="latin-1", errors="replace") as f:
                f.write("# %s %s\n" % (os.path.basename(e["src"]), e["name"]) + input_text)
        return os.path.relpath(base + ".txt", VERIF)

    def search(self, exe, e, secs, procs):
        """generated inputs against the same contract on the compiled code; returns (runs, failing seed or None, covers)"""
        jobs = []
        for p in range(procs):
            st = "%s/%s.st%d" % (self.tmp, e["name"], p)
            jobs.append((st, ["%s" % e["name"], "--search", str(self.seed * 1000003 + p * 7919 + 1), "%.1f" % secs, st]))
        runs, valid, bad, cov = 0, 0, None, {}
        with ThreadPoolExecutor(procs) as ex:
            for (st, _), (rc, out) in zip(jobs, ex.map(lambda j: self.native_run(exe, j[1], secs + 60), jobs)):
                m = re.search(r"NATIVE-RUNS (\d+) (\d+)", out)
                if m: runs += int(m.group(1)); valid += int(m.group(2))
                for c in re.finditer(r"COVER (\d+) (.*)", out): cov[c.group(2)] = cov.get(c.group(2), 0) + int(c.group(1))
                if not m and self.native_failed(rc, out):
                    seed = int.from_bytes(open(st, "rb").read(8), "little")
                    if bad is None: bad = (seed, out)
        return runs, valid, bad, cov

    def report(self, e, path, suffix=""):
        line = "VIOLATION property=%s replay=%s%s" % (self.pid, path, suffix)
        self.violations.append(line)
        print(line, flush=True)

    # ------------------------------------------------------------------ main
    def run(self):
        entries = []
        for s in self.srcs:
            entries += [e for e in parse_entries(s) if e["opts"].get("tier", "quick") == "quick" or self.tier == "thorough"]
        if not entries:
            print("no harness for", self.pid); return 2
        ex = ThreadPoolExecutor(16)
        order = sorted({e["src"] for e in entries})
        bcs = {s: ex.submit(self.bc, s) for s in order}
        bc = {s: f.result() for s, f in bcs.items()}
        for s in order:
            if bc[s][0] is None and "// @optional" in open(s).read():   # looks at private names, which may change
                self.notes.append("harness %s does not compile against the working tree, its entries are undecided" % os.path.basename(s))
                self.lost += [e["name"] for e in entries if e["src"] == s]
                entries = [e for e in entries if e["src"] != s]
                continue
            if bc[s][0] is None:
                print("harness %s does not compile against the working tree:\n%s" % (s, bc[s][1][:3000]))
                return 2
        nat = {s: ex.submit(self.native, s) for s in order if bc[s][0] is not None}
        results = {}
        nprove = [e for e in entries if e["opts"].get("prove", "yes") == "yes"]
        width = int(os.environ.get("ARV_WIDTH", "4"))
        pex = ThreadPoolExecutor(width)
        futs = [(e, pex.submit(self.verify, bc[e["src"]][0], e)) for e in nprove]
        for e, f in futs:
            results[e["name"]] = f.result()
        failed_names = set()
        for e in nprove:
            r = results[e["name"]]
            fl = sorted(r["failures"], key=lambda x: (x["kind"] != "assert", len(json.dumps(x["inputs"]))))
            seen = set()
            pend = []
            for x in fl:
                if e["name"] in failed_names: break
                exe = nat[e["src"]].result()
                fn = "%s/in_%s_%d" % (self.tmp, e["name"], len(seen)); seen.add(fn)
                if exe and x.get("replayable", True):
                    self.input_file(fn, x["inputs"])
                    rc, out = self.native_run(exe, [e["name"], "--replay", fn])
                    if self.native_failed(rc, out):
                        failed_names.add(e["name"])
                        self.report(e, self.save_replay(e, "failed obligation (replayed on the compiled code)", x["label"], open(fn).read(), out, json.dumps(x, indent=1)))
                        break
                pend.append(x)
            if pend and e["name"] not in failed_names:
                exe = nat[e["src"]].result()
                if exe:
                    runs, valid, bad, _ = self.search(exe, e, 15 if self.tier == "quick" else 60, JOBS)
                    if bad:
                        rc, out = self.native_run(exe, [e["name"], "--one", str(bad[0])])
                        failed_names.add(e["name"])
                        inp = "".join(l + "\n" for l in out.split("\n") if re.match(r"(int|bytes|tokens|cstrs) |\d+ ([0-9a-f]+|-)$", l))
                        self.report(e, self.save_replay(e, "failed obligation (failing input found by search)", pend[0]["label"], inp, out + bad[1], json.dumps(pend[0], indent=1)))
                if e["name"] not in failed_names:
                    failed_names.add(e["name"])
                    x = pend[0]
                    inp = ""
                    self.report(e, self.save_replay(e, "failed obligation (no failing input found)", x["label"], "", "", json.dumps(pend, indent=1)), " no-failing-input-found")
        # bounded or undecided entries: search with the same contract on the compiled code
        stand_in = {}
        todo = []
        for e in entries:
            r = results.get(e["name"])
            undecided = r is None or r["unsupported"] or r["bounded_loops"] or "bound" in e["opts"] or r["obligations"] == 0
            if undecided and e["name"] not in failed_names and e["opts"].get("native", "yes") == "yes": todo.append(e)
        if todo:
            secs = (24.0 if self.tier == "quick" else 240.0) / len(todo)
            lost = self.lost + [n for n, r in results.items() if r["unsupported"]]
            if lost and self.tier == "quick": secs *= 3   # the proof is gone: look harder
            secs = max(2.0, min(secs, (20.0 if lost else 8.0) if self.tier == "quick" else 90.0, (self.limit - (time.time() - T0) - 20) / len(todo)))
            for e in todo:
                exe = nat[e["src"]].result()
                if not exe:
                    self.notes.append("native build of %s failed" % os.path.basename(e["src"])); continue
                runs, valid, bad, cov = self.search(exe, e, secs, JOBS)
                stand_in[e["name"]] = dict(runs=runs, valid=valid, covers=cov)
                if bad:
                    rc, out = self.native_run(exe, [e["name"], "--one", str(bad[0])])
                    inp = "".join(l + "\n" for l in out.split("\n") if re.match(r"(int|bytes|tokens|cstrs) |\d+ ([0-9a-f]+|-)$", l))
                    failed_names.add(e["name"])
                    self.report(e, self.save_replay(e, "contract violated on a generated input", "see output", inp, out + bad[1], ""))
        self.evidence(entries, results, stand_in, failed_names)
        ex.shutdown(wait=False)
        return 1 if self.violations else 0

    def evidence(self, entries, results, stand_in, failed):
        per, tb, proved, bounded, undec, dis, obl = [], set(), [], [], [], 0, 0
        fns, ext, bl = set(), set(), {}
        for e in entries:
            r = results.get(e["name"])
            if r is None:
                bounded.append(e["name"]); per.append({"entry": e["name"], "status": "bounded (native search only)", "search": stand_in.get(e["name"])}); continue
            miss = [c for c in e["covers"] if not r["covers"].get(c)]
            if e["name"] in failed: st = "violated"
            elif r["unsupported"] or miss or r["obligations"] == 0: st = "undecided"; undec.append(e["name"])
            elif r["bounded_loops"] or "bound" in e["opts"]: st = "bounded"; bounded.append(e["name"])
            else: st = "proved"; proved.append(e["name"])
            if st == "proved":
                obl += r["obligations"] + r["memory_checks"]; dis += r["discharged"] + r["memory_checks"]
            fns |= set(r["functions"]); tb |= set("contract assumed at calls: " + c for c in r["contracts_used"]); ext |= set(r["externals_used"])
            for k, v in r["bounded_loops"].items(): bl[k] = bl.get(k, 0) + v
            per.append({"entry": e["name"], "status": st, "paths": int(r["paths"]), "obligations": int(r["obligations"]), "discharged": int(r["discharged"]), "memory_safety_obligations": int(r["memory_checks"]),
                        "labels": r["labels"], "covers": r["covers"], "covers_missing": miss, "bounds": dict(r["bounded_loops"], **({"inputs": e["opts"]["bound"]} if "bound" in e["opts"] else {})), "undecided_because": r["unsupported"][:10], "loops_with_proved_invariant": r["loops_with_invariant"], "loop_notes": r["loop_notes"], "solver_queries": int(r["queries"]), "decided_by_interval_presolver": int(r["interval_decisions"]),
                        "solver_s": round(r["solver_s"], 3), "slowest_query_s": r["slowest_query_s"], "engine_wall_s": round(r["wall_s"], 2), "cmd": r["cmd"], "search": stand_in.get(e["name"])})
        level = LEVELS.get(self.pid, "proof" if proved else "other")
        cov = {"functions_under_contract": sorted(fns), "entries": per, "proved_entries": proved, "bounded_entries": bounded, "undecided_entries": undec,
               "bounded_loops": bl, "solver": "Z3 4.8.12 + interval pre-solver", "solver_s": round(sum(r["solver_s"] for r in results.values()), 3),
               "solver_queries": int(sum(r["queries"] for r in results.values())),
               "bounded_obligations": int(sum(r["obligations"] + r["memory_checks"] for n, r in results.items() if n in bounded)),
               "signature_mismatch": sorted({y for r in results.values() for y in r["signature_mismatch"]}),
               "obligations": int(obl), "discharged": int(dis),
               "checker_cmd": "python3 tools/check.py %s" % self.pid,
               "trusted_base": BASE_TRUST + sorted(tb) + ["external: " + x for x in sorted(ext)],
               "explanation": "Obligations generated from /repo's current source; 'proved' entries hold for all inputs, 'bounded' ones up to the stated loop bounds (plus generated inputs on the compiled code)."}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov, "assumptions": BASE_TRUST + sorted(tb) + self.notes,
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.pid, "w") as f: json.dump(ev, f, indent=1)
        for p in per:
            print("%-28s %-10s paths %-6s obligations %-7s solver %ss wall %ss%s%s" % (p["entry"], p["status"], p.get("paths", "-"), p.get("obligations", "-"), p.get("solver_s", "-"), p.get("engine_wall_s", "-"),
                  (" undecided: " + "; ".join(p.get("undecided_because", []))[:300]) if p.get("undecided_because") else "", (" covers missing: " + ", ".join(p["covers_missing"])) if p.get("covers_missing") else ""))
        print("%s %s: %d proved, %d bounded, %d undecided, %d violations, %.1f s" % (self.pid, level, len(proved), len(bounded), len(undec), len(self.violations), time.time() - T0))


def known(pid):
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l)
            if m and m.group(1) == pid: print(l.rstrip())


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if not os.path.exists(ENGINE): sh(["make", "-s", "-C", VERIF + "/engine"])
    c = Check(pid, tier)
    try:
        if "--replay" in sys.argv:
            f = sys.argv[sys.argv.index("--replay") + 1]
            src, entry = open(f, encoding="latin-1").readline()[2:].split()
            exe = c.native(VERIF + "/harness/" + src)
            rc, out = c.native_run(exe, [entry, "--replay", os.path.abspath(f)])
            print(out)
            return 1 if c.native_failed(rc, out) else 0
        known(pid)
        return c.run()
    finally:
        for p in c.procs:
            if p.poll() is None:
                try: os.killpg(p.pid, 9)
                except OSError: pass
        shutil.rmtree(c.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
