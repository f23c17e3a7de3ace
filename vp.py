#!/usr/bin/env python3
"""Runs the solver-based check of one property:  vp.py <PROPERTY> <quick|thorough>
Builds the engine and the runtime models if needed, lowers the harnesses from /repo's current sources to LLVM IR,
explores them symbolically, replays every counterexample natively, and writes evidence/<PROPERTY>.json."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
GCC14 = "/usr/lib/gcc/x86_64-linux-gnu/14"
sys.path.insert(0, os.path.join(HERE, "checks"))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def clangxx(out, src, flags):
    return ["clang++-18", "--gcc-install-dir=" + GCC14, "-std=c++23", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only",
            "-fno-vectorize", "-fno-slp-vectorize", "-w", "-include", HERE + "/rt/prelude.h", "-I" + HERE + "/rt"] + flags + ["-emit-llvm", "-c", src, "-o", out]


def ensure_built():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-C", HERE + "/engine", "-j8", "B=" + BUILD])
        if r.returncode:
            print(r.stdout[-3000:])
            raise SystemExit("engine build failed")
        rt = HERE + "/rt/"
        jobs = []
        for src, out, cmd in [
            ("rt.cpp", "rt.bc", clangxx(BUILD + "/rt.bc", rt + "rt.cpp", ["-fno-access-control"])),
            ("rt_streams.cpp", "rt_streams.bc", clangxx(BUILD + "/rt_streams.bc", rt + "rt_streams.cpp", [])),
            ("rtc.c", "rtc.bc", ["clang-18", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-w", "-gline-tables-only", "-emit-llvm", "-c", rt + "rtc.c", "-o", BUILD + "/rtc.bc"]),
        ]:
            o = BUILD + "/" + out
            deps = [rt + src, rt + "symx.h", rt + "prelude.h"]
            if not os.path.exists(o) or any(os.path.getmtime(d) > os.path.getmtime(o) for d in deps):
                jobs.append(cmd)
        ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in jobs]
        for p in ps:
            o, _ = p.communicate()
            if p.returncode:
                print(o[-3000:])
                raise SystemExit("runtime build failed")
    return [BUILD + "/rt.bc", BUILD + "/rt_streams.bc", BUILD + "/rtc.bc"]


def inc_flags(spec):
    fl = []
    for i in spec.get("incl", []):
        fl.append("-I" + i.replace("$REPO", REPO).replace("$VERIF", HERE))
    return fl + spec.get("flags", [])


class Run:
    def __init__(self, prop, tier):
        from registry import PROPS
        self.prop, self.tier = prop, tier
        self.P = PROPS[prop]
        self.tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
        self.native = {}
        self.native_lock = __import__("threading").Lock()
        self.native_locks = {}
        self.violations, self.findings, self.unconfirmed, self.notes = [], [], [], []

    def defs(self, h):
        d = list(h.get("defs", [])) + list(h.get(self.tier + "_defs", []))
        if self.tier == "thorough":
            d.append("-DTHOROUGH=1")
        return d

    def key(self, h):
        return hashlib.sha1((h["src"] + " ".join(self.defs(h)) + " ".join(inc_flags(h))).encode()).hexdigest()[:10]

    def lower(self, h):
        out = "%s/%s.bc" % (self.tmp, self.key(h))
        return out, sh(clangxx(out, HERE + "/harness/" + h["src"], self.defs(h) + inc_flags(h)))

    def native_exe(self, h, variant="asan"):
        k = self.key(h) + variant + (h["entry"] if h.get("threads") else "")
        with self.native_lock:
            lk = self.native_locks.setdefault(k, __import__("threading").Lock())
        with lk:
            if k in self.native:
                return self.native[k]
            out = "%s/%s.exe" % (self.tmp, k)
            if h.get("threads"):
                ib = out[:-4] + ".bc"
                r = sh([BUILD + "/symx", "%s/%s.bc" % (self.tmp, self.key(h))] + self.rts + ["--entry", h["entry"], "--instrument", ib])
                if r.returncode:
                    self.notes.append("instrumentation failed: " + r.stdout[-600:])
                    self.native[k] = None
                    return None
                cmd = ["clang++-18", "--gcc-install-dir=" + GCC14, "-std=c++23", "-O1", "-g", "-w", "-rdynamic", "-I" + HERE + "/rt", HERE + "/rt/sched.cpp", ib, "-o", out, "-pthread"]
            else:
                opt = {"asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,alignment", "-fno-sanitize-recover=undefined"], "plain": ["-O2"], "pattern": ["-O0", "-ftrivial-auto-var-init=pattern"]}[variant]
                cmd = ["g++-14", "-std=c++23", "-w", "-rdynamic", "-DNATIVE_REPLAY=1"] + opt + ["-I" + HERE + "/rt"] + self.defs(h) + inc_flags(h) + [HERE + "/harness/" + h["src"], HERE + "/rt/replay.cpp", "-o", out, "-pthread"] + h.get("libs", [])
            r = sh(cmd)
            self.native[k] = out if r.returncode == 0 else None
            if r.returncode:
                self.notes.append("native build failed (%s): %s" % (h["src"], r.stdout[-600:]))
            return self.native[k]

    def replay(self, h, infile, kind, variant="asan"):
        """returns (confirmed, output)"""
        exe = self.native_exe(h, variant)
        if not exe:
            return False, "no native build"
        env = dict(os.environ, ASAN_OPTIONS="exitcode=45:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=45")
        scratch = tempfile.mkdtemp(dir=self.tmp)
        try:
            r = subprocess.run([exe, h["entry"], infile], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60, env=env, cwd=scratch)
        except subprocess.TimeoutExpired as e:
            return kind == "timeout", "timeout after 60 s\n" + str(e.stdout or "")[-1500:]
        rc = r.returncode
        out = "exit %d\n%s" % (rc, r.stdout[-3000:])
        if rc in (42, 45, -6, -11, -8, -4, -7):
            return True, out
        if rc == -14:
            return kind == "timeout", out
        return False, out

    def run_harness(self, h, bc, rts):
        od = tempfile.mkdtemp(dir=self.tmp)
        tl = h.get(self.tier + "_time", 240 if self.tier == "quick" else 1800)
        cmd = [BUILD + "/symx", bc] + rts + ["--entry", h["entry"], "--out", od, "--time", str(tl), "--jobs", str(h.get("jobs", 8)), "--steps", str(h.get("steps", 20000000))]
        cmd += h.get(self.tier + "_opts", h.get("opts", []))
        t0 = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=tl + 120)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            rc, out = -1, "engine timeout"
        agg = {"paths": 0, "killed": 0, "steps": 0, "forks": 0, "asserts": 0, "queries": 0, "z3_queries": 0, "domain_queries": 0, "cache_hits": 0, "model_hits": 0, "z3_time": 0.0, "unknown": 0, "assert_queries": 0, "assert_unsat": 0, "uninit_reads": 0}
        reached, inc, uns, cov = {}, {}, {}, set()
        for f in glob.glob(od + "/stats.*.json"):
            try:
                s = json.load(open(f))
            except Exception:
                inc["unreadable statistics"] = 1
                continue
            for k in agg:
                agg[k] += s.get(k, 0)
            for m, d in (("reached", reached), ("incomplete", inc), ("unsupported", uns)):
                for k, v in s[m].items():
                    d[k] = d.get(k, 0) + v
            for k, v in s.items():
                if k.startswith("mt_"):
                    agg[k] = agg.get(k, 0) + v
            cov.update(s["covered"])
        if rc != 0:
            inc["engine exit %d: %s" % (rc, out[-300:])] = 1
        for f in glob.glob(od + "/crash.*"):
            inc["engine worker crashed"] = inc.get("engine worker crashed", 0) + 1
        viols = []
        for f in sorted(glob.glob(od + "/viol.*.json")):
            try:
                viols.append(json.load(open(f)))
            except Exception as e:
                inc["unreadable violation file"] = 1
        missing = [l for l in h.get("reach", []) if not reached.get(l)]
        return dict(h=h, agg=agg, reached=reached, incomplete=inc, unsupported=uns, covered=cov, viols=viols, missing=missing, wall=time.time() - t0, od=od)

    def judge(self, res):
        h = res["h"]
        seen = set()
        for i, v in enumerate(res["viols"]):
            inf = "%s/cex_%s_%d.txt" % (self.tmp, h["entry"], i)
            with open(inf, "w") as f:
                f.write("# property %s harness %s\n# %s: %s\n# at %s\n" % (self.prop, h["entry"], v["kind"], v["msg"].replace("\n", " "), v["where"]))
                f.write("\n".join(v["inputs"]) + "\n")
                if v.get("sched"):
                    f.write("@sched " + v["sched"] + "\n")
            ok, out = False, ""
            for variant in (["asan"] if h.get("threads") else ["asan", "plain", "pattern"]):
                ok, out = self.replay(h, inf, v["kind"], variant)
                if ok:
                    break
            rec = dict(harness=h["entry"], kind=v["kind"], msg=v["msg"], where=v["where"], inputs=v["inputs"], sched=v.get("sched", ""), confirmed=ok, replay_output=out[-1500:])
            if not ok:
                self.unconfirmed.append(rec)
                continue
            fid = h.get("finding")
            if fid and re.search(h.get("finding_match", "."), v["kind"] + ": " + v["msg"]):
                self.findings.append((fid, rec))
                continue
            dst = os.path.join(HERE, "evidence", "replay")
            os.makedirs(dst, exist_ok=True)
            rp = os.path.join(dst, "%s_%s_%d.txt" % (self.prop, h["entry"], i))
            with open(rp, "w") as f:
                f.write(open(inf).read())
                f.write("# replay command: python3 %s/vp.py %s --replay %s %s\n" % (HERE, self.prop, h["entry"], rp))
                f.write("".join("# " + l + "\n" for l in out.splitlines()[-60:]))
            rec["replay"] = rp
            self.violations.append(rec)

    def main(self):
        t0 = time.time()
        rts = self.rts = ensure_built()
        known = json.load(open(HERE + "/known-findings.json"))["findings"] if os.path.exists(HERE + "/known-findings.json") else []
        hs = [h for h in self.P["harnesses"] if self.tier == "thorough" or not h.get("thorough_only")]
        # only entries whose finding is still listed may be treated as findings
        lst = {k["id"] for k in known if k.get("status") == "known"}
        for h in hs:
            if h.get("finding") and h["finding"] not in lst:
                h.pop("finding")
        uniq = {}
        for h in hs:
            uniq.setdefault(self.key(h), h)
        bcs, broken = {}, {}
        with cf.ThreadPoolExecutor(8) as ex:
            for k, (out, r) in zip(uniq, ex.map(self.lower, uniq.values())):
                if r.returncode:
                    broken[k] = r.stdout[-1500:]
                else:
                    bcs[k] = out
        results, skipped = [], []
        for h in hs:
            if self.key(h) in broken:
                skipped.append(h["entry"])
        for k, o in broken.items():
            self.notes.append("harness %s does not compile against this tree: %s" % (uniq[k]["src"], o))
        run = [h for h in hs if self.key(h) in bcs]
        par = self.P.get("parallel", 4)
        for h in run:
            h.setdefault("jobs", max(1, 8 // min(par, max(1, len(run)))) + 1)
        pre = cf.ThreadPoolExecutor(3)
        futs = []
        nsamples = self.P.get("samples", 1)
        if nsamples:
            first = {}
            for h in run:
                first.setdefault(self.key(h) + (h["entry"] if h.get("threads") else ""), h)
            futs = [pre.submit(self.native_exe, h) for h in first.values()]
        with cf.ThreadPoolExecutor(par) as ex:
            for res in ex.map(lambda h: self.run_harness(h, bcs[self.key(h)], rts), run):
                results.append(res)
        for f in futs:
            f.result()
        for res in results:
            self.judge(res)
        # translator validation: replay sampled explored paths natively; the property must hold there too
        validated, mism, samples = 0, [], []
        for res in results:
            if not nsamples or res["viols"] or res["h"].get("finding"):
                continue
            ps = sorted(glob.glob(res["od"] + "/path.*.txt"))
            ps = ps[:: max(1, len(ps) // (4 if self.tier == "quick" else 16))][: (4 if self.tier == "quick" else 16)]
            for p in ps:
                exe = self.native_exe(res["h"])
                if not exe:
                    break
                ok, out = self.replay(res["h"], p, "sample")
                if ok or not out.startswith("exit 0"):
                    mism.append(dict(harness=res["h"]["entry"], inputs=open(p).read().split("\n")[:20], out=out[-600:]))
                else:
                    validated += 1
                    if len(samples) < 6:
                        samples.append(dict(harness=res["h"]["entry"], inputs=[x for x in open(p).read().split("\n") if x][:24]))
        for res in results:
            for sc in sorted(glob.glob(res["od"] + "/sample.*.json"))[:2]:
                samples.append(json.load(open(sc)))
            if res["agg"].get("mt_replayed"):
                validated += res["agg"]["mt_replayed"]
        self.write_evidence(results, validated, mism, samples, skipped, time.time() - t0)
        for fid, rec in self.findings:
            d = next((k for k in known if k["id"] == fid), {})
            print("KNOWN-FINDING: property=%s %s" % (self.prop, d.get("what", rec["msg"])))
        rc = 0
        for rec in self.violations:
            print("  %s: %s: %s [%s]" % (rec["harness"], rec["kind"], rec["msg"][:300], "; ".join(rec["inputs"][:24])))
            print("VIOLATION property=%s replay=%s" % (self.prop, rec["replay"]))
            rc = 1
        for rec in self.unconfirmed:
            print("note: unconfirmed counterexample in %s (%s: %s) did not reproduce natively; not reported" % (rec["harness"], rec["kind"], rec["msg"][:200]))
        for m in mism[:3]:
            print("note: sampled path of %s behaves differently in the native build: %s" % (m["harness"], m["out"][-300:]))
        for n in self.notes:
            print("note: " + n[:1500])
        tot = lambda k: sum(r["agg"].get(k, 0) for r in results)
        print("%s %s: %d harnesses, %d paths, %d solver queries (%d to z3, %.1f s), %d assertion queries (%d unsat), %s, %.1f s" % (
            self.prop, self.tier, len(results), tot("paths"), tot("queries"), tot("z3_queries"), tot("z3_time"), tot("assert_queries"), tot("assert_unsat"),
            "complete within bounds" if not any(r["incomplete"] or r["missing"] for r in results) and not skipped else "INCOMPLETE", time.time() - t0))
        for r in results:
            if r["incomplete"] or r["missing"] or r["unsupported"] or os.environ.get("VP_VERBOSE"):
                print("   %-28s paths=%d killed=%d wall=%.1f incomplete=%s unsupported=%s missing=%s reached=%s" % (r["h"]["entry"], r["agg"]["paths"], r["agg"]["killed"], r["wall"], r["incomplete"], r["unsupported"], r["missing"], r["reached"]))
        shutil.rmtree(self.tmp, ignore_errors=True)
        return rc

    def write_evidence(self, results, validated, mism, samples, skipped, wall):
        tot = lambda k: sum(r["agg"].get(k, 0) for r in results)
        cov = set()
        for r in results:
            cov |= r["covered"]
        exhaustive = bool(results) and not skipped and not any(r["incomplete"] or r["missing"] or r["unsupported"] for r in results) and not self.unconfirmed
        per = []
        for r in results:
            a = r["agg"]
            d = dict(harness=r["h"]["entry"], bounds=r["h"].get(self.tier + "_bounds", r["h"].get("bounds", "")), paths=a["paths"], pruned_by_assumption=a["killed"], instructions=a["steps"], solver_queries=a["queries"], z3_queries=a["z3_queries"],
                     byte_domain_queries=a["domain_queries"], solver_s=round(a["z3_time"], 3), assertion_queries=a["assert_queries"], assertion_queries_unsat=a["assert_unsat"], asserts_executed=a["asserts"],
                     reachability_witnesses=r["reached"], missing_witnesses=r["missing"], incomplete=r["incomplete"], unsupported=r["unsupported"], counterexamples=len(r["viols"]), wall_s=round(r["wall"], 2))
            for k, v in a.items():
                if k.startswith("mt_"):
                    d[k] = v
            if r["h"].get("finding"):
                d["known_finding"] = r["h"]["finding"]
            per.append(d)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", wall_s=round(wall, 2), violations=len(self.violations),
                  coverage=dict(states=tot("paths"), transitions=tot("steps"), traces_validated_against_impl=validated, samples=samples or [dict(note="no sample")], exhaustive=exhaustive,
                                technique="symbolic execution of the LLVM IR of /repo's current sources; branch feasibility and assertions decided by z3 (bit-vectors), every path within the bounds",
                                functions_encoded=sorted(cov), harnesses=per, solver_queries=tot("queries"), z3_queries=tot("z3_queries"), solver_s=round(tot("z3_time"), 2),
                                assertion_queries=tot("assert_queries"), assertion_queries_unsat=tot("assert_unsat"), bounds=self.P.get("bounds", ""), outside_bounds=self.P.get("outside", ""),
                                unconfirmed_counterexamples=self.unconfirmed, encoding_mismatches=mism, harnesses_not_compiling=skipped, notes=self.notes,
                                violations_found=self.violations, known_findings=[f for f, _ in self.findings]),
                  assumptions=self.P.get("assumptions", []) + ["runtime models in /verif/rt stand for libstdc++/libc shared-library code (exceptions, locale-free iostreams, hashing, tree balancing)", "memory allocation succeeds"])
        os.makedirs(HERE + "/evidence", exist_ok=True)
        with open(HERE + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 4 and sys.argv[2] == "--replay":
        r = Run(prop, os.environ.get("VERIF_TIER", "quick"))
        h = next(h for h in r.P["harnesses"] if h["entry"] == sys.argv[3])
        r.rts = ensure_built()
        r.lower(h)
        ok, out = r.replay(h, sys.argv[4], "timeout")
        print(out)
        print("reproduced" if ok else "not reproduced")
        shutil.rmtree(r.tmp, ignore_errors=True)
        return 1 if ok else 0
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    if prop == "setup":
        ensure_built()
        return 0
    return Run(prop, tier).main()


if __name__ == "__main__":
    sys.exit(main())
