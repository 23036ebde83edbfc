"""check.py's engine room: compile the harness against /repo's current sources, verify every entry,
replay counterexamples, drive the same contracts natively, write evidence, give the verdict."""
import os, sys, json, time, re, subprocess, tempfile, shutil, multiprocessing, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VC_REPO", "/repo")
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
CFLAGS = ["-std=c++17", "-fno-access-control", "-include", "functional", "-include", "cstdint", "-w",
          "-I" + REPO, "-I" + REPO + "/include", "-I" + REPO + "/src/lib", "-I" + VERIF + "/harness"]
IRFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-emit-llvm", "-gline-tables-only", "-c"]
DEFAULT_PASSES = "function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),lcssa"


def sh(cmd, timeout=300, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", **kw)


class BuildError(Exception):
    pass


def compile_ir(unit, tmp):
    src = os.path.join(VERIF, "harness", unit['src'])
    base = os.path.join(tmp, os.path.splitext(unit['src'])[0])
    r = sh([CLANG] + CFLAGS + unit.get('cflags', []) + IRFLAGS + [src, "-o", base + ".bc"])
    if r.returncode:
        raise BuildError("clang: " + r.stdout[-4000:])
    cmd = ["opt-18", "-passes=" + unit.get('passes', DEFAULT_PASSES), base + ".bc", "-o", base + ".opt.bc"] + unit.get('optflags', [])
    r = sh(cmd)
    if r.returncode:
        raise BuildError("opt: " + r.stdout[-4000:])
    return base + ".opt.bc"


def gen_grammar(tmp):
    d = os.path.join(tmp, "gen")
    os.makedirs(d, exist_ok=True)
    r = sh(["bison", "-o", d + "/re_grammar.cpp", REPO + "/src/lib/re_grammar.ypp"])
    if r.returncode and os.path.exists(REPO + "/src/lib/re_grammar.cpp"):
        shutil.copy(REPO + "/src/lib/re_grammar.cpp", d)


def build_lib(tmp):
    """the whole library without ICU, from /repo's current sources, for native-only units; list of object files"""
    import glob
    from concurrent.futures import ThreadPoolExecutor
    d = os.path.join(tmp, "lib")
    os.makedirs(d)
    g = os.path.join(d, "re_grammar.cpp")
    r = sh(["bison", "-o", g, REPO + "/src/lib/re_grammar.ypp"])
    if r.returncode:
        g2 = REPO + "/src/lib/re_grammar.cpp"
        if not os.path.exists(g2):
            raise BuildError("bison: " + r.stdout[-1000:])
        g = g2
    srcs = [f for f in glob.glob(REPO + "/src/lib/*.cpp") + glob.glob(REPO + "/src/lib/decoders/*.cpp") + [g]
            if not re.match(r"icu", os.path.basename(f)) and f != REPO + "/src/lib/re_grammar.cpp"] + ([g] if g.startswith(REPO) else [])
    def one(f):
        o = os.path.join(d, os.path.basename(f) + ".o")
        r = sh([CLANG] + CFLAGS + LIBFLAGS + ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-c", f, "-o", o])
        if r.returncode:
            raise BuildError("library: " + r.stdout[-2000:])
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, srcs))


LIBFLAGS = ["-iquote", VERIF + "/harness/noicu"]


def compile_native(unit, tmp, lib=()):
    out = os.path.join(tmp, os.path.splitext(unit['src'])[0] + ".native")
    r = sh([CLANG] + CFLAGS + (LIBFLAGS if lib else []) + unit.get('cflags', []) + unit.get('ncflags', []) +
           ["-DVC_NATIVE", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-rdynamic",
            os.path.join(VERIF, "harness", unit['src']), os.path.join(VERIF, "harness", "native.cpp"), "-o", out] + list(lib) +
           unit.get('ldflags', []) + ["-ldl"], timeout=600)
    if r.returncode:
        raise BuildError("native: " + r.stdout[-4000:])
    return out


def entry_opts(unit, entry):
    o = dict(unit.get('opts', {}))
    for pat, oo in unit.get('entry_opts', []):
        if re.match(pat + "$", entry):
            o.update(oo)
    return o


def verify_entry(bc, entry, opts, budget):
    """runs in its own process; returns a plain dict"""
    sys.path.insert(0, HERE)
    import irload, engine
    t0 = time.time()
    res = {"entry": entry, "obligs": [], "covers": {}, "error": None, "functions": {}, "models": {}, "contracts": {}}
    e = None
    try:
        m = irload.Module(bc)
        if 'loopspecs' in opts:
            import loops
            opts['loopspecs'] = loops.build(opts['loopspecs'])
        e = engine.Engine(m, opts)
        e.deadline = t0 + budget
        e.run(entry)
    except engine.Stop as x:
        res["error"] = "stopped: " + str(x)
    except engine.Unsupported as x:
        res["error"] = "unsupported: " + str(x)
    except Exception as x:
        res["error"] = "verifier error: " + repr(x) + " " + traceback.format_exc()[-1500:]
    if e is not None:
        res["obligs"] = [{"name": o.name, "where": o.where, "kind": o.kind, "status": o.status, "time": round(o.time, 3),
                          "model": o.model, "detail": o.detail} for o in e.obligs]
        res["trivial_mem"] = getattr(e, 'trivial_mem', 0)
        res["covers"] = e.covers
        res["functions"] = e.functions_used
        res["models"] = e.models_used
        res["contracts"] = e.contracts_used
        res["loops"] = e.loopinfo
        res["queries"] = e.queries
        res["by_cvc5"] = e.cvc5_used
        res["solver_s"] = round(e.solver_time, 2)
        res["quantified_hypotheses"] = len(e.foralls)
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def worker(job, q):
    bc, unit_i, entry, opts, budget = job
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    except Exception:
        pass
    try:
        r = verify_entry(bc, entry, opts, budget)
    except BaseException as x:
        r = {"entry": entry, "obligs": [], "covers": {}, "error": "verifier error: " + repr(x), "functions": {}, "models": {}, "contracts": {}, "wall_s": 0}
    r["unit"] = unit_i
    q.put(r)


def run_jobs(jobs, nproc, total_deadline):
    """each job in its own process (a native crash of the solver loses only that job)"""
    ctx = multiprocessing.get_context("fork")
    pending = list(jobs)
    running = []
    results = []
    while pending or running:
        while pending and len(running) < nproc:
            j = pending.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=worker, args=(j, q))
            p.start()
            running.append((p, q, j, time.time()))
        time.sleep(0.02)
        nxt = []
        for p, q, j, t in running:
            if not q.empty():
                results.append(q.get())
                p.join()
                continue
            if not p.is_alive():
                p.join()
                if not q.empty():
                    results.append(q.get())
                else:
                    results.append(dead(j, "verifier process died"))
                continue
            if time.time() - t > j[4] + 60 or time.time() > total_deadline:
                p.kill()
                p.join()
                results.append(dead(j, "time budget exhausted"))
                continue
            nxt.append((p, q, j, t))
        running = nxt
        if time.time() > total_deadline and pending:
            for j in pending:
                results.append(dead(j, "time budget exhausted"))
            pending = []
    return results


def dead(j, why):
    return {"entry": j[2], "unit": j[1], "obligs": [], "covers": {}, "error": "unsupported: " + why, "functions": {}, "models": {}, "contracts": {}, "wall_s": 0}


NATENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=23:abort_on_error=0:handle_segv=1:allocator_may_return_null=1:detect_odr_violation=0")


def parse_native_fail(out):
    m = re.search(r"^FAILED (.*)$", out, re.M)
    if not m:
        return None
    js = None
    m2 = re.search(r"^(\{\"nd\".*\})$", out, re.M)
    if m2:
        try:
            js = json.loads(m2.group(1))
        except Exception:
            js = None
    return m.group(1), js


def native_replay(exe, entry, model, tmp, tag):
    f = os.path.join(tmp, "replay_%s.txt" % tag)
    with open(f, "w") as fh:
        for n, v in model["nd"]:
            fh.write("nd %s %d\n" % (n.replace(" ", "_"), v))
        for n, s, h in model["alloc"]:
            fh.write("alloc %s %d %s\n" % (n.replace(" ", "_"), s, h or "-"))
    try:
        r = sh([exe, entry, "replay", f], timeout=30, env=NATENV)
    except subprocess.TimeoutExpired:
        return ("does not terminate within 30 s", model), ""
    return parse_native_fail(r.stdout) or (("crash (exit %d)" % r.returncode, model) if r.returncode not in (0, 9) else None), r.stdout


def native_random(exe, entry, secs, seed, maxruns=None):
    cmd = [exe, entry, "random", str(secs), str(seed)]
    if maxruns:
        cmd.append(str(maxruns))
    try:
        r = sh(cmd, timeout=secs + 60, env=NATENV)
    except subprocess.TimeoutExpired:
        return ("does not terminate", {"nd": [], "alloc": []}), {}, "timeout"
    st = {}
    m = re.search(r"RUNS (\d+) COMPLETED (\d+) PROOFS (\d+)", r.stdout)
    if m:
        st = {"runs": int(m.group(1)), "completed": int(m.group(2)), "checks": int(m.group(3))}
    f = parse_native_fail(r.stdout)
    if f is None and r.returncode not in (0, 9):
        f = ("crash (exit %d)" % r.returncode, {"nd": [], "alloc": []})
    return f, st, r.stdout


def known_findings(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) entry=(\S+) obligation=\"(.*?)\" (.*)$", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main(pid, tier, seed):
    t0 = time.time()
    sys.path.insert(0, HERE)
    import props
    P = props.PROPS[pid]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": {}, "assumptions": [], "wall_s": 0.0, "violations": 0}
    outdir = os.path.join(VERIF, "evidence")
    os.makedirs(outdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vc-%s-" % pid)
    nproc = int(os.environ.get("VC_JOBS", "8"))
    budget = P.get('budget', 300) if tier == 'quick' else P.get('budget_thorough', 560)
    total = t0 + (P.get('total', 600) if tier == 'quick' else 780)
    violations, undecided, results, native_stats = [], [], [], {}
    try:
        units = P['units']
        if any(u.get('bison') for u in units):
            gen_grammar(tmp)
            units = [dict(u, cflags=u.get('cflags', []) + ["-iquote", tmp + "/gen"]) if u.get('bison') else u for u in units]
        jobs, exes, entries_of = [], {}, {}
        from concurrent.futures import ThreadPoolExecutor
        libex = ThreadPoolExecutor(1)
        libfut = libex.submit(build_lib, tmp) if any(u.get('lib') for u in units) else None
        def bld(i):
            u = units[i]
            bc = err = exe = nerr = None
            try:
                if not u.get('native_only'):
                    bc = compile_ir(u, tmp)
            except (BuildError, subprocess.TimeoutExpired) as x:
                err = str(x)
            try:
                exe = compile_native(u, tmp, libfut.result() if u.get('lib') else ()) if not u.get('no_native') else None
            except (BuildError, subprocess.TimeoutExpired) as x:
                nerr = str(x)
            return bc, err, exe, nerr
        with ThreadPoolExecutor(nproc) as ex:
            builds = list(ex.map(bld, range(len(units))))
        for i, u in enumerate(units):
            bc, err, exe, nerr = builds[i]
            exes[i] = exe
            src = open(os.path.join(VERIF, "harness", u['src'])).read()
            ents = re.findall(r"^ENTRY\s+(check_\w+)", src, re.M)
            nats = re.findall(r"^ENTRY\s+((?:check|native)_\w+)", src, re.M)
            if u.get('entries'):
                ents = [e for e in ents if re.match(u['entries'] + "$", e)]
                nats = [e for e in nats if re.match(u['entries'] + "$", e)]
            entries_of[i] = [e for e in nats if e not in u.get('no_native_entries', [])]
            if err:
                undecided.append("%s: harness does not compile against the current source: %s" % (u['src'], err[-600:]))
                continue
            if nerr:
                undecided.append("%s: native build failed: %s" % (u['src'], nerr[-600:]))
            if u.get('native_only'):
                continue
            for en in ents:
                o = entry_opts(u, en)
                if tier == 'quick' and o.pop('thorough_only', False):
                    continue
                o.pop('thorough_only', None)
                jobs.append((bc, i, en, o, o.pop('budget', budget)))
        jobs.sort(key=lambda j: -units[j[1]].get('weight', {}).get(j[2], 1))
        results = run_jobs(jobs, nproc, total)
        # ---- native drive of the same contracts (bounded complement, and the fallback when undecided)
        natsecs = P.get('native_s', 3) if tier == 'quick' else P.get('native_s_thorough', 40)
        natjobs = [(i, en) for i in exes if exes[i] for en in entries_of[i]]
        def nat(j):
            i, en = j
            secs = max(natsecs, units[i].get('native_secs', {}).get(en, 0))
            return j, native_random(exes[i], en, secs, seed)
        with ThreadPoolExecutor(nproc) as ex:
            natres = list(ex.map(nat, natjobs))
        natfail = {}
        for (i, en), (f, st, out) in natres:
            native_stats[units[i]['src'] + ":" + en] = st
            if f:
                natfail[(i, en)] = f
        # ---- judge
        nob = ndis = 0
        for r in results:
            u = units[r["unit"]]
            en = r["entry"]
            for o in r["obligs"]:
                nob += 1
                if o["status"] == 'proved':
                    ndis += 1
                elif o["status"] == 'failed':
                    violations.append({"unit": r["unit"], "entry": en, "obligation": o["name"], "kind": o["kind"], "where": o["where"],
                                       "model": o["model"], "detail": o["detail"], "solver_s": o["time"]})
                else:
                    undecided.append("%s: obligation '%s' not decided (%s) in %s" % (en, o["name"], o["detail"], o["where"]))
            if r["error"] and not r["error"].startswith("stopped"):
                undecided.append("%s: %s" % (en, r["error"]))
            if not r["error"]:
                for c, s in r["covers"].items():
                    if s != 'sat' and not s.startswith('no normal exit ok'):
                        undecided.append("%s: vacuity check '%s' is %s" % (en, c, s))
                if not r["obligs"] and not r.get("trivial_mem"):
                    undecided.append("%s: no obligations generated" % en)
        kf = known_findings(pid)
        reported, found_known = [], []
        seen = set()
        # failed obligations: find a concrete failing input
        for k, v in enumerate(violations):
            key = (v["unit"], v["entry"], v["obligation"])
            if key in seen:
                continue
            seen.add(key)
            hit = [x for x in kf if x[0] == v["entry"] and x[1] == v["obligation"]]
            if hit:
                found_known.append(hit[0])
                continue
            exe = exes.get(v["unit"])
            conc = None
            if exe and v["model"] and v["entry"] in entries_of[v["unit"]]:
                f, out = native_replay(exe, v["entry"], v["model"], tmp, str(k))
                if f:
                    conc = {"how": "verifier counterexample replayed on the real code", "failure": f[0], "input": f[1] or v["model"], "output": out[-3000:]}
            if conc is None and (v["unit"], v["entry"]) in natfail:
                f = natfail[(v["unit"], v["entry"])]
                conc = {"how": "random search on the real code with the same contract", "failure": f[0], "input": f[1]}
            if conc is None and exe and v["entry"] in entries_of[v["unit"]] and time.time() < total + 60:
                f, st, out = native_random(exe, v["entry"], 10, seed + 1)
                if f:
                    conc = {"how": "random search on the real code with the same contract", "failure": f[0], "input": f[1]}
            v["concrete"] = conc
            reported.append(v)
        for (i, en), f in natfail.items():
            if any(v["unit"] == i and v["entry"] == en for v in reported):
                continue
            hit = [x for x in kf if x[0] == en and x[1] == f[0]]
            if hit:
                found_known.append(hit[0])
                continue
            reported.append({"unit": i, "entry": en, "obligation": f[0], "kind": "native", "where": "", "model": None, "detail": "",
                             "concrete": {"how": "contract violated by the real code on a generated input (bounded drive)", "failure": f[0], "input": f[1]}})
        # ---- evidence
        fu, mo, co, lo = {}, {}, {}, []
        for r in results:
            for k, (n, src) in r.get("functions", {}).items():
                fu[k] = src
            for a, b in (("models", mo), ("contracts", co)):
                for k, v in r.get(a, {}).items():
                    b[k] = b.get(k, 0) + v
            lo += r.get("loops", []) or []
        under = sorted("%s  [%s:%d]" % (k, os.path.relpath(s[0], REPO), s[1]) for k, s in fu.items() if s and os.path.normpath(s[0]).startswith(REPO + "/"))
        stl = sorted(k for k, s in fu.items() if s and s[0].startswith("/usr/"))
        cov = ev["coverage"]
        cov["obligations"] = nob
        cov["discharged"] = ndis
        cov["checker_cmd"] = "python3-vt check.py %s --tier %s" % (pid, tier)
        cov["trusted_base"] = ["clang 18 front end and LLVM 18 mid-level passes (%s) preserve the meaning of /repo's source" % units[0].get('passes', 'sroa, early-cse, simplifycfg, instcombine, lcssa'),
                               "vc/: verification-condition generator (LLVM-IR semantics, memory model, C++ runtime models)",
                               "z3 5.x and cvc5 1.1.2 (back ends)"] + P.get('trusted', []) + ["contract assumed for: " + k for k in sorted(co)]
        cov["entries"] = [{"entry": r["entry"], "obligations": len(r["obligs"]), "discharged": sum(o["status"] == 'proved' for o in r["obligs"]),
                           "memory_accesses_discharged_syntactically": r.get("trivial_mem", 0), "covers": r["covers"], "error": r["error"],
                           "solver_s": r.get("solver_s"), "queries": r.get("queries"), "wall_s": r["wall_s"]} for r in sorted(results, key=lambda r: r["entry"])]
        cov["obligation_names"] = sorted({o["name"] for r in results for o in r["obligs"] if o["kind"] == 'assert'})
        cov["repo_functions_verified"] = under
        cov["library_functions_verified_through_their_bodies"] = len(stl)
        cov["models_of_external_functions"] = sorted(mo)
        cov["loops"] = lo
        cov["solver_s"] = round(sum(r.get("solver_s", 0) or 0 for r in results), 1)
        cov["back_end"] = "z3 (QF_AUFBV, quantified hypotheses instantiated by triggers); cvc5 with bit vectors as integers where z3 does not answer quickly"
        cov["queries_refuted_by_cvc5"] = sum(r.get("by_cvc5", 0) or 0 for r in results)
        cov["bounded_native_drive"] = native_stats
        cov["undecided"] = undecided
        if undecided:
            cov["undecided_note"] = "entries listed here are not proved on this tree; for them only the bounded native drive stands, and it is not counted as proof"
        ev["assumptions"] = P.get('assumptions', []) + props.COMMON_ASSUMPTIONS
        ev["violations"] = len(reported)
        rc = 0
        for x in sorted(set(found_known)):
            print("KNOWN-FINDING: property=%s %s (%s, %s)" % (pid, x[2], x[0], x[1]))
        if reported:
            rdir = os.path.join(outdir, "replay")
            os.makedirs(rdir, exist_ok=True)
            reported.sort(key=lambda v: v["concrete"] is None)
            for k, v in enumerate(reported[:5]):
                path = os.path.join(rdir, "%s-%d.json" % (pid, k))
                u = units[v["unit"]]
                json.dump({"property": pid, "harness": u['src'], "entry": v["entry"], "obligation": v["obligation"], "kind": v["kind"],
                           "where": v["where"], "verifier_counterexample": v["model"], "concrete": v["concrete"],
                           "replay": "clang++ %s -DVC_NATIVE -fsanitize=address harness/%s harness/native.cpp -rdynamic; ./a.out %s replay FILE   (or: state N, with N from concrete.input.state)" % (" ".join(CFLAGS), u['src'], v["entry"])},
                          open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if v["concrete"] else " no-failing-input-found"))
                print("  obligation: %s [%s] in %s" % (v["obligation"], v["entry"], v["where"][:300]))
                if v["concrete"]:
                    print("  %s: %s; input %s" % (v["concrete"]["how"], v["concrete"]["failure"], json.dumps(v["concrete"]["input"])[:600]))
            rc = 1
        for x in undecided:
            print("UNDECIDED: " + x[:700])
        print("%s %s: %d obligations, %d discharged, %d entries, %d undecided notes, %d violations, native runs %d, %.1f s" % (
            pid, tier, nob, ndis, len(results), len(undecided), len(reported), sum(s.get("runs", 0) for s in native_stats.values()), time.time() - t0))
        return rc
    except Exception:
        traceback.print_exc()
        ev["coverage"].setdefault("obligations", 0)
        ev["coverage"].setdefault("discharged", 0)
        ev["coverage"].setdefault("checker_cmd", "check.py " + pid)
        ev["coverage"].setdefault("trusted_base", [])
        ev["coverage"]["internal_error"] = traceback.format_exc()[-2000:]
        print("UNDECIDED: internal error of the check; nothing decided")
        return 0
    finally:
        ev["wall_s"] = round(time.time() - t0, 2)
        json.dump(ev, open(os.path.join(outdir, pid + ".json"), "w"), indent=1)
        shutil.rmtree(tmp, ignore_errors=True)
