#!/usr/bin/env python3
"""Builds and runs the property checks.

  run.py check C01            run the check for one property (VERIF_SEED, VERIF_TIER)
  run.py replay C01 FILE      rebuild and replay one saved case
  run.py setup                check that the toolchain is there
  run.py all [C01 C07 ...]    run several checks, one after another
"""
import sys, os, json, hashlib, subprocess, time, glob, re, shutil, concurrent.futures, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
NPROC = os.cpu_count() or 8
sys.path.insert(0, os.path.join(VERIF, "lib"))
from checklist import CHECKS  # noqa

BASE = ["-std=gnu++17", "-w", "-g", "-include", "unistd.h", "-Wno-format",
        "-I" + REPO, "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "lib/stubs")]
WRAPS_SEQ = ["time", "gettimeofday", "clock_gettime", "sleep", "usleep", "nanosleep",
             "pthread_cond_timedwait", "pthread_mutex_timedlock",
             "clock_nanosleep", "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv",
             "syslog", "__syslog_chk", "vsyslog", "openlog", "closelog"]

WRAPS_SCHED = [w for w in WRAPS_SEQ] + [
    "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_mutex_clocklock",
    "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_clockwait",
    "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_unlock",
    "pthread_create", "pthread_join", "pthread_detach", "pthread_self", "sched_yield",
    "sem_init", "sem_destroy", "sem_wait", "sem_trywait", "sem_timedwait", "sem_post", "sem_getvalue",
    "malloc", "free", "calloc", "realloc", "strdup", "memcpy", "memmove", "memset", "memcmp", "strlen", "strcpy", "strcmp",
    "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_allocate_exception",
    "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv"]

KINDS = {
    # sequential checks: clang, address sanitizer, coverage for the fuzzing stage; automatic variables get a fixed
    # pattern so that a read of an uninitialised one is the same on every run
    "seq": dict(cxx="clang++",
                lib=["-O1", "-fsanitize=fuzzer-no-link,address", "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer"],
                eng=["-O2", "-fsanitize=address"],
                link=["-fsanitize=address"], fuzz=True, engine=["lib/pbt.cpp", "lib/env.cpp"], wraps=WRAPS_SEQ),
    # scheduled checks: g++ thread-sanitizer instrumentation with our own runtime (lib/dsched.cpp)
    "sched": dict(cxx="g++",
                  lib=["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
                  eng=["-O2", "-DENV_SCHED"], link=["-rdynamic"], fuzz=False, engine=["lib/pbt.cpp", "lib/env.cpp", "lib/dsched.cpp"],
                  wraps=WRAPS_SCHED),
}

def log(*a):
    print(*a, flush=True)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()

def readb(p):
    with open(p, "rb") as f: return f.read()

class BuildError(Exception): pass

def parts(pid):
    """a check is made of one or more programs: [(name, configuration)]"""
    cfg = CHECKS[pid]
    return [(pid, cfg)] + [(pid + "." + str(k + 2), p) for k, p in enumerate(cfg.get("more", []))]

def build(pid, cfg):
    kind = KINDS[cfg["kind"]]
    bdir = os.path.join(BUILD, pid); os.makedirs(bdir, exist_ok=True)
    cache = os.path.join(BUILD, "cache"); os.makedirs(cache, exist_ok=True)
    headers = sorted(glob.glob(REPO + "/*.h")) + sorted(glob.glob(VERIF + "/lib/*.h")) + \
        sorted(glob.glob(VERIF + "/checks/*.h")) + sorted(glob.glob(VERIF + "/lib/stubs/**/*.h", recursive=True))
    hh = sha(*[x for h in headers for x in (h, readb(h))])
    jobs = []
    for s in sorted(glob.glob(REPO + "/*.cpp")):
        b = os.path.basename(s)
        if b.endswith("Test.cpp"): continue
        jobs.append((s, BASE + kind["lib"] + cfg.get("cflags", [])))
    for s in cfg["src"]:
        jobs.append((os.path.join(VERIF, "checks", s), BASE + kind["lib"] + cfg.get("cflags", []) + cfg.get("hflags", [])))
    for s in kind["engine"]:
        jobs.append((os.path.join(VERIF, s), BASE + kind["eng"]))
    objs = []
    def comp(job):
        src, flags = job
        key = sha(hh, src, readb(src), kind["cxx"], " ".join(flags))[:32]
        o = os.path.join(cache, key + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            r = subprocess.run([kind["cxx"]] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError("%s: %s" % (src, r.stdout.decode(errors="replace")[:3000]))
            os.rename(tmp, o)
        return o
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(comp, jobs))
    exe = os.path.join(bdir, "check")
    nlib = len([j for j in jobs if j[0].startswith(REPO + "/")])
    lib = os.path.join(bdir, "librepo.a")
    if os.path.exists(lib): os.unlink(lib)
    subprocess.run(["ar", "rcs", lib] + objs[:nlib], check=True)
    link = [kind["cxx"]] + kind["link"] + cfg.get("lflags", []) + objs[nlib:] + [lib, "-o", exe + ".tmp"]
    for w in kind["wraps"] + cfg.get("wraps", []): link.append("-Wl,--wrap=" + w)
    if kind["fuzz"]:
        rt = subprocess.run(["clang++", "-print-file-name=libclang_rt.fuzzer_no_main.a"], stdout=subprocess.PIPE).stdout.decode().strip()
        if not os.path.exists(rt):
            cand = glob.glob("/usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a")
            rt = cand[0] if cand else ""
        if rt: link += ["-Wl,-u,LLVMFuzzerRunDriver", rt]
    link += ["-lsqlite3", "-lpthread", "-ldl", "-lm"]
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise BuildError("link: " + r.stdout.decode(errors="replace")[:4000])
    os.rename(exe + ".tmp", exe)
    return exe, bdir

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:symbolize=1:malloc_fill_byte=173:max_malloc_fill_size=65536",
           LC_ALL="C", TZ="UTC")

def replay_once(exe, bdir, path, tag, timeout):
    """-> (verdict, text, used choices); verdict 'pass', 'FAIL:<sig>', 'CRASH' or 'HANG'"""
    cur = os.path.join(bdir, "replay-%s.cur" % tag)
    try:
        r = subprocess.run([exe, "replay", path, "-out", bdir, "-tag", str(tag), "-cur", cur], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout, env=ENV, cwd=bdir)
    except subprocess.TimeoutExpired:
        return "HANG", "no end after %d s" % timeout, None
    finally:
        try: os.unlink(cur)
        except OSError: pass
        shutil.rmtree(os.path.join(bdir, "scratch-r%s" % tag), ignore_errors=True)
    out = r.stdout.decode(errors="replace"); err = r.stderr.decode(errors="replace")
    m = re.search(r"^--- used(.*)$", out, re.M)
    used = [int(x) for x in m.group(1).split()] if m else None
    if r.returncode == 0 and "--- result: pass" in out: return "pass", out, used
    m = re.search(r"--- result: FAIL sig=(\S*)", out)
    if r.returncode == 1 and m: return "FAIL:" + m.group(1), out, used
    if r.returncode == 3: return "ERROR", out + err, used
    return "CRASH", out + "\n(ended with status %d)\n" % r.returncode + (err if len(err) < 4000 else err[:2500] + "\n[...]\n" + err[-800:]), used

def write_case(path, test, sig, choices, comment=""):
    with open(path, "w") as f:
        f.write("test %s\nsig %s\nchoices %s\n" % (test, sig, " ".join(map(str, choices))))
        for l in comment.splitlines(): f.write("# " + l + "\n")

def read_case(path):
    test = sig = ""; ch = []
    for l in open(path, errors="replace"):
        if l.startswith("test "): test = l[5:].strip()
        elif l.startswith("sig "): sig = l[4:].strip()
        elif l.startswith("choices"): ch = [int(x) for x in l.split()[1:]]
    return test, sig, ch

def read_cur(path, tests):
    b = readb(path)
    import struct
    t, no, n, busy = struct.unpack_from("<4Q", b, 0)
    ch = list(struct.unpack_from("<%dQ" % n, b, 32))
    return tests[t][0], no, ch, busy

def klass(v): return v.split(":")[0]

def shrink(exe, bdir, test, sig, choices, verdict, budget, timeout):
    """Delete chunks, zero, then lower choices while the same kind of failure remains."""
    end = time.time() + budget
    counter = [0]
    def good(ch):
        counter[0] += 1; k = counter[0]
        p = os.path.join(bdir, "shrink-%d.case" % k)
        write_case(p, test, sig, ch)
        v, _, used = replay_once(exe, bdir, p, "s%d" % k, timeout)
        os.unlink(p)
        ok = v == verdict if verdict.startswith("FAIL") else klass(v) == klass(verdict)
        return ok, used
    best = choices
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        def attempt(cands):
            nonlocal best
            """tries candidates in batches; adopts the first that still fails"""
            for i in range(0, len(cands), NPROC):
                if time.time() > end: return False
                batch = cands[i:i+NPROC]
                for c, (ok, used) in zip(batch, ex.map(good, batch)):
                    if ok:
                        if used is not None and len(used) < len(c): c = used
                        best = c; return True
            return False
        # drop an unused tail first
        progress = True
        while progress and time.time() < end:
            progress = False
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() < end:
                cands = [best[:i] + best[i+size:] for i in range(0, len(best), size)]
                if attempt(cands): progress = True; size = min(size, max(1, len(best)//2)); continue
                size //= 2
            for size in (8, 4, 2, 1):
                i = 0
                cands = [best[:i] + [0]*size + best[i+size:] for i in range(0, max(0, len(best)-size+1)) if any(best[i:i+size])]
                while cands and attempt(cands):
                    progress = True
                    cands = [best[:i] + [0]*size + best[i+size:] for i in range(0, max(0, len(best)-size+1)) if any(best[i:i+size])]
                    if time.time() > end: break
            for i in range(len(best)):
                if time.time() > end: break
                lo = 0
                while i < len(best) and best[i] > 0 and time.time() < end:
                    v = best[i]
                    opts = sorted({v//2, v-1, v*3//4, v-(v//8) if v >= 8 else v-1, 1 if v > 1 else 0})
                    if not attempt([best[:i] + [o] + best[i+1:] for o in opts if o < v]): break
                    progress = True
    return best

def known_findings(pid):
    """known: property=<id> sig=<sig> <what>"""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+sig=(\S+)\s+(.*)", l)
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3).strip()))
    return r

def check_part(pid, name, cfg, exe, bdir, seed, tier):
    """-> (violation or None, result)"""
    kind = KINDS[cfg["kind"]]
    wd = os.path.join(bdir, "run"); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    tests = [(l.split()[0], int(l.split()[1]), l.split()[2] == "1") for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, env=ENV).stdout.decode().splitlines()]
    known = known_findings(pid)
    kf = os.path.join(wd, "known"); open(kf, "w").write("".join(s + "\n" for s, _ in known))
    thorough = tier == "thorough"
    scale = cfg.get("thorough_scale", 20) if thorough else cfg.get("scale", 1)
    limit = 3000 if thorough else 240       # seconds; only a backstop, the case counts decide
    W = cfg.get("workers", NPROC)
    case_timeout = cfg.get("case_timeout", 60)
    problems = []   # (test, sig, choices, prefix or None, text)
    stats = []
    def run_procs(procs, hard):
        """procs: list of (popen, base, kind, how)"""
        last = {}
        live = list(procs); begin = time.time()
        while live:
            time.sleep(0.05)
            for pr in list(live):
                p, base, how, errf = pr
                rc = p.poll()
                if rc is not None:
                    live.remove(pr)
                    finish(pr, rc); continue
                try:
                    with open(base + ".cur", "rb") as f: head = f.read(32)
                except OSError: head = b""
                now = time.time()
                if last.get(base, (None, 0))[0] != head: last[base] = (head, now)
                elif now - last[base][1] > case_timeout and head and head[24:32] != b"\0"*8:
                    p.kill(); p.wait(); live.remove(pr); finish(pr, "hang")
                elif now - begin > hard:
                    p.kill(); p.wait(); live.remove(pr); finish(pr, "time")
            if problems and time.time() - begin > 2:
                for pr in live: pr[0].kill(); pr[0].wait(); 
                for pr in live:
                    if os.path.exists(pr[1] + ".json"): stats.append(pr[1])
                live = []
    def finish(pr, rc):
        p, base, how, errf = pr
        if os.path.exists(base + ".json"): stats.append(base)
        if rc == 0 or rc == "time": return
        err = readb(errf).decode(errors="replace")
        if rc == 1 and os.path.exists(base + ".fail"):
            t, s, ch = read_case(base + ".fail")
            no = 0
            if os.path.exists(base + ".failno"): no = int(open(base + ".failno").read())
            problems.append((t, s, ch, (how, no), readb(base + ".fail").decode(errors="replace")))
        elif os.path.exists(base + ".cur"):
            t, no, ch, busy = read_cur(base + ".cur", tests)
            if rc == "hang":
                problems.append((t, "hang", ch, (how, no), "case did not end within %d s" % case_timeout))
            elif busy:
                m = re.search(r"(ERROR: AddressSanitizer[^\n]*|Assertion[^\n]*failed[^\n]*|terminate called[^\n]*)", err)
                problems.append((t, "crash", ch, (how, no), "process died (status %s) %s" % (rc, m.group(1) if m else err[-800:])))
            else: raise RuntimeError("worker %s ended with %s outside any case: %s" % (base, rc, err[-2000:]))
        else: raise RuntimeError("worker %s ended with %s: %s" % (base, rc, err[-2000:]))
    # saved cases first: every case in /verif/cases/<id>/ is a regression
    ncases_replayed = 0
    for cp in sorted(glob.glob(os.path.join(VERIF, "cases", pid, "*.case"))):
        v, text, used = replay_once(exe, bdir, cp, "c", case_timeout * 3)
        ncases_replayed += 1
        t, s, ch = read_case(cp)
        if read_case(cp)[0] not in [t[0] for t in tests]: continue   # another part's
        if v != "pass" and not (v.startswith("FAIL:") and v[5:] in [k for k, _ in known]):
            problems.append((t, v[5:] if v.startswith("FAIL:") else v.lower(), ch, None, text))
            break
    if not problems:
        procs = []
        args = {}
        for w in range(W):
            base = os.path.join(wd, "w%d" % w); errf = base + ".err"
            cmd = [exe, "random", "-seed", str(seed), "-worker", str(w), "-workers", str(W), "-scale", str(scale), "-time", str(limit), "-out", wd, "-known", kf]
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(errf, "wb"), stdin=subprocess.DEVNULL, env=ENV, cwd=wd)
            procs.append((p, base, cmd, errf))
        run_procs(procs, limit + 120)
    # coverage-guided stage
    nfuzz = 0
    if not problems and kind["fuzz"] and cfg.get("fuzz", True):
        ft = [t for t in tests if t[2]]
        runs_scale = cfg.get("fuzz_scale", 0.5) * (scale if thorough else 1)
        queue = list(ft); 
        for i in range(0, len(queue), NPROC):
            procs = []
            for name, q, _ in queue[i:i+NPROC]:
                runs = max(200, int(q * runs_scale / 4))
                base = os.path.join(wd, "fuzz-" + name); corp = base + ".corpus"; os.makedirs(corp, exist_ok=True)
                errf = base + ".err"
                cmd = [exe, "fuzz", "-test", name, "-out", wd, "-known", kf, "--", "-seed=%d" % (seed % 4000000000 + 1), "-runs=%d" % runs,
                       "-max_total_time=%d" % (900 if thorough else 60), "-use_value_profile=1", "-detect_leaks=0", "-max_len=%d" % cfg.get("max_len", 1200),
                       "-timeout=%d" % case_timeout, "-rss_limit_mb=4000", "-malloc_limit_mb=0", "-artifact_prefix=" + base + ".", "-verbosity=0", "-handle_abrt=0", corp]
                p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(errf, "wb"), stdin=subprocess.DEVNULL, env=ENV, cwd=wd)
                procs.append((p, base, None, errf))
            nfuzz += len(procs)
            run_procs(procs, (1000 if thorough else 150))
            if problems: break
    # judge the problems
    violation = None; notes = []
    os.makedirs(OUT, exist_ok=True)
    if problems:
        problems.sort(key=lambda x: (x[1] == "hang", len(x[2])))
        tried = 0
        for test, sig, ch, prefix, text in problems:
            tried += 1
            if tried > 4: break
            cp = os.path.join(wd, "problem.case"); write_case(cp, test, sig, ch)
            with concurrent.futures.ThreadPoolExecutor(3) as ex:
                vs = [r[0] for r in ex.map(lambda k: replay_once(exe, bdir, cp, "p%d" % k, case_timeout * 2), range(3))]
            if len(set(vs)) > 1 or vs[0] in ("pass", "ERROR"):
                if all(v not in ("pass", "ERROR") for v in vs): pass   # fails every time, though not alike (memory errors do that)
                else:
                    # state carried over from earlier cases? replay the worker up to this case, three times
                    how, no = prefix if prefix else (None, 0)
                    if how and no:
                        base = how[how.index("-worker")+1]
                        def again(k):
                            try: return subprocess.run(list(how) + ["-upto", str(no), "-tag", "p%d" % k], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=ENV, cwd=wd, timeout=limit+case_timeout if thorough else 180).returncode != 0
                            except subprocess.TimeoutExpired: return sig == "hang"
                        with concurrent.futures.ThreadPoolExecutor(3) as ex: n_ok = sum(ex.map(again, range(3)))
                        if n_ok == 3:
                            rp = os.path.join(OUT, "%s-%s.case" % (pid, sha(str(how), str(no))[:10]))
                            with open(rp, "w") as f:
                                f.write("prefix %s\nupto %d\ntest %s\nsig %s\n" % (json.dumps(how), no, test, sig))
                                for l in text.splitlines(): f.write("# " + l + "\n")
                            violation = (rp, text); break
                    notes.append("not reproduced: %s %s (%s)" % (test, sig, ",".join(vs)))
                    continue
            v = vs[0]
            log("%s: %s fails (%s); shrinking %d choices" % (pid, test, v, len(ch)))
            if v == "HANG": best = ch
            else: best = shrink(exe, bdir, test, sig, ch, v, float(os.environ.get("VERIF_SHRINK", cfg.get("shrink_s", 40))), case_timeout)
            rp = os.path.join(OUT, "%s-%s.case" % (pid, sha(test, str(best))[:10]))
            write_case(rp, test, sig, best)
            if v == "HANG": v2, text2 = v, "no end within %d s, four times" % case_timeout
            else: v2, text2, _ = replay_once(exe, bdir, rp, "p", case_timeout * 2)
            if v2 in ("pass", "ERROR"): best = ch; write_case(rp, test, sig, best); v2, text2, _ = replay_once(exe, bdir, rp, "p", case_timeout * 2)
            write_case(rp, test, v2, best, text2)
            violation = (rp, text2); break
    tot = dict(evaluations=0, discards=0); per = {}; labels = {}; samples = []; hashes = []
    khits = {}
    for base in sorted(set(stats)):
        try: j = json.load(open(base + ".json"))
        except (OSError, ValueError): continue
        if os.path.exists(base + ".json.hash"): hashes.append(base + ".json.hash")
        for t, s in j["tests"].items():
            d = per.setdefault(t, dict(cases=0, nontrivial=0, discards=0, labels={}))
            for k in ("cases", "nontrivial", "discards"): d[k] += s[k]
            for k, n in s["labels"].items(): d["labels"][k] = d["labels"].get(k, 0) + n
            tot["evaluations"] += s["cases"]
            for x in s["samples"][:2]:
                if len([1 for y in samples if y["test"] == t]) < 2: samples.append(dict(test=t, case=x[:1200]))
        for k, n in j["known"].items(): khits[k] = khits.get(k, 0) + n
    distinct = int(subprocess.run([exe, "merge"] + hashes, stdout=subprocess.PIPE, env=ENV).stdout.decode().strip() or 0) if hashes else 0
    shutil.rmtree(wd, ignore_errors=True)
    return violation, dict(evaluations=tot["evaluations"], distinct=distinct, samples=samples, per=per, nfuzz=nfuzz, saved=ncases_replayed, known=khits, notes=notes, workers=W)

def check(pid, seed, tier):
    t0 = time.time()
    cfg = CHECKS[pid]
    ps = parts(pid)
    built = [build(n, c) for n, c in ps]
    t_build = time.time() - t0
    violation = None; res = []
    for (n, c), (exe, bdir) in zip(ps, built):
        violation, r = check_part(pid, n, c, exe, bdir, seed, tier)
        res.append(r)
        if violation: break
    evals = sum(r["evaluations"] for r in res); distinct = sum(r["distinct"] for r in res)
    samples = [x for r in res for x in r["samples"]]; notes = [x for r in res for x in r["notes"]]
    per = {}; khits = {}
    for r in res:
        per.update(r["per"])
        for k, n in r["known"].items(): khits[k] = khits.get(k, 0) + n
    known = known_findings(pid)
    rule = "; ".join([cfg["rule"]] + [c["rule"] for _, c in ps[1:]])
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=rule, samples=samples or [dict(test="-", case="no case finished")],
                            per_test=per, random_workers=res[0]["workers"], fuzz_campaigns=sum(r["nfuzz"] for r in res), saved_cases_replayed=sum(r["saved"] for r in res), known_finding_hits=khits,
                            unreproduced=notes, build_s=round(t_build, 1)),
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ep = os.path.join(VERIF, "evidence", pid + ".json")
    with open(ep + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.rename(ep + ".tmp", ep)
    for n in notes: log(pid + ": " + n)
    if violation:
        t = violation[1]
        log(t if len(t) < 6000 else t[:3500] + "\n[...]\n" + t[-2000:])
        log("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    for s, what in known: log("KNOWN-FINDING: property=%s %s" % (pid, what))
    log("%s: held on %d cases (%d distinct non-trivial) in %.1f s (build %.1f s)" % (pid, evals, distinct, time.time() - t0, t_build))
    if evals == 0:
        log("%s: no cases were run" % pid); return 2
    return 0

def main():
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    if cmd == "check":
        try: return check(sys.argv[2], seed, tier)
        except BuildError as e:
            log("%s: build failed\n%s" % (sys.argv[2], e)); return 2
    if cmd == "all":
        bad = 0
        for pid in (sys.argv[2:] or sorted(CHECKS)):
            rc = subprocess.run([sys.executable, os.path.abspath(__file__), "check", pid]).returncode
            if rc: bad += 1; log("%s: exit %d" % (pid, rc))
        return 1 if bad else 0
    if cmd == "replay":
        pid, path = sys.argv[2], os.path.abspath(sys.argv[3])
        test = read_case(path)[0]
        for n, c in parts(pid):
            exe, bdir = build(n, c)
            if test in [l.split()[0] for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, env=ENV).stdout.decode().splitlines()]: break
        first = open(path).readline()
        if first.startswith("prefix "):
            how = json.loads(first[7:]); upto = open(path).read().split("upto ")[1].split()[0]
            how[0] = exe; wd = os.path.join(bdir, "run"); os.makedirs(wd, exist_ok=True); open(os.path.join(wd, "known"), "a").close()
            return subprocess.run(how + ["-upto", upto], env=ENV, cwd=bdir).returncode
        v, text, used = replay_once(exe, bdir, path, "x", 600)
        log(text); log("verdict:", v)
        return 0 if v == "pass" else 1
    if cmd == "build":
        for pid in (sys.argv[2:] or sorted(CHECKS)):
            for n, c in parts(pid): log(build(n, c)[0])
        return 0
    if cmd == "setup":
        for t in ("clang++", "g++", "ld"):
            if not shutil.which(t): log("missing tool: " + t); return 1
        os.makedirs(BUILD, exist_ok=True)
        test = os.path.join(BUILD, "setup.cpp"); open(test, "w").write("#include <sqlite3.h>\nint main(){return 0;}\n")
        for c in (["clang++", "-fsanitize=address"], ["g++"]):
            if subprocess.run(c + [test, "-o", os.path.join(BUILD, "setup.bin"), "-lsqlite3", "-lpthread"]).returncode: return 1
        log("toolchain present"); return 0
    print(__doc__); return 2

if __name__ == "__main__":
    try: rc = main()
    except RuntimeError as e: log("error: %s" % e); rc = 2
    sys.exit(rc)
