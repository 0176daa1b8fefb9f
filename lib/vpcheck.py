# Drives CBMC over harness + the library's current sources, replays what the solver finds, writes the evidence file.
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
HARNESS = os.path.join(VERIF, "harness")

RENAMES = """readv writev recvfrom sendmsg socket accept accept4 connect close shutdown setsockopt getsockopt fcntl bind
listen getsockname inet_ntoa inet_aton inet_ntop inet_pton inet_addr sendto recvmsg ioctl exit signal rand_r perror strerror fprintf printf malloc calloc free
realloc write send read recv vfprintf sprintf fputc isatty fileno getenv""".split()

# Never encoded: formatted output (rmc_log.c), replaced by an empty body; the clock (time.c) unless a harness asks for it.
NOT_LIBRARY = {"rmc_log.c", "rmc_test.c", "rmc_proto_test_common.c", "rmc_proto_test_pub.c", "rmc_proto_test_sub.c",
               "rmc_wireshark_plugin.c", "pub_test.c", "sub_test.c", "sub_interval_test.c", "list_test.c",
               "circular_buffer_test.c", "time.c"}

CBMC_FLAGS = ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check",
              "--unwinding-assertions", "--no-malloc-may-fail", "--drop-unused-functions"]


def library_sources():
    """The library's own list of objects, from its Makefile; new files a change adds are picked up."""
    text = open(os.path.join(REPO, "Makefile")).read().replace("\\\n", " ")
    m = re.search(r"^OBJ\s*=(.*)$", text, re.M)
    names = [w[:-2] + ".c" for w in m.group(1).split() if w.endswith(".o")]
    return [n for n in names if n not in NOT_LIBRARY and os.path.exists(os.path.join(REPO, n))]


class H:
    def __init__(self, name, file, defs="", unwind=6, unwindset=(), packet=None, payload=None, srcs=None, extra=(),
                 timeout=600, known=None, bounds="", flags=(), max_unwind=None, fn="harness", tier="both", rename=True,
                 optional=False, engine="cbmc"):
        self.name, self.file, self.defs, self.unwind, self.unwindset = name, file, defs.split(), unwind, list(unwindset)
        self.packet, self.payload, self.srcs, self.extra = packet, payload, srcs, list(extra)
        self.timeout, self.known, self.bounds, self.flags = timeout, known, bounds, list(flags)
        self.max_unwind = max_unwind or unwind * 4
        self.engine = engine        # cbmc, or sx: path-wise symbolic execution of LLVM IR (symex/)
        self.optional = optional    # tied to the layout of a structure: left out, and said so, if it does not compile
        self.tier, self.rename = tier, rename


def S(name, file, defs="", **kw):
    return H(name, file, defs, engine="sx", **kw)


class Inconclusive(Exception):
    pass


class CompileError(Inconclusive):
    pass


def race(cmds, timeout, stop=None):
    """Runs several solvers on one query; the first answer counts and the others are stopped."""
    ps = []
    for c in cmds:
        f = tempfile.TemporaryFile()
        ps.append((subprocess.Popen(c, stdout=f, stderr=subprocess.STDOUT, start_new_session=True), f))
    end, won = time.time() + timeout, None
    try:
        while won is None and time.time() < end and not (stop and stop.is_set()):
            time.sleep(0.03)
            for i, (p, f) in enumerate(ps):
                rc = p.poll()
                # 0 holds, 10 fails; anything else (killed, out of memory) leaves the answer to the others
                if rc is not None and (rc in (0, 10) or all(q.poll() is not None for q, _ in ps)):
                    won = i
                    break
        if won is None:
            return None, "", None
        p, f = ps[won]
        f.seek(0)
        return p.returncode, f.read().decode("utf-8", "replace"), won
    finally:
        for p, f in ps:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            f.close()


def run(cmd, timeout=None, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, ""


class Runner:
    def __init__(self, prop, work):
        self.prop, self.work = prop, work
        self.lock = threading.Lock()
        self.cache = {}
        self.queries = 0
        self.solver_s = 0.0
        self.log = []
        self.found = threading.Event()      # a confirmed violation: the other harnesses need not go on
        self.deadline = time.time() + 1e9

    def left(self, h):
        return max(5, int(min(h.timeout, self.deadline - time.time())))

    def stop_all(self):
        self.found.set()
        with self.lock:
            if "tokens" in self.cache:
                with open(self.cache["tokens"], "r+b") as f:
                    f.seek(4)
                    f.write(struct.pack("<i", 1))

    def say(self, s):
        with self.lock:
            print(s, flush=True)

    def cflags(self, h):
        f = ["-D_GNU_SOURCE=1", "-I", REPO, "-I", LIB, "-I", HARNESS]
        if h.rename:
            f += ["-D%s=vp_%s" % (n, n) for n in RENAMES]
        if h.packet:
            f += ["-DVP_MAX_PACKET=%d" % h.packet, "-DVP_MAX_PAYLOAD=%d" % h.payload]
        f += ["-include", os.path.join(LIB, "shim.h")]
        return f

    def compile_lib(self, h, kind):
        """goto-cc or gcc objects of the library for this buffer size; shared between harnesses of the run."""
        srcs = h.srcs if h.srcs is not None else library_sources()
        key = (kind, h.packet, h.payload, h.rename, tuple(srcs))
        with self.lock:
            fut = self.cache.get(key)
            mine = fut is None
            if mine:
                fut = self.cache[key] = concurrent.futures.Future()
        if not mine:
            return fut.result()
        try:
            d = os.path.join(self.work, "lib-" + hashlib.sha1(repr(key).encode()).hexdigest()[:10])
            os.makedirs(d)
            objs = []
            for s in srcs:
                o = os.path.join(d, s[:-2] + ".o")
                cc = CC[kind]
                rc, out = run(cc + ["-w", "-c"] + self.cflags(h) + [os.path.join(REPO, s), "-o", o], timeout=120)
                if rc != 0:
                    raise Inconclusive("cannot compile %s (%s):\n%s" % (s, kind, out[-2000:]))
                objs.append(o)
            fut.set_result(objs)
        except Exception as e:
            fut.set_exception(e)
        return fut.result()

    def build(self, h, kind):
        objs = self.compile_lib(h, kind)
        d = os.path.join(self.work, h.name + "-" + kind)
        os.makedirs(d, exist_ok=True)
        defs = ["-D" + x for x in h.defs]
        mine = []
        for f in [os.path.join(HARNESS, h.file)] + ([os.path.join(LIB, "vp_main.c")] if kind == "native" else []) \
                + ([os.path.join(LIB, "vp_libc.c")] if kind == "sx" else []) \
                + [os.path.join(REPO, x) for x in h.extra]:
            o = os.path.join(d, os.path.basename(f)[:-2] + ".o")
            cc = CC[kind]
            fl = self.cflags(h)
            if f.endswith("vp_main.c"):
                fl = ["-I", LIB]
            if f.endswith("vp_libc.c"):
                fl = []
            rc, out = run(cc + ["-w", "-c"] + fl + defs + [f, "-o", o], timeout=120)
            if rc != 0:
                raise CompileError("cannot compile %s (%s):\n%s" % (f, kind, out[-2000:]))
            mine.append(o)
        exe = os.path.join(d, "h")
        if kind == "sx":
            rc, out = run(["llvm-link"] + mine + objs + ["-o", exe + ".bc"], timeout=120)
            if rc == 0:     # scalars out of memory and repeated loads merged: fewer instructions to execute, nothing folded on undefined behaviour
                rc, out = run(["opt", "-passes=function(sroa,early-cse)", exe + ".bc", "-o", exe], timeout=120)
        elif kind == "goto":
            rc, out = run(["goto-cc"] + mine + objs + ["-o", exe, "--function", "harness"], timeout=120)
        else:
            rc, out = run(NATIVE + mine + objs + ["-o", exe], timeout=120)
        if rc != 0:
            raise Inconclusive("cannot link %s (%s):\n%s" % (h.name, kind, out[-2000:]))
        return exe

    def own_loops(self, exe):
        """Loops of the harness and its environment: all have constant bounds, and run to their end."""
        with self.lock:
            got = self.cache.get(("loops", exe))
        if got is None:
            rc, out = run(["goto-instrument", "--show-loops", exe], timeout=60)
            got = [m.group(1) + ":%d" % OWN_LOOP for m in
                   re.finditer(r"^Loop (\S+):\s*\n\s*file (\S+)", out, re.M) if m.group(2).startswith(VERIF + "/")]
            with self.lock:
                self.cache[("loops", exe)] = got
        return got

    def cbmc(self, h, exe, unwind, more=()):
        cmd = ["cbmc", exe, "--function", "harness", "--unwind", str(unwind), "--json-ui", "--verbosity", "8"] \
            + CBMC_FLAGS + h.flags
        us = h.unwindset + self.own_loops(exe)
        if us:
            cmd += ["--unwindset", ",".join(us)]
        cmd += list(more)
        t0 = time.time()
        rc, out, won = race([cmd + x for x in SOLVERS], self.left(h), self.found)
        wall = time.time() - t0
        with self.lock:
            self.queries += 1
        if rc is None:
            raise Inconclusive("%s: solver gave no answer in %d s" % (h.name, h.timeout))
        try:
            js = json.loads(out)
        except ValueError:
            raise Inconclusive("%s: cbmc ended with %s:\n%s" % (h.name, rc, out[-1500:]))
        res, st = None, {"wall_s": round(wall, 2), "solver": SOLVER_NAMES[won]}
        text = []
        for e in js:
            if "result" in e:
                res = e["result"]
            t = e.get("messageText", "")
            if e.get("messageType") == "ERROR":
                text.append(t)
            m = re.search(r"size of program expression: (\d+) steps", t)
            if m: st["steps"] = int(m.group(1))
            m = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
            if m: st["vccs"], st["vccs_remaining"] = int(m.group(1)), int(m.group(2))
            m = re.search(r"(\d+) variables, (\d+) clauses", t)
            if m: st["variables"], st["clauses"] = int(m.group(1)), int(m.group(2))
            m = re.search(r"Runtime Solver: ([\d.e-]+)s", t)
            if m: st["solver_s"] = st.get("solver_s", 0.0) + float(m.group(1))
            m = re.search(r"Runtime decision procedure: ([\d.e-]+)s", t, re.I)
            if m: st["decision_s"] = st.get("decision_s", 0.0) + float(m.group(1))
        if res is None:
            raise Inconclusive("%s: cbmc gave no result (%s): %s" % (h.name, rc, " | ".join(text)[-1500:]))
        with self.lock:
            self.solver_s += st.get("decision_s", st.get("solver_s", 0.0))
        return res, st

    @staticmethod
    def inputs_of(trace):
        vals = []
        for step in trace:
            if step.get("stepType") == "assignment" and step.get("lhs") == "vp_rec":
                loc = step.get("sourceLocation", {}).get("function", "")
                if not loc.startswith("vp_u"):
                    continue
                v = step["value"]
                b = v.get("binary")
                if b is not None:
                    vals.append(int(b, 2))
                else:
                    vals.append(int(re.match(r"\d+", v.get("data", "0")).group(0)))
        return vals

    def trace(self, h, exe, unwind, prop):
        # Without slicing: a sliced formula no longer holds every input.
        only = [] if ".unwind." in prop or ".recursion" in prop else ["--property", prop]
        res, st = self.cbmc(h, exe, unwind, ["--trace"] + only)
        for r in res:
            if r["property"] == prop and r["status"] == "FAILURE" and "trace" in r:
                return self.inputs_of(r["trace"])
        return None

    def replay(self, h, inputs, tag):
        """Runs the real code natively on the solver's inputs. Returns (outcome, text, dir)."""
        with self.lock:
            fut = self.cache.get(("nat", h.name))
            mine = fut is None
            if mine:
                fut = self.cache[("nat", h.name)] = concurrent.futures.Future()
        if mine:
            try:
                fut.set_result(self.build(h, "native"))
            except Exception as e:
                fut.set_exception(e)
        exe = fut.result()
        f = os.path.join(self.work, "%s-%s.inputs" % (h.name, tag))
        open(f, "w").write("\n".join(map(str, inputs)) + "\n")
        best = ("not-reproduced", "", f)
        for fill in (0xbe, 0x00, 0xff, 0x01):
            env = dict(os.environ, ASAN_OPTIONS="exitcode=78:detect_leaks=0:max_malloc_fill_size=1000000:"
                       "malloc_fill_byte=%d:abort_on_error=0:allocator_may_return_null=1" % fill)
            rc, out = run([exe, f], timeout=10, env=env)
            if rc is None:
                return ("hang", "no end after 10 s", f)
            if rc == 77 or rc == 78 or (rc is not None and rc < 0):
                return ("violated", out[-3000:], f)
            if rc == 0 and "REACHED" in out:
                best = ("reached", out, f)
            elif best[0] != "reached":
                best = ("rc%s" % rc, out, f)
        return best

    def functions(self, exe):
        """Functions of /repo that the encoded program can reach from the harness."""
        # after removal of function pointers by signature
        tmp = exe + ".fp"
        rc, _ = run(["goto-instrument", "--remove-function-pointers", exe, tmp], timeout=60)
        rc, out = run(["goto-instrument", "--call-graph", tmp if rc == 0 else exe], timeout=60)
        edges = {}
        for m in re.finditer(r"^(\S+) -> (\S+)$", out, re.M):
            edges.setdefault(m.group(1), set()).add(m.group(2))
        seen, todo = set(), ["harness"]
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            todo += edges.get(f, ())
        rc, out = run(["cbmc", "--list-goto-functions", exe], timeout=60)
        return seen

    def check_sx(self, h):
        exe = self.build(h, "sx")
        out = os.path.join(self.work, h.name + "-out")
        os.makedirs(out)
        with self.lock:
            if "tokens" not in self.cache:
                self.cache["tokens"] = os.path.join(self.work, "tokens")
                open(self.cache["tokens"], "wb").write(struct.pack("<i", int(os.environ.get("VP_CORES", "8"))) + bytes(4092))
        limit = self.left(h)
        log = open(os.path.join(self.work, h.name + "-log"), "w+b")
        p = subprocess.Popen([engine(), exe, out, str(limit), self.cache["tokens"]], stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        end, tried, done = time.time() + limit + 45, [], set()
        while True:
            # A counterexample counts as soon as the real code shows it.
            over = p.poll() is not None or time.time() > end
            for f in sorted(f for f in os.listdir(out) if f.startswith("violation-") and f not in done):
                text = open(os.path.join(out, f)).read()
                if not over and not text.endswith("\n#\n"):
                    continue
                done.add(f)
                lines = text.split("\n")
                inputs = [int(x) for x in lines[2:] if x.strip() and x != "#"]
                res, rtext, _ = self.replay(h, inputs, f)
                tried.append("%s [%s] -> replay: %s" % (lines[0], lines[1], res))
                if res in ("violated", "hang"):
                    if p.poll() is None and not h.known:
                        os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    return {"harness": h.name, "bounds": h.bounds, "engine": "symex", "status": "violated", "what": lines[0],
                            "where": lines[1], "replay_out": rtext, "inputs": inputs, "assertions": 0, "proved": 0, "paths": 0,
                            "instructions": 0, "queries": 0}
            if over:
                break
            if self.found.is_set():     # another harness has the answer; what has not stopped by then is not waited for
                end = min(end, time.time() + 3)
            time.sleep(0.1)
        if p.poll() is None:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        rc = p.returncode
        log.seek(0)
        text = log.read().decode("utf-8", "replace")
        log.close()
        err = os.path.join(out, "errors")
        err = open(err).read() if os.path.exists(err) else ""
        if not os.path.exists(out + "/summary.json"):
            raise Inconclusive("%s: symbolic execution ended with %s: %s %s" % (h.name, rc, err[-800:], text[-800:]))
        js = json.load(open(out + "/summary.json"))
        sites = js.pop("sites")
        fns = set(js.pop("functions"))
        r = {"harness": h.name, "bounds": h.bounds, "engine": "symex", "paths": js["paths"], "instructions": js["instructions"],
             "forks": js["forks"], "queries": js["queries"], "cache_hits": js["cache_hits"], "decision_s": js["solver_us"] / 1e6,
             "assertions_evaluated": js["asserts"], "wall_s": js["wall_s"]}
        seen = [x for x in sites if x["kind"] == "assert" and x["hits"]]
        r["assertions"], r["proved"] = len(seen), len([x for x in seen if not x["violated"]])
        r["functions"] = sorted("%s:%s" % (os.path.basename(f.rsplit(":", 1)[0]), f.rsplit(":", 1)[1]) for f in fns
                                if f.startswith(REPO + "/"))
        with self.lock:
            self.queries += js["queries"]
            self.solver_s += r["decision_s"]
        if tried:
            raise Inconclusive("%s: counterexample not reproduced on the real code: %s" % (h.name, "; ".join(tried)))
        if err or js["errors"]:
            raise Inconclusive("%s: %s" % (h.name, err[-1500:]))
        ran = {x["fn"] for x in sites if x["hits"]} | {"harness"}
        wit = [x for x in sites if x["kind"] == "reach"]
        missing = [x["text"] for x in wit if not x["reached"] and x["fn"] in ran]
        if missing:
            raise Inconclusive("%s: vacuous: not reachable: %s" % (h.name, ", ".join(missing)))
        if not any(x["reached"] for x in wit):
            raise Inconclusive("%s: harness has no reachability witness" % h.name)
        r["witnesses"] = len([x for x in wit if x["reached"]])
        r["status"] = "holds"
        # Validate the encoding: witnesses and a sample of complete paths are replayed on the real code.
        good = bad = 0
        files = sorted(f for f in os.listdir(out) if f.startswith(("reach-", "path-")))
        for f in files[:40]:
            inputs = [int(x) for x in open(os.path.join(out, f)).read().split()]
            res, rtext, _ = self.replay(h, inputs, f)
            ok = res == "reached" or (f.startswith("path-") and res == "rc0") or (f.startswith("reach-") and "REACHED" in rtext)
            good, bad = good + ok, bad + (not ok)
            if ok and "sample" not in r or f.startswith("path-"):
                r["sample"] = {"harness": h.name, "path": f, "inputs": inputs[:64]}
            if not ok:
                r["witness_text"] = "%s: %s %s" % (f, res, rtext[-600:])
                self.say("  %s: %s does not replay: %s %s" % (h.name, f, res, rtext[-600:]))
                if res in ("violated", "hang"):
                    raise Inconclusive("%s: the real code fails on %s where symbolic execution saw no failure: %s" % (h.name, f, rtext[-600:]))
        r["replayed"], r["witness_replay"] = good, "%d of %d reached" % (good, good + bad)
        return r

    def check(self, h):
        if h.engine == "sx":
            return self.check_sx(h)
        exe = self.build(h, "goto")
        unwind = h.unwind
        r = {"harness": h.name, "bounds": h.bounds, "unwind": unwind}
        while True:
            res, st = self.cbmc(h, exe, unwind, ["--slice-formula"])
            bad, unw, wit, wit_missing, nobody, ok = [], [], [], [], [], 0
            for p in res:
                d, s, name = p.get("description", ""), p["status"], p["property"]
                if d.startswith("WITNESS"):
                    (wit if s == "FAILURE" else wit_missing).append(p)
                elif ".no-body." in name:
                    nobody.append(d) if s == "FAILURE" else None
                elif s == "FAILURE":
                    (unw if ".unwind." in name or "recursion" in d or "unwinding assertion" in d else bad).append(p)
                else:
                    ok += 1
            r.update(st)
            r["unmodelled_calls"] = nobody
            r.update(unwind=unwind, assertions=ok + len(bad) + len(unw), proved=ok, witnesses=len(wit))
            if bad or not unw:
                break
            if unwind >= h.max_unwind:
                break
            unwind = min(unwind * 2, h.max_unwind)
            self.say("  %s: unwinding bound too small, retry with %d" % (h.name, unwind))
        r["exe"] = exe
        r["witness_props"] = wit
        if not bad and not unw:
            if wit_missing:
                raise Inconclusive("%s: vacuous: not reachable: %s" % (h.name, wit_missing[0]["description"]))
            if not wit:
                raise Inconclusive("%s: harness has no reachability witness" % h.name)
            r["status"] = "holds"
            # Validate the encoding: one witness trace is replayed on the real code.
            w = wit[-1]
            try:
                inputs = self.trace(h, exe, unwind, w["property"])
                out, text, f = self.replay(h, inputs, "witness")
                r["witness_replay"] = out
                if out != "reached":
                    r["witness_text"] = text[-600:]
                    if os.environ.get("VP_KEEP"): self.say(text[-1500:])
                r["sample"] = {"harness": h.name, "witness": w["description"], "inputs": inputs[:64]}
            except Inconclusive as e:
                r["witness_replay"] = "error: %s" % e
            return r
        # Something failed: replay before reporting. The harness's own assertions first.
        bad.sort(key=lambda p: (not p.get("description", "").startswith("VP "), p["property"]))
        tried = []
        for p in (bad + unw)[:4]:
            inputs = self.trace(h, exe, unwind, p["property"])
            if inputs is None:
                continue
            out, text, f = self.replay(h, inputs, re.sub(r"\W", "_", p["property"]))
            loc = p.get("sourceLocation", {})
            tried.append("%s [%s:%s] -> replay: %s" % (p.get("description"), os.path.basename(loc.get("file", "?")),
                                                       loc.get("line", "?"), out))
            if out in ("violated", "hang"):
                r.update(status="violated", what=p.get("description"), where="%s:%s %s" % (
                    loc.get("file"), loc.get("line"), loc.get("function")), replay_out=text, inputs=inputs)
                return r
        raise Inconclusive("%s: counterexample not reproduced on the real code: %s" % (h.name, "; ".join(tried)))


OWN_LOOP = 2000
SOLVERS = [[], ["--sat-solver", "cadical"]]
SOLVER_NAMES = ["minisat", "cadical"]
NATIVE = ["gcc", "-g", "-O1", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-ipa-modref", "-ftrivial-auto-var-init=pattern"]


CC = {"goto": ["goto-cc", "-DVP_SOLVER=1"], "native": NATIVE,
      "sx": ["clang", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm", "-fno-builtin", "-Wno-implicit-function-declaration", "-Wno-int-conversion",
             "-Wno-incompatible-function-pointer-types", "-DVP_SYMEX=1"]}
BUILD = os.path.join(VERIF, "build")


def engine():
    """The symbolic executor, compiled when its source has changed."""
    src = [os.path.join(VERIF, "symex", f) for f in ("symex.cpp", "expr.h")]
    key = hashlib.sha1(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:12]
    exe = os.path.join(BUILD, "symex-" + key)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            rc, out = run(["g++", "-O2", "-std=c++17", "-w", "-I/usr/lib/llvm-18/include", src[0], "-o", exe + ".tmp",
                           "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"], timeout=300)
            if rc != 0:
                raise Inconclusive("cannot compile the symbolic executor:\n" + out[-2000:])
            os.rename(exe + ".tmp", exe)
    return exe


def save_replay(prop, h, r, runner):
    d = os.path.join(VERIF, "replay", prop, r["harness"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "inputs.txt"), "w").write("\n".join(map(str, r["inputs"])) + "\n")
    srcs = h.srcs if h.srcs is not None else library_sources()
    cc = NATIVE + ["-w"] + runner.cflags(h) + ["-D" + x for x in h.defs]
    q = lambda a: "'%s'" % a if re.search(r"[^\w=/.,+-]", a) else a
    open(os.path.join(d, "replay.sh"), "w").write(
        "#!/bin/bash\n# Replays the solver's counterexample on the real code. Exit 77/78: reproduced.\n# %s\n"
        "D=$(dirname \"$(realpath \"$0\")\"); T=$(mktemp -d)\n"
        "gcc -I %s -w -c %s/vp_main.c -o $T/main.o || exit 2\n"
        "%s $T/main.o %s %s -o $T/h || exit 2\n"
        "export ASAN_OPTIONS=exitcode=78:detect_leaks=0\n"
        "timeout 20 $T/h $D/inputs.txt; R=$?; rm -rf \"$T\"; exit $R\n" % (
            r["what"], LIB, LIB, " ".join(map(q, cc)), os.path.join(HARNESS, h.file),
            " ".join(os.path.join(REPO, s) for s in srcs + h.extra)))
    os.chmod(os.path.join(d, "replay.sh"), 0o755)
    open(os.path.join(d, "report.txt"), "w").write("%s\n%s\n\n%s\n" % (r["what"], r["where"], r["replay_out"]))
    return d


def repo_functions():
    names = {}
    for s in library_sources() + ["time.c"]:
        rc, out = run(["ctags", "--version"]) if False else (0, "")
        for m in re.finditer(r"^[A-Za-z_][\w \t\*]*?[\s\*](\w+)\s*\([^;{]*?\)\s*\{", open(os.path.join(REPO, s)).read(), re.M):
            names[m.group(1)] = s
    return names


def main(prop, harnesses, known, tier, seed, assumptions):
    t0 = time.time()
    # a private scratch folder, removed at the end
    work = tempfile.mkdtemp(prefix="vp-%s-" % prop, dir="/tmp")
    runner = Runner(prop, work)
    if tier == "quick":
        runner.deadline = t0 + float(os.environ.get("VP_DEADLINE", "780"))
    hs = [h for h in harnesses if h.tier in ("both", tier)]
    results, errors, violations, known_lines, skipped = [], [], [], [], []
    try:
        def one(h):
            t = time.time()
            if runner.found.is_set():
                return h, None, "STOPPED"
            try:
                r = runner.check(h)
            except CompileError as e:
                if h.optional:
                    return h, None, "SKIPPED"
                return h, None, str(e)
            except Inconclusive as e:
                return h, None, "STOPPED" if runner.found.is_set() else str(e)
            if r["status"] == "violated" and not h.known:
                runner.stop_all()
            elif runner.found.is_set() and r.get("engine") == "symex" and r["status"] != "violated":
                return h, None, "STOPPED"       # cut short
            r["total_s"] = round(time.time() - t, 1)
            return h, r, None
        with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", "5"))) as ex:
            for h, r, err in ex.map(one, hs):
                if h.known and err != "STOPPED":
                    # A recorded finding: this harness holds only the recorded scenario.
                    if r and r["status"] == "violated":
                        known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, known[h.known]["what"]))
                        results.append((h, r))
                    elif r and r["status"] == "holds":
                        runner.say("  %s: the recorded finding %s does not occur any more" % (h.name, h.known))
                        results.append((h, r))
                    else:
                        errors.append(err)
                    continue
                if err == "STOPPED":
                    continue
                if err == "SKIPPED":
                    skipped.append(h.name)
                    runner.say("  %s: skipped, the structure it describes has changed" % h.name)
                    continue
                if err:
                    errors.append(err)
                    continue
                results.append((h, r))
                if h.engine == "sx":
                    runner.say("  %-28s %-8s %d assertions, %d paths, %d instructions, %d queries, %.1f s, replay: %s" % (
                        h.name, r["status"], r["assertions"], r["paths"], r["instructions"], r["queries"], r["total_s"],
                        r.get("witness_replay", "-")))
                else: runner.say("  %-28s %-8s unwind %d, %d assertions, %s steps, %s clauses, %.1f s, witness replay: %s" % (
                    h.name, r["status"], r["unwind"], r["assertions"], r.get("steps", "?"), r.get("clauses", "?"),
                    r["total_s"], r.get("witness_replay", "-")))
                if r["status"] == "violated":
                    violations.append((h, r, save_replay(prop, h, r, runner)))
        names = repo_functions()
        funcs = set()
        for h, r in results:
            if "exe" in r:
                funcs |= {"%s:%s" % (names[f], f) for f in runner.functions(r["exe"]) if f in names}
            funcs |= set(r.get("functions", ()))
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": sum(r.get("steps", 0) + r.get("instructions", 0) for _, r in results),
                "transitions": sum(r.get("clauses", 0) + r.get("paths", 0) for _, r in results),
                "traces_validated_against_impl": sum(r.get("replayed", 0) + (1 if r.get("witness_replay") == "reached"
                                                     or r["status"] == "violated" else 0) for _, r in results),
                "samples": [r["sample"] for _, r in results if "sample" in r] or
                           [{"harness": h.name, "inputs": r["inputs"][:64]} for h, r in results if "inputs" in r] or
                           ["no harness completed"],
                "explanation": "Symbolic execution of the real C code within the bounds of each harness. symex harnesses: states = "
                               "instructions executed symbolically, transitions = feasible paths, each branch and assertion decided "
                               "by Z3 over all inputs. cbmc harnesses: states = SSA steps of the unwound program, transitions = clauses "
                               "given to the SAT solver. traces_validated = solver-made inputs replayed on the natively compiled code.",
                "functions_encoded": sorted(funcs),
                "harnesses": [{k: v for k, v in r.items() if k in (
                    "harness", "bounds", "engine", "paths", "instructions", "forks", "queries", "cache_hits", "assertions_evaluated", "replayed", "unwind", "assertions", "proved", "witnesses", "steps", "vccs", "vccs_remaining",
                    "variables", "clauses", "wall_s", "total_s", "status", "witness_replay", "decision_s", "what", "where", "unmodelled_calls", "solver")}
                    for _, r in results],
                "assertions_checked": sum(r.get("assertions", 0) for _, r in results),
                "assertions_proved": sum(r.get("proved", 0) for _, r in results),
                "witnesses_reached": sum(r.get("witnesses", 0) for _, r in results),
                "solver_queries": runner.queries,
                "solver_seconds": round(runner.solver_s, 2),
                "inconclusive": errors,
                "skipped": skipped,
                "known_findings_reproduced": known_lines,
            },
            "assumptions": assumptions,
            "wall_s": round(time.time() - t0, 2),
            "violations": len(violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    finally:
        if os.environ.get("VP_KEEP") != "1":
            shutil.rmtree(work, ignore_errors=True)
    for l in known_lines:
        print(l)
    for h, r, d in violations:
        print("  %s violated: %s at %s" % (h.name, r["what"], r["where"]))
        print("VIOLATION property=%s replay=%s" % (prop, d))
    if violations:
        return 1
    for e in errors:
        print("INCONCLUSIVE: " + e)
    return 2 if errors else 0
