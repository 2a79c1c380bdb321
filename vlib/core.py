"""Common machinery: build the drivers from /repo's working tree, run scripts
through them, record traces, and let TLC decide."""
import concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, "out")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)

BASE_FLAGS = ["-std=c++17", "-g1", "-pipe", "-fno-threadsafe-statics", "-D_LINUX", "-DPOSIX",
              "-Dstricmp=strcasecmp", "-D_stricmp=strcasecmp", "-D_snprintf=snprintf",
              "-D_vsnprintf=vsnprintf", "-Wno-format-truncation", "-w"]


class CheckError(Exception):
    """The check itself failed: neither held nor violated."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Script:
    """One history to replay: an identifier and the driver's command lines."""
    __slots__ = ("id", "lines", "origin")

    def __init__(self, id, lines, origin="random"):
        self.id, self.lines, self.origin = id, list(lines), origin


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
        self.dir = os.path.join(VERIF, "build", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(OUT, exist_ok=True)
        self.states = self.transitions = 0
        self.models = []           # what TLC explored
        self.traces = 0            # traces accepted by TLC
        self.events = 0
        self.executions = 0        # scripts executed on real code
        self.opcount = {}
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.known = load_known(prop)
        self.known_hit = {}
        self.n = 0

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- building ---------------------------------------------------------------------
    def build(self, variants, timeout=400):
        """variants: list of (name, source or sources, extra flags). Returns name -> exe."""
        def one(v):
            name, src, flags = v
            srcs = [src] if isinstance(src, str) else list(src)
            exe = os.path.join(self.dir, name)
            cc = "g++"
            fl = list(BASE_FLAGS)
            rest = []
            for f in flags:
                if f.startswith("CC="):
                    cc = f[3:]
                else:
                    rest.append(f)
            srcs = [s if os.path.isabs(s) else os.path.join(HARNESS, s) for s in srcs]
            cmd = [cc] + fl + ["-I" + HARNESS, "-I" + REPO, "-I" + os.path.join(REPO, "amtl")] + rest
            links = [f for f in cmd if f.startswith("-l")]
            cmd = [f for f in cmd if not f.startswith("-l")] + srcs + ["-o", exe] + links
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            return name, exe, p.returncode, p.stdout.decode("utf8", "replace"), cmd
        res = {}
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            for name, exe, rc, out, cmd in ex.map(one, variants):
                if rc != 0:
                    self._refused(name, cmd, out, timeout)
                    raise CheckError("driver %s does not build:\n%s\n%s" % (name, " ".join(cmd), out[-6000:]))
                res[name] = exe
        self.log("built", ", ".join(res))
        return res

    def _refused(self, name, cmd, out, timeout):
        """A driver that does not build: a violation if the headers alone do build, so that what they refuse is a use of
        the public interface that the property speaks of (a kind of element, a constructor, an operator); or if they do not
        build alone, so that nobody has what the property speaks of in that kind of build. Drivers with stand-ins for the
        system's parts are not judged the first way: the stand-ins may be what is at fault."""
        src = [a for a in cmd if a.endswith(".cpp")]
        text = "".join(open(x).read() for x in src)
        if "error: " not in out:
            return
        heads = re.findall(r"^ *#include <amtl/[^>]*>", text, re.M)
        own = os.path.join(self.dir, name + "_alone.cpp")
        with open(own, "w") as f:
            f.write("#include <assert.h>\n#include <string.h>\n#include <stdint.h>\n#include <new>\n#include <utility>\n" + "\n".join(heads) + "\nint main() {}\n")
        p = subprocess.run([cmd[0], "-fsyntax-only"] + [own if a == src[0] else a for a in cmd[1:] if a not in src[1:]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        alone = p.returncode == 0
        if alone and "vsched.h" in text or not alone and b"error: " not in p.stdout:
            return
        path = os.path.join(OUT, "%s-build-%s.json" % (self.prop, name))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "spec": "interface", "script": None, "driver": name, "command": cmd, "trace": [],
                       "rejected_event_index": 0, "rejected_event": "build", "spec_state_before": "", "stderr": out[-8000:]}, f, indent=1)
        first = [l for l in out.splitlines() if "error: " in l]
        raise Violation("%s: %s: %s" % (name, "the headers build, but refuse uses of their interface that the driver makes" if alone else
                                        "the headers do not build with this driver's flags", first[0][:400]), path)

    # ---- executing scripts ----------------------------------------------------------------
    def execute(self, exe, scripts, tag, timeout=120, env=None, args=(), user=None):
        """Run all scripts through one driver; returns list of traces (dicts)."""
        chunks = [scripts[i::NPROC] for i in range(NPROC)] if len(scripts) >= 4 * NPROC else [scripts]
        chunks = [c for c in chunks if c]

        def one(ix):
            return self._exec_chunk(exe, chunks[ix], "%s_%d" % (tag, ix), timeout, env, args)
        traces = []
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            for t in ex.map(one, range(len(chunks))):
                traces += t
        order = {s.id: i for i, s in enumerate(scripts)}
        traces.sort(key=lambda t: order[t["id"]])
        self.executions += len(traces)
        return traces

    def _exec_chunk(self, exe, scripts, tag, timeout, env, args):
        todo = list(scripts)
        traces = []
        restarts = 0
        while todo:
            sp = os.path.join(self.dir, tag + ".script")
            tp = os.path.join(self.dir, tag + ".trace")
            with open(sp, "w") as f:
                for s in todo:
                    f.write("T %s\n" % s.id)
                    for l in s.lines:
                        f.write(l + "\n")
            if os.path.exists(tp):
                os.unlink(tp)
            e = dict(os.environ)
            e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_odr_violation=0:allocator_may_return_null=1:detect_stack_use_after_return=1"
            e["UBSAN_OPTIONS"] = "print_stacktrace=1"
            e.update(env or {})
            hung = False
            with open(os.path.join(self.dir, tag + ".err"), "w+b") as ef:
                p = subprocess.Popen([exe, sp, tp] + list(args), stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=e,
                                     cwd=self.dir, start_new_session=True)
                try:
                    rc = p.wait(timeout=timeout)
                except subprocess.TimeoutExpired:
                    hung = True
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    rc = p.wait()
                ef.seek(0)
                err = ef.read().decode("utf8", "replace")
            got = parse_traces(tp)
            bad = hung or rc != 0
            if rc == 3:
                raise CheckError("driver %s rejected its script: %s" % (exe, err[-2000:]))
            if bad:
                if not got:
                    raise CheckError("driver %s ended with %s before its first trace: %s" % (exe, rc, err[-3000:]))
                why = "hang" if hung or rc in (-14, 142) else "exit %d" % rc
                got[-1]["ev"].append({"op": "Crash", "why": why})
                got[-1]["err"] = err[-8000:]
            traces += got
            done = {t["id"] for t in got}
            todo = [s for s in todo if s.id not in done]
            if bad:
                restarts += 1
                if restarts > 3:
                    break
            elif todo:
                raise CheckError("driver %s skipped %d scripts" % (exe, len(todo)))
        return traces

    # ---- TLC ------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=None, args=(), timeout=800, heap="6g", deadlock=None):
        self.n += 1
        wd = os.path.join(self.dir, "tlc%d" % self.n)
        os.makedirs(wd)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                os.symlink(os.path.join(SPEC, f), os.path.join(wd, f))
        if "\n" in cfg:
            cp = os.path.join(wd, "gen.cfg")
            open(cp, "w").write(cfg)
            cfg = "gen.cfg"
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-cp", CP, "tlc2.TLC", "-workers",
               str(workers or NPROC), "-metadir", os.path.join(wd, "st"), "-noGenerateSpecTE", "-config", cfg]
        cmd += list(args)
        if deadlock is False:
            cmd += ["-deadlock"]
        cmd += [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s / %s" % (module, cfg))
        finally:
            shutil.rmtree(os.path.join(wd, "st"), ignore_errors=True)
        out = p.stdout.decode("utf8", "replace")
        return p.returncode, out

    def model(self, module, cfg=None, edges=False, workers=None, timeout=800, args=(), expect_violation=None,
              env=None, deadlock=False):
        """Exhaustively check a design. Any error is an error of the specification."""
        cfgname = cfg or (module + ".cfg")
        rc, out = self.tlc(module, cfgname, workers=(1 if edges else workers), timeout=timeout, args=args, env=env,
                           deadlock=deadlock)
        if expect_violation:
            if expect_violation not in out:
                raise CheckError("%s/%s should exhibit: %s\n%s" % (module, cfgname, expect_violation, out[-3000:]))
        elif rc != 0 or "No error has been found" not in out:
            raise CheckError("TLC on %s/%s: rc %d\n%s" % (module, cfgname, rc, out[-6000:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": cfgname if "\n" not in cfgname else "generated",
                            "distinct_states": dist, "states_generated": gen})
        self.log("TLC %s: %d distinct states, %d generated" % (module, dist, gen))
        if edges:
            es = []
            for line in out.splitlines():
                if line.startswith('"EDGE '):
                    s = json.loads(line)  # TLC prints strings with JSON-like escapes
                    es.append(json.loads(s[5:]))
            return es
        return out

    def validate(self, module, traces, cfg=None, env=None, workers=None, batch_events=400000, label=""):
        """Let TLC accept or reject recorded traces; returns the first rejected
        (trace, event index, state text) or None. Identical traces are validated once."""
        seen, uniq = set(), []
        for t in traces:
            h = hashlib.sha1(json.dumps(t["ev"], sort_keys=True).encode()).digest()
            if h in seen:
                continue
            seen.add(h)
            uniq.append(t)
        for t in uniq:
            for e in t["ev"]:
                k = e.get("op", "?")
                self.opcount[k] = self.opcount.get(k, 0) + 1
        batches, cur, n = [], [], 0
        for t in uniq:
            cur.append(t)
            n += len(t["ev"])
            if n >= batch_events:
                batches.append(cur)
                cur, n = [], 0
        if cur:
            batches.append(cur)
        for b in batches:
            self.n += 1
            path = os.path.join(self.dir, "traces%d.ndjson" % self.n)
            with open(path, "w") as f:
                for t in b:
                    f.write(json.dumps({"id": t["id"], "ev": t["ev"]}) + "\n")
            e = {"TRACE": path}
            e.update(env or {})
            rc, out = self.tlc(module, cfg or module + ".cfg", env=e, workers=workers)
            evs = sum(len(t["ev"]) for t in b)
            if rc == 0 and "No error has been found" in out:
                self.traces += len(b)
                self.events += evs
                self.log("TLC accepted %d traces (%d events) %s" % (len(b), evs, label))
                os.unlink(path)
                continue
            if "Deadlock reached" in out or "is violated" in out:
                tids = re.findall(r"^/\\ tid = (\d+)", out, re.M)
                ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
                if not tids:
                    tids = re.findall(r"tid\s*=\s*(\d+)", out)
                    ls = re.findall(r"\bl\s*=\s*(\d+)", out)
                if not tids:
                    raise CheckError("cannot parse TLC rejection:\n" + out[-4000:])
                t = b[int(tids[-1]) - 1]
                l = int(ls[-1])
                k = out.rfind("\nState ")
                return t, l, out[k:k + 4000]
            i = out.find("Error:"); raise CheckError("TLC on %s: rc %d\n%s" % (module, rc, out[i:i + 2500] + "\n...\n" + out[-1500:]))
        return None

    # ---- the usual check: scripts -> drivers -> TLC -----------------------------------------
    def conform(self, module, drivers, scripts, cfg=None, env=None, exec_env=None, timeout=120, prep=None, args=(),
                label="", split=None):
        """Replay scripts on each driver (name -> exe) and validate the recorded traces."""
        byid = {s.id: s for s in scripts}
        assert len(byid) == len(scripts), "duplicate script ids"
        alltr, src = [], {}
        for name, exe in drivers.items():
            tr = self.execute(exe, scripts, "run_" + name, timeout=timeout, env=exec_env, args=args)
            tr = split_traces(tr, split)
            for t in tr:
                t["driver"] = name
                if prep:
                    prep(t)
            alltr += tr
        # crashed traces first, so that they are reported rather than lost in a batch
        alltr.sort(key=lambda t: 0 if t["ev"] and t["ev"][-1].get("op") == "Crash" else 1)
        self.log("executed %d scripts x %d builds %s" % (len(scripts), len(drivers), label))
        if not self.samples and alltr:
            t = alltr[len(alltr) // 2]
            self.samples.append({"trace": t["id"], "driver": t["driver"], "script": byid[t["id"].split("/")[0]].lines[:12],
                                 "events": t["ev"][:12]})
        r = self.validate(module, alltr, cfg=cfg, env=env, label=label)
        if r is None:
            return
        t, l, st = r
        # Confirm: the same script on the same build has to be rejected again.
        again = None
        s = byid[t["id"].split("/")[0]]
        for attempt in range(3):
            tr = self.execute(drivers[t["driver"]], [s] if attempt == 0 else scripts, "confirm", timeout=timeout, env=exec_env,
                              args=args)
            tr = split_traces(tr, split)
            for x in tr:
                x["driver"] = t["driver"]
                if prep:
                    prep(x)
            again = self.validate(module, tr, cfg=cfg, env=env, label="(confirm)")
            if again:
                break
        if not again:
            # What was recorded was recorded from the code, so it is reported even when it comes and goes - unless the run was
            # ended from outside or for lack of time, which says nothing about the code.
            ev = t["ev"][l - 1] if 0 < l <= len(t["ev"]) else {}
            if ev.get("op") == "Crash" and (ev.get("why") == "hang" or ev.get("why") in ("exit -9", "exit -15", "exit 137")):
                raise CheckError("rejection of %s at %d did not repeat" % (t["id"], l))
            t["err"] = t.get("err", "") + "\n(did not repeat in %d runs)" % (attempt + 1)
            again = (t, l, st)
        t, l, st = again
        s = byid[t["id"].split("/")[0]]
        self.violation(module, s, t, l, st, drivers.get(t["driver"]))

    def violation(self, module, script, t, l, st, exe=None):
        ev = t["ev"][l - 1] if 0 < l <= len(t["ev"]) else None
        path = os.path.join(OUT, "%s-%s.json" % (self.prop, re.sub(r"[^A-Za-z0-9_.-]", "_", str(t["id"]))))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "spec": module, "script": script.lines if script else None,
                       "driver": t.get("driver"), "trace": t["ev"], "rejected_event_index": l,
                       "rejected_event": ev, "spec_state_before": st, "stderr": t.get("err", "")}, f, indent=1)
        raise Violation("event %d %s of trace %s (%s) is no step of %s" % (l, json.dumps(ev)[:600], t["id"],
                                                                        t.get("driver"), module), path)

    # ---- evidence ---------------------------------------------------------------------------
    def evidence(self, violations=0):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:4],
               "models": self.models, "trace_events": self.events, "scripts_executed": self.executions,
               "events_by_operation": dict(sorted(self.opcount.items()))}
        if self.notes:
            cov["explanation"] = "; ".join(self.notes)
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
             "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
             "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)
            f.write("\n")


def split_traces(traces, op):
    """A trace that holds several runs, each starting with an event op, becomes several traces."""
    if not op:
        return traces
    res = []
    for t in traces:
        k = 0
        cur = None
        for e in t["ev"]:
            if e.get("op") == op or cur is None:
                k += 1
                cur = dict(t, id="%s/%d" % (t["id"], k), ev=[])
                res.append(cur)
            cur["ev"].append(e)
    return res


def parse_traces(path):
    tr = []
    if not os.path.exists(path):
        return tr
    with open(path, "rb") as f:
        data = f.read().decode("utf8", "replace")
    lines = data.split("\n")
    for ln in lines:
        if not ln:
            continue
        if ln.startswith("#T "):
            tr.append({"id": ln[3:], "ev": []})
        else:
            try:
                tr[-1]["ev"].append(json.loads(ln))
            except ValueError:
                pass  # cut short by a crash
    return tr


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln and ln.startswith("{"):
                d = json.loads(ln)
                if d.get("property") == prop:
                    res.append(d)
    return res


# ---- scripts from a TLC state graph ---------------------------------------------------------
def walks(edges, count, lens, rng, key=lambda s: json.dumps(s, sort_keys=True)):
    """edges as for path_cover; count random walks from the initial states, each of a length drawn from
    lens.  Where path_cover takes every transition once, these reach the states of the model along many
    different ways, so what the code keeps beside the model's state has a chance to show."""
    succ, init = {}, []
    for e in edges:
        if "i" in e:
            init.append(key(e["i"]))
        else:
            succ.setdefault(key(e["s"]), []).append((e["a"], key(e["t"])))
    init = list(dict.fromkeys(init))
    out = []
    for _ in range(count):
        cur, acts = rng.choice(init), []
        for _ in range(rng.choice(lens)):
            if not succ.get(cur):
                break
            a, cur = rng.choice(succ[cur])
            acts.append(a)
        out.append(acts)
    return out


def path_cover(edges, key=lambda s: json.dumps(s, sort_keys=True), maxlen=60, limit=None, rng=None):
    """edges: list of {"s":state, "a":action, "t":state}; walks covering every edge from the initial
    states (those flagged by edges with "i": true). Returns list of action sequences."""
    succ, init = {}, []
    for e in edges:
        if "i" in e:
            init.append(key(e["i"]))
            continue
        s, t = key(e["s"]), key(e["t"])
        succ.setdefault(s, []).append([e["a"], t, False])
        succ.setdefault(t, [])
    # BFS distances from init, with parent pointers
    from collections import deque
    paths = []
    par = {}
    roots = list(dict.fromkeys(init))
    dq = deque(roots)
    for r in roots:
        par[r] = None
    while dq:
        s = dq.popleft()
        for ed in succ.get(s, []):
            if ed[1] not in par:
                par[ed[1]] = (s, ed)
                dq.append(ed[1])

    def prefix(s):
        acts, eds = [], []
        while par[s] is not None:
            p, ed = par[s]
            acts.append(ed[0])
            eds.append(ed)
            s = p
        return s, acts[::-1], eds
    left = {s: [ed for ed in eds] for s, eds in succ.items() if s in par}
    total = sum(len(v) for v in left.values())
    order = sorted(left, key=lambda s: 0)
    for s in order:
        while True:
            while left[s] and left[s][-1][2]:
                left[s].pop()
            if not left[s]:
                break
            root, acts, eds = prefix(s)
            for ed in eds:
                ed[2] = True
            cur = s
            walk = list(acts)
            while len(walk) < maxlen or cur == s and len(walk) == len(acts):
                while left[cur] and left[cur][-1][2]:
                    left[cur].pop()
                if not left[cur]:
                    # short hop to a neighbour with uncovered edges
                    hop = None
                    for ed in succ[cur]:
                        l2 = left[ed[1]]
                        while l2 and l2[-1][2]:
                            l2.pop()
                        if l2:
                            hop = ed
                            break
                    if not hop:
                        break
                    walk.append(hop[0])
                    cur = hop[1]
                    continue
                ed = left[cur].pop()
                ed[2] = True
                walk.append(ed[0])
                cur = ed[1]
            paths.append((root, walk))
            if limit and len(paths) >= limit:
                return paths, total
    return paths, total
