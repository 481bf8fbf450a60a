"""Simulates the command-line scripts: their rclpy, service discovery, answers, clock and arguments are the simulator's (C27)."""
import builtins, contextlib, copy, hashlib, io, json, os, random, re, sys, time as _time, types

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("NDT_REPO", "/repo")
SCRIPTS = {"enable_mapping": "ENABLE_MAPPING", "disable_mapping": "DISABLE_MAPPING", "load_map": "LOAD_FROM_FILE", "save_map": "SAVE_TO_FILE"}
WANT = {"ENABLE_MAPPING": 1, "DISABLE_MAPPING": 2, "LOAD_FROM_FILE": 4, "SAVE_TO_FILE": 8}
NAMES = ["map", "/tmp/my map.db3", "maps/a=b", "", "-x", "--ros-args", "карта", "a" * 300, "../m", "./x/", "1", "file:with:colons", "m\n", "load_map", "Configure"]


class Stop(BaseException):
    pass


class Violation(Exception):
    def __init__(self, klass, what):
        super().__init__(what)
        self.klass, self.what = klass, what


def plan_of(seed):
    r = random.Random(seed * 2654435761 + 97)
    p = {"script": r.choice(sorted(SCRIPTS)), "file": r.choice(NAMES) if r.random() < 0.7 else "".join(r.choice("abc/._ -") for _ in range(r.randint(1, 20)))}
    u = r.random()
    if u < 0.1:
        p["avail"] = [[0.0, 1e9]]
    elif u < 0.75:
        p["avail"] = [[round(r.choice([r.uniform(0, 1), r.uniform(0, 20), r.uniform(0, 300)]), 3), 1e9]]
    elif u < 0.9:
        a = r.uniform(0.1, 30)
        b = a + r.uniform(0.001, 0.9)
        c = b + r.uniform(0.5, 30)
        p["avail"] = [[round(a, 4), round(b, 4)], [round(c, 3), 1e9]]
    else:
        p["avail"] = []
    p["answer"] = round(r.choice([0.0, r.uniform(0, 2), r.uniform(0, 200)]), 3)
    p["missing"] = r.random() < 0.06
    p["cut"] = round(r.uniform(1, 600), 2)
    p["wakeups"] = r.random() < 0.3       # waits return early now and then
    p["seed"] = seed
    return p


def srv_class():
    req, resp, cur, consts = [], [], None, {}
    cur = req
    for line in open(os.path.join(REPO, "srv", "Configure.srv")):
        line = line.split("#")[0].strip()
        if line == "---":
            cur = resp
            continue
        if not line:
            continue
        m = re.match(r"(\w+(?:\[\])?)\s+(\w+)\s*=\s*(\S+)$", line)
        if m:
            if cur is req:
                consts[m.group(2)] = int(m.group(3), 0)
            continue
        m = re.match(r"(\S+)\s+(\w+)", line)
        cur.append((m.group(1), m.group(2)))

    def make(name, fields, consts):
        dflt = {"string": "", "bool": False}

        class M:
            __slots__ = ["_" + f for _, f in fields]

            def __init__(self, **kw):
                for t, f in fields:
                    setattr(self, f, kw.pop(f, dflt.get(t, 0)))
                assert not kw, "Invalid arguments passed to constructor: %s" % ", ".join(sorted(kw))
        M.__name__ = name
        for t, f in fields:
            def prop(t=t, f=f):
                def g(self):
                    return getattr(self, "_" + f)

                def s(self, v):
                    if t == "string":
                        assert isinstance(v, str), "The '%s' field must be of type 'str'" % f
                    elif t == "bool":
                        assert isinstance(v, bool), "The '%s' field must be of type 'bool'" % f
                    else:
                        assert isinstance(v, int), "The '%s' field must be of type 'int'" % f
                    setattr(self, "_" + f, v)
                return property(g, s)
            setattr(M, f, prop())
        for k, v in consts.items():
            setattr(M, k, v)
        return M
    C = type("Configure", (), {})
    C.Request = make("Configure_Request", req, consts)
    C.Response = make("Configure_Response", resp, {})
    return C


class World:
    def __init__(self, plan):
        self.p = plan
        self.t = 0.0
        self.events = []
        self.inits = 0
        self.ok = False
        self.requests = []          # (time, service, type, fields)
        self.pending = []
        self.waits = 0
        self.rng = random.Random(plan["seed"] ^ 0x5bd1)
        self.C = srv_class()
        self.counts = {}
        self.shut = 0

    def log(self, *a):
        self.events.append("%.6f %s" % (self.t, " ".join(map(str, a))))

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def available(self, t=None):
        t = self.t if t is None else t
        return any(a <= t < b for a, b in self.p["avail"])

    def next_change(self):
        c = [x for ab in self.p["avail"] for x in ab if x > self.t] + [t for t, f in self.pending if t > self.t]
        return min(c) if c else None

    def deliver(self):
        for e in list(self.pending):
            if e[0] <= self.t and self.ok_spin:
                self.pending.remove(e)
                e[1]._finish(self.C.Response())
                self.log("answered")

    ok_spin = False

    def advance(self, to):
        """time passes up to `to`, not beyond the end of the simulation"""
        self.waits += 1
        end = self.end()
        if to is None or to > end:
            self.t = max(self.t, end)
            raise Stop()
        if self.waits > 20000:
            raise Stop()
        self.t = max(self.t, to)

    def end(self):
        if not self.p["avail"]:
            return self.p["cut"]
        return self.p["avail"][-1][0] + self.p["answer"] + 1000.0

    def until(self, cond, timeout):
        limit = None if timeout is None or timeout < 0 else self.t + timeout
        while True:
            if cond():
                return True
            if limit is not None and self.t >= limit:
                return False
            n = self.next_change()
            cand = [x for x in (n, limit) if x is not None]
            if self.p["wakeups"] and limit is not None and self.rng.random() < 0.2:
                self.count("early_wakeups")
            self.advance(min(cand) if cand else None)
            self.deliver()


def modules(w):
    rclpy = types.ModuleType("rclpy")

    class Future:
        def __init__(self, **kw):
            self._done, self._res, self._cb = False, None, []

        def _finish(self, r):
            self._done, self._res = True, r
            for c in self._cb:
                c(self)

        def done(self):
            return self._done

        def cancelled(self):
            return False

        def cancel(self):
            w.pending[:] = [x for x in w.pending if x[1] is not self]

        def result(self):
            return self._res

        def exception(self):
            return None

        def add_done_callback(self, c):
            if self._done:
                c(self)
            else:
                self._cb.append(c)

    class Client:
        def __init__(self, typ, name):
            self.srv_type, self.srv_name = typ, name

        def _mine(self):
            return self.srv_name.lstrip("/~") == "configure" and self.srv_type is w.C

        def wait_for_service(self, timeout_sec=None):
            r = w.until(lambda: self._mine() and w.available(), timeout_sec)
            w.log("wait_for_service", r)
            w.count("waits_true" if r else "fault_waits_unavailable")
            return r

        def service_is_ready(self):
            return self._mine() and w.available()

        def call_async(self, req):
            if not isinstance(req, self.srv_type.Request):
                raise TypeError("wrong request type")
            if not w.ok:
                raise RuntimeError("context is not valid")
            w.requests.append((w.t, self.srv_name, self._mine(), {"action": req.action, "filename": req.filename}, w.available(), None))
            w.log("request", self.srv_name, req.action, repr(req.filename))
            f = Future()
            w.last = f
            if self._mine() and w.available():
                w.pending.append((w.t + w.p["answer"], f))
            return f

        def call(self, req, timeout_sec=None):
            # answers are only taken by someone spinning the node; without that the call never returns
            f = self.call_async(req)
            w.until(f.done, timeout_sec)
            return f.result()

        def remove_pending_request(self, f):
            f.cancel()

        def destroy(self):
            pass

    class Logger:
        def __getattr__(self, n):
            return lambda *a, **k: w.log("log")

    class Clock:
        def now(self):
            return types.SimpleNamespace(nanoseconds=int(w.t * 1e9), seconds_nanoseconds=lambda: (int(w.t), 0))

        def sleep_for(self, d):
            w.until(lambda: False, getattr(d, "nanoseconds", 0) * 1e-9)

    class Node:
        def __init__(self, name, **kw):
            if not w.ok:
                raise RuntimeError("rclpy.init() has not been called")
            if not re.match(r"^[A-Za-z_]\w*$", name):
                raise ValueError("invalid node name")
            self._name = name
            self.destroyed = False
            w.log("node", name)

        def create_client(self, typ, name, **kw):
            return Client(typ, name)

        def get_logger(self):
            return Logger()

        def get_clock(self):
            return Clock()

        def get_name(self):
            return self._name

        def destroy_node(self):
            self.destroyed = True
            w.log("destroy_node")

        def destroy_client(self, c):
            pass

        def declare_parameter(self, n, v=None, *a, **k):
            return types.SimpleNamespace(value=v, get_parameter_value=lambda: v)

        def get_parameter(self, n):
            return types.SimpleNamespace(value=None)

        def _other(self, what):
            w.log("other", what)
            raise Violation("other-effect", "the script uses %s" % what)

        def create_publisher(self, *a, **k):
            self._other("a publisher: %s" % (a[1:2],))

        def create_subscription(self, *a, **k):
            return types.SimpleNamespace()

        def create_service(self, *a, **k):
            self._other("a service of its own")

        def create_timer(self, *a, **k):
            self._other("a timer")

        def set_parameters(self, *a, **k):
            self._other("parameters")

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.destroy_node()

    class Ctx:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            rclpy.try_shutdown()

        def ok(self):
            return w.ok

    def init(*a, **k):
        if w.ok:
            raise RuntimeError("Context.init() must only be called once")
        w.ok = True
        w.inits += 1
        w.log("init")
        return Ctx()

    def shutdown(*a, **k):
        if not w.ok:
            raise RuntimeError("Context must be initialized before it can be shutdown")
        w.ok = False
        w.shut += 1
        w.log("shutdown")

    def try_shutdown(*a, **k):
        if w.ok:
            shutdown()

    def spin_until(node, future, executor=None, timeout_sec=None):
        if node.destroyed:
            raise RuntimeError("node destroyed")
        w.ok_spin = True
        w.deliver()
        w.until(future.done, timeout_sec)
        w.ok_spin = False

    def spin_once(node, *, executor=None, timeout_sec=None):
        w.ok_spin = True
        n0 = len(w.pending)
        w.deliver()
        w.until(lambda: len(w.pending) < n0, timeout_sec)
        w.ok_spin = False

    def spin(node, executor=None):
        w.ok_spin = True
        w.until(lambda: not w.ok, None)
        w.ok_spin = False
    rclpy.init, rclpy.shutdown, rclpy.try_shutdown, rclpy.ok = init, shutdown, try_shutdown, lambda **k: w.ok
    rclpy.spin_until_future_complete, rclpy.spin_once, rclpy.spin = spin_until, spin_once, spin
    rclpy.create_node = lambda name, **k: Node(name, **k)
    nodem = types.ModuleType("rclpy.node")
    nodem.Node = Node
    rclpy.node = nodem
    rclpy.Future = Future
    task = types.ModuleType("rclpy.task")
    task.Future = Future
    rclpy.task = task
    util = types.ModuleType("rclpy.utilities")
    util.remove_ros_args = lambda args=None: list(sys.argv if args is None else args)
    util.ok = rclpy.ok
    rclpy.utilities = util
    ndt = types.ModuleType("ndt_2d")
    srv = types.ModuleType("ndt_2d.srv")
    srv.Configure = w.C
    ndt.srv = srv
    return {"rclpy": rclpy, "rclpy.node": nodem, "rclpy.task": task, "rclpy.utilities": util, "ndt_2d": ndt, "ndt_2d.srv": srv}


def run(plan):
    """(class, what, hash, counts)"""
    w = World(plan)
    path = os.path.join(REPO, "scripts", plan["script"] + ".py")
    src = open(path).read()
    const = SCRIPTS[plan["script"]]
    takes_file = plan["script"] in ("load_map", "save_map")
    missing = takes_file and plan["missing"]
    argv = [path] + ([plan["file"]] if takes_file and not missing else [])
    saved = (sys.argv, dict((k, sys.modules.get(k)) for k in modules(w)), _time.sleep, _time.time, _time.monotonic)
    result, how = (None, ""), "returned"
    mods = modules(w)
    try:
        sys.argv = argv
        sys.modules.update(mods)
        _time.sleep = lambda s: w.until(lambda: False, s)
        _time.time = lambda: 1.7e9 + w.t
        _time.monotonic = lambda: w.t
        g = {"__name__": "__main__", "__file__": path, "__builtins__": builtins}
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            exec(compile(src, path, "exec"), g)
    except Stop:
        how = "stopped"
    except SystemExit as e:
        how = "exit %r" % (e.code,)
    except Violation as e:
        result = (e.klass, e.what)
    except Exception as e:      # noqa
        how = "exception %s: %s" % (type(e).__name__, e)
    finally:
        sys.argv = saved[0]
        for k, v in saved[1].items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        _time.sleep, _time.time, _time.monotonic = saved[2:]
    w.log("end", how.split(":")[0])
    name = plan["script"] + ".py"
    never = not plan["avail"]
    w.count("runs_" + plan["script"])
    if never:
        w.count("fault_service_never_there")
    elif len(plan["avail"]) > 1:
        w.count("fault_service_flapping")
    if plan["answer"] > 2:
        w.count("fault_slow_answer")

    def verdict():
        if result[0]:
            return result
        for t, srv, mine, f, avail, _ in w.requests:
            if not mine:
                return "other-service", "%s calls %s" % (name, srv)
            if not avail:
                return "sent-before-available", "%s sends its request at %.3f s although the service is not there (%s)" % (name, t, plan["avail"])
        if missing:
            if w.requests:
                return "sent-without-name", "%s without a file name sends %r" % (name, w.requests[0][3])
            return None, ""
        if never:
            if how != "stopped":
                return "gave-up", "%s ends (%s) after %.3f s without the service ever being there" % (name, how, w.t)
            return None, ""
        if how == "stopped":
            return "never-ends", "%s does not end; requests sent: %d" % (name, len(w.requests))
        if how.startswith("exception") or (how.startswith("exit") and how not in ("exit 0", "exit None")):
            return "failed", "%s ends with %s" % (name, how)
        if len(w.requests) != 1:
            return "request-count", "%s sends %d requests" % (name, len(w.requests))
        f = w.requests[0][3]
        if f["action"] != WANT[const]:
            return "action", "%s sends action %r instead of %s=%d" % (name, f["action"], const, WANT[const])
        if f["filename"] != (plan["file"] if takes_file else ""):
            return "filename", "%s sends the file name %r, given was %r" % (name, f["filename"], plan["file"] if takes_file else "")
        if not w.last.done():
            return "not-waited", "%s ends at %.3f s, before its request is answered (at %.3f s)" % (name, w.t, w.requests[0][0] + plan["answer"])
        if w.ok or w.inits != 1 or w.shut != 1:
            return "no-shutdown", "%s ends without shutting ROS down" % name
        w.count("probe_complete")
        return None, ""
    klass, what = verdict()
    h = hashlib.sha256("\n".join(w.events).encode()).hexdigest()[:16]
    return klass, what, h, w.counts, w.t, "\n".join(w.events)


def constants_ok():
    """the protocol itself: distinct bits for the four actions"""
    C = srv_class()
    return all(getattr(C.Request, k, None) == v for k, v in WANT.items())


def minimise(p, klass):
    def same(q):
        return run(q)[0] == klass
    for k, vals in (("file", ["m"]), ("answer", [0.0, 1.0]), ("avail", [[[0.0, 1e9]], [[1.5, 1e9]]]), ("missing", [False]), ("wakeups", [False])):
        for v in vals:
            q = copy.deepcopy(p)
            q[k] = v
            if same(q):
                p = q
                break
    return p


def replay(path):
    p = json.loads([x for x in open(path) if not x.startswith("#")][0])
    klass, what, h, c, t, log = run(p)
    print(log)
    if klass:
        print("%s: %s" % (klass, what))
        print("VIOLATION property=C27 replay=%s" % path)
        return 1
    print("no violation")
    return 0


def check(prop, tier, seed, secs):
    t0 = _time.time()
    secs = min(secs, 6 if tier == "quick" else 300)
    runs, hashes, counts, det, simt = 0, set(), {}, 0, 0.0
    viol = None
    s0 = seed * 100000000 + 1
    while _time.time() - t0 < secs and viol is None:
        for _ in range(50):
            p = plan_of(s0 + runs)
            klass, what, h, c, t, _log = run(p)
            runs += 1
            simt += t
            for k, v in c.items():
                counts[k] = counts.get(k, 0) + v
            if c.get("probe_complete") or klass:
                hashes.add(h)
            if runs % 40 == 0:
                det += 1
                if run(p)[2] != h:
                    print("CHECK ERROR: the same seed gave two different executions")
                    return 2
            if klass:
                viol = (p, klass, what)
                break
    rc = 0
    if viol:
        p, klass, what = viol
        p = minimise(p, klass)
        a, b = run(p), run(p)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%d.plan" % (prop, klass.replace("-", "_"), viol[0]["seed"]))
        with open(path, "w") as f:
            f.write("# property %s simulator tools generator C27 seed %d\n# %s: %s\n# replay: python3 check.py --replay %s\n%s\n" % (prop, viol[0]["seed"], klass, a[1].replace("\n", " "), path, json.dumps(p)))
        if a[0] != klass or b[2] != a[2]:
            print("CHECK ERROR: a violation could not be reproduced")
            return 2
        print("%s: %s" % (klass, a[1]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        rc = 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(hashes),
            "rule": "One evaluation is one simulated run of one of the four scripts from one seed (availability of the service over time, answer delay, arguments). "
                    "Distinct runs differ in the hash of their event log; non-trivial ones sent a request and completed.",
            "samples": [plan_of(s0), plan_of(s0 + 1)],
            "seeds_per_hour": round(runs / max(_time.time() - t0, 1e-9) * 3600), "search_wall_s": round(_time.time() - t0, 2),
            "simulated_seconds": round(simt, 1), "same_seed_reruns_identical": det,
            "faults_injected": {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault_")},
            "probes": {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("probe_")},
            "other_counters": {k: v for k, v in sorted(counts.items()) if not k.startswith(("fault_", "probe_"))},
            "real_code": "The four scripts of /repo/scripts and the constants of /repo/srv/Configure.srv.",
            "stubbed": "rclpy, service discovery, the clock, time.sleep and the answering node are simulated.",
        },
        "assumptions": ["The simulated rclpy behaves as rclpy does where the scripts depend on it.", "Seeded search: a clean run is evidence over the seeds explored, not a proof."],
        "wall_s": round(_time.time() - t0, 2), "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%d runs, %d distinct, %.0f simulated seconds, %.1f s" % (runs, len(hashes), simt, _time.time() - t0))
    return rc
