"""Minimises a violating plan: fewer tasks, operations, faults; simpler values;
the plain schedule; finally as few scheduling decisions as possible."""
import copy, json, os, subprocess, tempfile, time


class Server:
    """A worker answering one plan per line; restarted when a run poisons it."""

    def __init__(self, cmd, env, cwd):
        self.cmd, self.env, self.cwd, self.p = cmd, env, cwd, None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.communicate()
            self.p = None

    def run(self, plan, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.p = subprocess.Popen(self.cmd, env=self.env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=self.cwd, text=True)
        try:
            self.p.stdin.write(json.dumps(plan) + "\n")
            self.p.stdin.flush()
            import select
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            line = self.p.stdout.readline() if r else ""
        except OSError:
            line = ""
        if not line:
            self.stop()
            return {"crash": True, "violations": []}
        d = json.loads(line)
        d["violations"] = d.get("violations") or []
        if d.get("poisoned"):
            self.stop()
        return d


def minimise(srv, plan, prop, cls, budget):
    end = time.time() + budget
    steps = [0]
    best = copy.deepcopy(plan)
    state = {"res": None}

    def fails(p):
        if time.time() > end:
            return False
        steps[0] += 1
        r = srv.run(p)
        ok = any(v["property"] == prop and v["class"] == cls for v in r["violations"])
        if ok:
            state["res"] = r
        return ok

    def attempt(mut):
        nonlocal best
        p = copy.deepcopy(best)
        if mut(p) is False or p == best:
            return False
        if fails(p):
            best = p
            return True
        return False

    def ddmin(get, put):
        """Removes elements of a list in ever smaller chunks."""
        nonlocal best
        items = get(best)
        n = len(items)
        size = n
        while size >= 1 and time.time() < end:
            i = 0
            changed = False
            while i < len(get(best)):
                items = get(best)
                p = copy.deepcopy(best)
                put(p, items[:i] + items[i + size:])
                if fails(p):
                    best = p
                    changed = True
                else:
                    i += size
            if size == 1 and not changed:
                break
            size = size // 2 if size > 1 else (1 if changed else 0)

    def lst(key):
        def put(p, v):
            p[key] = v
        return lambda p: p.get(key) or [], put

    if best.get("gen"):
        for k in list(best["gen"]):
            if isinstance(best["gen"][k], list):
                ddmin(lambda p: p["gen"].get(k) or [], lambda p, v: p["gen"].__setitem__(k, v))
    for key in ("tasks", "crashes", "partitions", "conn_faults"):
        g, s = lst(key)
        ddmin(g, s)
    for rnd in range(2):
        for ti in range(len(best.get("tasks") or [])):
            ddmin(lambda p: p["tasks"][ti].get("ops") or [], lambda p, v: p["tasks"][ti].__setitem__("ops", v))
        for key in ("tasks", "crashes", "partitions", "conn_faults"):
            g, s = lst(key)
            ddmin(g, s)
    attempt(lambda p: p.__setitem__("probes", 0))
    attempt(lambda p: p.__setitem__("headers", []))
    for k in ("latency", "jitter", "segmax", "bw"):
        attempt(lambda p: p.get("link", {}).__setitem__(k, 0) if p.get("link") else False)
    for ti, t in enumerate(best.get("tasks") or []):
        attempt(lambda p: p["tasks"][ti].__setitem__("start", 0))
        for oi in range(len(t.get("ops") or [])):
            for k, v in (("wait", 0), ("exec", 0), ("size", 1), ("size", 0), ("timeout", 0), ("cancel", 0), ("cut", 0), ("mode", "")):
                def mut(p):
                    o = p["tasks"][ti]["ops"][oi]
                    if not o.get(k):
                        return False
                    o[k] = v
                attempt(mut)
    for i in range(len(best.get("clients") or [])):
        for k, v in (("timeout", 0), ("headers", -1), ("http", "pool"), ("encoding", 0)):
            def mut(p):
                if p["clients"][i].get(k, v) == v:
                    return False
                p["clients"][i][k] = v
            attempt(mut)
    for i in range(len(best.get("servers") or [])):
        attempt(lambda p: p["servers"][i].__setitem__("instrument", ""))
    attempt(lambda p: p["sched"].update(policy=0, yield_p=0))
    if not (best["sched"].get("policy") == 0 and best["sched"].get("yield_p") == 0):
        attempt(lambda p: p["sched"].update(yield_p=0))
        # fix the schedule to a list of non-default decisions and thin it out
        r = srv.run(best)
        if r["violations"] and not r.get("lost"):
            def mut(p):
                p["sched"].update(explicit=True, choices=r.get("choices") or [])
            if attempt(mut):
                ddmin(lambda p: p["sched"].get("choices") or [], lambda p, v: p["sched"].__setitem__("choices", v))
    g, s = lst("tasks")
    ddmin(g, s)
    return best, steps[0]


def trace(check, plan):
    """The event list of one plan."""
    f = os.path.join(check.scratch, "trace.json")
    with open(f, "w") as h:
        json.dump(plan, h)
    try:
        p = subprocess.run([check.worker] + check.base()[1:] + ["-mode", "replay", "-v", "-file", f] + (check.nowarm or []), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           cwd=check.scratch, timeout=120, env=dict(os.environ, GOMAXPROCS="1"))
    except subprocess.TimeoutExpired:
        return []
    return [x.decode("utf-8", "replace").strip() for x in p.stderr.splitlines() if b"  " in x][:400]
