"""Frame of every check: workload execution in parallel, trace validation by TLC, confirmation, evidence, verdict."""
import glob, hashlib, json, multiprocessing, os, shutil, sys, tempfile, time, traceback
from . import build as B, tlc
from .rec import Over

LEVEL = "model_checking"


class Case:
    def __init__(self, id, fn, **kw):
        self.id, self.fn, self.kw = id, fn, kw


_cases = []
_recf = None


def _work(i):
    c = _cases[i]
    scratch = tempfile.mkdtemp(prefix="kpcase")
    try:
        os.chmod(scratch, 0o700)
        r = _recf(scratch, c)
        try:
            note = c.fn(r)
        except Over:
            note = "died"
        except Exception as x:
            if isinstance(x, (MemoryError, OSError)) and not isinstance(x, FileNotFoundError):
                raise
            # the library did something the harness cannot even follow (an unreadable file, an object that is not there)
            note = "broken: case %s: %s" % (c.id, traceback.format_exc())
        return i, r.ev, r.cmds, note, None
    except Exception:
        return i, None, None, None, "case %s: %s" % (c.id, traceback.format_exc())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.parts = [], []
        self.models, self.findings, self.violations = [], [], []
        self.extra = {}
        self.assumptions = []
        self.actions = {}
        self.known = known(prop)

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, q, t):
        return q if self.quick else t

    def left(self, budget):
        """Seconds left of a time budget for the whole check."""
        return budget - (time.time() - self.t0)

    # ---- the specification by itself
    def model(self, module, cfg, what, env=None, timeout=600, extra=(), sim=False):
        """Explores a model exhaustively (or by simulation); it must satisfy its properties. Returns printed lines."""
        r = tlc.run(module, cfg, env, timeout=timeout, extra=extra, workers=1 if sim else 8)
        if not r.ok:
            raise tlc.ToolError("model %s failed (%d)\n%s" % (module, r.rc, r.tail()))
        self.states += r.distinct or r.generated
        self.transitions += r.generated
        self.models.append({"model": module, "what": what, "distinct_states": r.distinct, "states_generated": r.generated,
                            "exhaustive": not sim})
        return r.lines

    # ---- running cases on the real code
    def record(self, cases, recf, procs=8):
        """Runs the cases; returns [(case, events, commands, note)]."""
        global _cases, _recf
        _cases, _recf = cases, recf
        out = []
        if procs == 1 or len(cases) == 1:
            res = map(_work, range(len(cases)))
            pool = None
        else:
            pool = multiprocessing.get_context("fork").Pool(min(procs, len(cases)))
            res = pool.imap_unordered(_work, range(len(cases)))
        try:
            for i, ev, cmds, note, err in res:
                if err:
                    raise RuntimeError(err)
                out.append((cases[i], ev, cmds, note))
        finally:
            if pool:
                pool.terminate()
                pool.join()
        out.sort(key=lambda x: x[0].id)
        return out

    # ---- checking traces against a trace specification
    def accept(self, module, recs, cfg, env=None, timeout=800, chunk=None):
        """Returns the rejected ones as [(rec, why)]; why is a list of texts."""
        if not recs:
            return []
        broken = [(x, [str(x[3])]) for x in recs if str(x[3]).startswith("broken: ")]
        return self._accept(module, [x for x in recs if not str(x[3]).startswith("broken: ")], cfg, env, timeout) + broken

    def _accept(self, module, recs, cfg, env, timeout):
        if not recs:
            return []
        fd, p = tempfile.mkstemp(prefix="kptrace", suffix=".ndjson")
        try:
            with os.fdopen(fd, "w") as f:
                for c, ev, _, _ in recs:
                    f.write(json.dumps({"id": str(c.id), "ev": ev}) + "\n")
            r = tlc.run(module, cfg, dict(env or {}, TRACE=p), timeout=timeout)
        finally:
            os.unlink(p)
        if not r.ok:
            if "Parsing or semantic" in r.out or "Computing initial states" not in r.out or "OutOfMemory" in r.out:
                raise tlc.ToolError("TLC failed (%d)\n%s" % (r.rc, r.tail()))
            # an event of a shape the specification cannot even evaluate: find it
            if len(recs) == 1:
                return [(recs[0], ["cannot be evaluated: " + r.tail()[-1500:]])]
            h = len(recs) // 2
            return self._accept(module, recs[:h], cfg, env, timeout) + self._accept(module, recs[h:], cfg, env, timeout)
        self.states += r.distinct
        self.transitions += r.generated
        ok, fails = set(), {}
        for l in r.lines:
            if l.startswith("@ACCEPT "):
                ok.add(int(l.split()[1]))
            elif l.startswith("@FAIL "):
                fails.setdefault(int(l.split()[1]), []).append(l)
            elif l.startswith("@ACT "):
                _, a, n = l.split()
                self.actions[a] = self.actions.get(a, 0) + int(n)
        self.traces += len(ok)
        self.events += sum(len(x[1]) for x in recs)
        return [(recs[i], fails.get(i + 1, ["no step of the specification matches"])) for i in range(len(recs)) if i + 1 not in ok]

    def part(self, what, recs, wall=None):
        kinds = {}
        for r in recs:
            for e in r[1]:
                kinds[e["e"]] = kinds.get(e["e"], 0) + 1
        self.parts.append({"workload": what, "runs": len(recs), "events": sum(kinds.values()), "by_kind": kinds})

    def validate(self, module, cases, recf, cfg, env=None, procs=8, timeout=800, what="", sample=2, on_reject=None, chunk=400, limit=3, twice=False):
        """Records, checks, re-runs rejected cases and reports them.

        A run whose recorded events the specification rejects is evidence by itself: the library draws random numbers, so that it may
        do better when run again. Only what the machine may have caused (a process that died or took too long, no memory, a full disk),
        and the statistical runs (twice), must be rejected again."""
        t = time.time()
        n = ev = 0
        rejected = []
        kinds = {}
        for s in range(0, len(cases), chunk):
            recs = self.record(cases[s:s + chunk], recf, procs)
            for r in recs:
                ev += len(r[1])
                for e in r[1]:
                    kinds[e["e"]] = kinds.get(e["e"], 0) + 1
            n += len(recs)
            if s == 0:
                for c, e, _, _ in recs[:sample]:
                    self.samples.append({"case": str(c.id), "events": _short(e)})
            rejected += self.accept(module, recs, cfg, env, timeout)
            if len(rejected) > 20 and not on_reject:
                break
        self.parts.append({"workload": what or module, "runs": n, "events": ev, "by_kind": kinds, "wall_s": round(time.time() - t, 1)})
        seen = 0
        for rec, why in rejected[:limit]:
            c = rec[0]
            for _ in range(3):
                again = self.record([c], recf, 1)
                bad = self.accept(module, again, cfg, env, timeout)
                if bad or twice:
                    break
            if not bad and not twice and not doubtful(rec):
                bad = [(rec, why)]
            if not bad:
                print("note: run %s was rejected once and accepted when repeated: %s" % (c.id, why[0][:500]), flush=True)
                continue
            seen += 1
            if on_reject and on_reject(c, bad[0]):
                continue
            self.violation(c, bad[0][0], bad[0][1], module)
        return rejected

    def violation(self, c, rec, why, module):
        d = os.path.join(B.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha256(str(c.id).encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "case": str(c.id), "seed": self.seed, "tier": self.tier, "spec": module, "why": why,
                       "rerun": "VERIF_SEED=%d VERIF_TIER=%s bin/check %s --case '%s'" % (self.seed, self.tier, self.prop, c.id),
                       "commands": rec[2], "events": rec[1]}, f, indent=1)
        self.violations.append({"case": str(c.id), "why": [w[:600] for w in why[:3]], "replay": p})
        print("rejected: %s: %s" % (c.id, explain(why)), flush=True)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def finding(self, text):
        if text not in self.findings:
            self.findings.append(text)
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text), flush=True)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_checked": self.events, "models": self.models, "workloads": self.parts, "samples": self.samples[:6]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": LEVEL, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.findings:
            ev["coverage"]["known_findings"] = self.findings
        d = os.path.join(B.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(d, self.prop + ".json"))
        print("%s %s: %d states, %d traces validated, %d events, %.1fs: %s" % (
            self.prop, self.tier, self.states, self.traces, self.events, time.time() - self.t0,
            "VIOLATED" if self.violations else "held"), flush=True)
        return 1 if self.violations else 0


def doubtful(rec):
    """Whether the machine rather than the library may be to blame."""
    if str(rec[3] or "").startswith("broken: "):
        return True
    t = json.dumps(rec[1][-3:]) + json.dumps([e.get(k) for e in rec[1] for k in ("out", "outs", "what") if k in e])
    return any(w in t for w in ('"crash"', '"hang"', "bad_alloc", '"Io"', "No space", "Resource temp"))


def explain(why):
    """Short form of a rejection."""
    from .diff import diff
    w = why[0]
    if w.startswith("@FAIL "):
        try:
            _, _, l, rest = w.split(" ", 3)
            k = rest.find(" {")
            k = k if k >= 0 else rest.find(" [")
            info = json.loads(rest[k + 1:])
            if isinstance(info, dict) and set(info) == {"got", "want"}:
                return "event %s: %s: %s" % (l, rest[:k], "; ".join(diff(info["got"], info["want"])))
            if isinstance(info, dict) and "file" in info and isinstance(info["file"], dict) and isinstance(info.get("got"), dict) \
                    and isinstance(info["file"].get("content"), dict) and info["got"]:
                return "event %s: %s out=%s (%s): %s" % (l, rest[:k], info["out"], info.get("what"), "; ".join(
                    diff(info["got"], info["file"]["content"])))
            return "event %s: %s: %s" % (l, rest[:k], json.dumps(info)[:500])
        except ValueError:
            pass
    return w[:600]


def _short(ev, n=700):
    out = []
    for e in ev[:12]:
        s = json.dumps(e)
        out.append(json.loads(s) if len(s) <= n else s[:n] + "...")
    return out


def known(prop):
    r = []
    p = os.path.join(B.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                w = l.split(None, 3)
                if w[1] == "property=" + prop:
                    r.append((w[2].split("=", 1)[1], w[3].strip()))
    return dict(r)
