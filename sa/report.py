"""Obligations, findings and evidence."""
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

from .vals import AnalysisBroken, Undecided

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """A construct breaks the property."""

    def __init__(self, key, message, where=None, detail=None):
        super().__init__(message)
        self.key, self.message, self.where, self.detail = key, message, where, detail


def known_findings():
    """{property: {key: text}} of the findings that were recorded and not repaired."""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt"), encoding="utf8") as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known:"):
                continue
            fields = dict(x.split("=", 1) for x in line[6:].split("::")[0].split() if "=" in x)
            out.setdefault(fields["property"], {})[fields["key"]] = line.split("::", 1)[1].strip()
    return out


BUDGET = 600  # seconds for a quick check
MEMORY = 3 << 30  # bytes for a worker


class Report:
    """Collects what a rule decided."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.held, self.undecided, self.violations = [], [], []
        self.counts = {}
        self.samples = []
        self.explanation = ""
        self.assumptions = []
        self.rule = ""
        self.positive = []
        self.limit = 120

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)

    def violate(self, key, message, where=None, detail=None):
        if not any(v.key == key and v.message == message for v in self.violations):
            self.violations.append(Violation(key, message, where, detail))

    def undecide(self, name, reason):
        self.undecided.append((name, reason))

    def obligation(self, name, fn, *args):
        """Decide one obligation: fn returns a list of violations (or raises one)."""
        if len(self.violations) > 80:
            self.count("skipped_after_80_violations")
            return

        if self.tier == "quick" and time.time() - self.t0 > BUDGET:
            self.undecided.append((name, "analysis budget of the check exhausted"))
            return

        def alarm(*_):
            raise Undecided("analysis budget of the obligation exhausted")

        old = signal.signal(signal.SIGALRM, alarm)
        signal.alarm(self.limit)
        try:
            bad = fn(*args)
            signal.alarm(0)
            bad = [b for b in (bad or []) if b is not None]
            for b in bad:
                self.violate(b.key, b.message, b.where, b.detail)
            if not bad:
                self.held.append(name)
        except Violation as e:
            self.violate(e.key, e.message, e.where, e.detail)
        except Undecided as e:
            self.undecided.append((name, str(e)))
        except AnalysisBroken:
            raise
        except (RecursionError, MemoryError) as e:
            self.undecided.append((name, f"analysis limit: {type(e).__name__}"))
        except Exception as e:  # the engine met something it does not model
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            self.undecided.append((name, f"engine: {type(e).__name__}: {e}"))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def parallel(self, jobs, workers=None):
        """Decide the obligations [(name, fn, args...)] in forked copies of this process."""
        workers = workers or min(8, os.cpu_count() or 1)
        if workers < 2 or len(jobs) < 2 * workers or os.environ.get("SA_DEBUG"):
            for j in jobs:
                self.obligation(*j)
            return
        sys.stdout.flush()
        # batches: a worker starts from the state of this process and gives its memory back at the end
        size = max(1, min(400, len(jobs) // (workers * 6)))
        batches = [jobs[i::max(1, -(-len(jobs) // size))] for i in range(max(1, -(-len(jobs) // size)))]
        poll = select.poll()
        live = {}  # descriptor -> [pid, bytes, batch]
        while batches or live:
            while batches and len(live) < workers:
                batch = batches.pop(0)
                pid, r = self._worker(batch)
                live[r] = [pid, [], batch]
                poll.register(r, select.POLLIN | select.POLLHUP)
            for r, _ in poll.poll():
                data = os.read(r, 1 << 20)
                if data:
                    live[r][1].append(data)
                    continue
                poll.unregister(r)
                os.close(r)
                pid, data, batch = live.pop(r)
                _, status = os.waitpid(pid, 0)
                data = b"".join(data)
                if status or not data:
                    if len(batch) == 1:
                        self.undecided.append((batch[0][0], f"the analysis ended with status {status}"))
                    else:  # find out which
                        half = len(batch) // 2
                        batches += [batch[:half], batch[half:]]
                    continue
                held, undecided, violations, counts, broken, samples = pickle.loads(data)
                if broken:
                    for q in live.values():
                        os.kill(q[0], signal.SIGKILL)
                    raise AnalysisBroken(broken)
                self.held += held
                self.undecided += undecided
                for v in violations:
                    self.violate(*v)
                for k, n in counts.items():
                    self.counts[k] = self.counts.get(k, 0) + n
                for t in samples:
                    self.sample(t)

    def _worker(self, batch):
        """(process, descriptor to read from) of a forked copy that decides the batch."""
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            return pid, r
        code = 1
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            self.held, self.undecided, self.counts, self.samples = [], [], {}, []
            self.violations, known = list(self.violations), len(self.violations)
            broken = None
            try:
                for j in batch:
                    self.obligation(*j)
            except AnalysisBroken as e:
                broken = str(e)
            data = pickle.dumps((self.held, self.undecided, [
                (v.key, v.message, v.where if isinstance(v.where, tuple) else v.where and str(v.where), v.detail and str(v.detail))
                for v in self.violations[known:]], self.counts, broken, self.samples))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)

    def finish(self, level):
        """Print the verdict, write evidence and return the exit code."""
        known = known_findings().get(self.prop, {})
        new = [v for v in self.violations if v.key not in known]
        code = 0
        for v in self.violations:
            if v.key in known and not getattr(v, "dup", False):
                pass
        for k in dict.fromkeys(v.key for v in self.violations if v.key in known):
            print(f"KNOWN-FINDING: property={self.prop} {known[k]}")
        for name, why in self.undecided[:8]:
            print(f"UNDECIDED: property={self.prop} {name}: {why}")
        if len(self.undecided) > 8:
            print(f"UNDECIDED: property={self.prop} and {len(self.undecided) - 8} more (see the evidence file)")
        fmt = lambda w: f"{w[0]}:{w[1]} in {w[2]}" if isinstance(w, tuple) else str(w)
        if new:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            path = os.path.join(HERE, "evidence", f"{self.prop}.violation.txt")
            with open(path, "w", encoding="utf8") as f:
                for v in new:
                    f.write(f"[{v.key}] {v.message}\n")
                    if v.where:
                        f.write(f"  at: {fmt(v.where)}\n")
                    if v.detail:
                        f.write(f"  when: {v.detail}\n")
            for v in new[:20]:
                print(f"  [{v.key}] {v.message}" + (f" ({fmt(v.where)})" if v.where else ""))
                if v.detail:
                    print(f"    when: {v.detail}")
            print(f"VIOLATION property={self.prop} replay={path}")
            code = 1
        decided = len(self.held) + len(self.violations)
        cov = {
            "explanation": self.explanation,
            "rule": self.rule,
            "obligations": len(self.held) + len(self.undecided) + len(self.violations),
            "discharged": len(self.held),
            "undecided": [f"{n}: {w}" for n, w in self.undecided[:200]],
            "undecided_count": len(self.undecided),
            "known_findings_seen": sorted({v.key for v in self.violations if v.key in known}),
            "samples": self.samples or self.held[:12],
            **self.counts,
        }
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": cov, "wall_s": round(time.time() - self.t0, 3),
            "assumptions": self.assumptions,
            "violations": [f"{v.key}: {v.message}" for v in new],
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{self.prop}.json"), "w", encoding="utf8") as f:
            json.dump(ev, f, indent=1, default=str)
        if code == 0 and decided == 0:
            print(f"BROKEN: property={self.prop} nothing could be decided")
            code = 2
        print(
            f"{self.prop}: {len(self.held)} obligations hold, {len(new)} violated, "
            f"{len(self.violations) - len(new)} known, {len(self.undecided)} undecided "
            f"({time.time() - self.t0:.1f}s)"
        )
        return code
