"""Common driver for the checks: evidence, known findings, exit codes."""
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts  # noqa: E402

VERIF = facts.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, pid, technique, rule):
        self.pid = pid
        self.technique = technique
        self.rule = rule
        self.found = []      # (key, file, line, message)
        self.obl = []        # obligations: (name, count)
        self.notes = []
        self.items = []
        self.t0 = time.time()
        self.fns = set()
        self.undec = []      # parts the analysis could not interpret

    def undecided(self, part, why):
        """a part written with constructs the analyser does not model: nothing is claimed for it"""
        self.undec.append("%s: %s" % (part, str(why)[:300]))

    def violation(self, key, fn, line, msg):
        """key: stable identity of the failing construct (no line numbers)"""
        f = ""
        if isinstance(fn, dict):
            f = facts.rel(fn.get("file", "")) + ":" + str(line or fn.get("l", ""))
        elif fn:
            f = "%s:%s" % (fn, line)
        if not any(k == key for k, _, _ in self.found):
            self.found.append((key, f, msg))
            if getattr(self, "soft", False) and not getattr(self, "cut", False) and key not in known(self.pid):
                # the verdict is settled; look for more only briefly
                left = signal.alarm(0)
                if left:
                    self.cut = True
                    signal.alarm(min(left, 60))

    def obligation(self, name, n=1):
        self.obl.append((name, n))

    def require(self, name, n, least):
        """instance floor: fewer matches than confirmed by hand = analysis broken"""
        self.obl.append((name, n))
        if n < least and not self.undec:
            raise facts.AnalysisError("%s: %d instances of '%s', expected at least %d"
                                      % (self.pid, n, name, least))

    def analysed(self, fn):
        self.fns.add("%s (%s:%s)" % (fn.get("sqn") or fn.get("qn"), facts.rel(fn.get("file", "")),
                                     fn.get("l")))


def known(pid):
    out = {}
    try:
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, _, msg = rest.partition(" :: ")
                out[key.strip()] = msg.strip()
    except FileNotFoundError:
        pass
    return out


def run(pid, technique, rule, main):
    r = Report(pid, technique, rule)
    try:
        main(r)
    except facts.AnalysisError as x:
        if not any(k not in known(pid) for k, _, _ in r.found):
            print("ANALYSIS-BROKEN property=%s %s" % (pid, x))
            sys.exit(2)
        r.notes.append("analysis stopped early: %s" % x)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        sys.exit(2)
    kn = known(pid)
    new = [(k, f, m) for k, f, m in r.found if k not in kn]
    old = [(k, f, m) for k, f, m in r.found if k in kn]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    total = sum(n for _, n in r.obl)
    for u in r.undec:
        print("UNDECIDED property=%s %s" % (pid, u))
    ev = {
        "property": pid,
    }
    ev.update(evidence(r, total, new, old))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, f, m in old:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, m, k))
    for k, f, m in new:
        print("  %s: %s [%s]" % (f, m, k))
    if new:
        rp = os.path.join(VERIF, "build", "replay")
        os.makedirs(rp, exist_ok=True)
        p = os.path.join(rp, pid + ".txt")
        with open(p, "w") as f:
            for k, fl, m in new:
                f.write("%s\n  at %s\n  %s\n" % (k, fl, m))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        sys.exit(1)
    print(("UNDECIDED" if r.undec and not total else "OK") + " property=%s obligations=%d functions=%d known=%d (%.1fs)"
          % (pid, total, len(r.fns), len(old), time.time() - r.t0))
    sys.exit(0)


def evidence(r, total, new, old):
    bad = len(r.found)
    return {
        "tier": os.environ.get("VERIF_TIER", "quick"),
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis (%s) of the current tree; nothing was executed. "
                           "Rule: %s" % (r.technique, r.rule),
            "obligations": total,
            "discharged": max(0, total - bad),
            "instances": {n: c for n, c in r.obl},
            "functions_analysed": sorted(r.fns),
            "samples": r.items[:40],
            "notes": r.notes,
            "undecided": r.undec,
            "known_findings": ["%s: %s" % (k, m) for k, _, m in old],
        },
        "assumptions": r.assumptions if hasattr(r, "assumptions") else [],
        "wall_s": round(time.time() - r.t0, 2),
        "violations": len(new),
    }


def out_of_time(*_):
    raise facts.AnalysisError("time budget used up")


def parallel(rep, fn, jobs, workers=8, budget=600):
    """run fn(subreport, job) for every job in forked workers and merge the results"""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    q = ctx.Queue()

    def work(i, js):
        for j in js:
            r = Report(rep.pid, rep.technique, rep.rule)
            r.counts = {}
            r.soft = getattr(rep, "soft", False)
            err = None
            try:
                if r.soft:
                    signal.signal(signal.SIGALRM, out_of_time)
                    signal.alarm(max(5, int(budget - (time.time() - rep.t0))))
                fn(r, j)
            except facts.AnalysisError as x:
                if r.soft:
                    r.undecided(j[0] if isinstance(j, tuple) else j, x)
                else:
                    err = ("analysis", str(x))
            except BaseException:
                if r.soft:
                    r.undecided(j[0] if isinstance(j, tuple) else j, "internal error: " + traceback.format_exc()[-300:]
                                .replace("\n", " "))
                else:
                    err = ("crash", traceback.format_exc())
            signal.alarm(0)
            q.put((j, r.found, r.obl, r.notes, r.items, r.fns, r.counts, err, r.undec))
        q.put(None)
    ps = []
    n = min(workers, len(jobs))
    for i in range(n):
        p = ctx.Process(target=work, args=(i, jobs[i::n]))
        p.start()
        ps.append(p)
    got, left = [], n
    while left:
        x = q.get()
        if x is None:
            left -= 1
        else:
            got.append(x)
    for p in ps:
        p.join()
    got.sort(key=lambda x: repr(x[0]))
    if not hasattr(rep, "counts"):
        rep.counts = {}
    errs = []
    for j, found, obl, notes, items, fns, counts, err, undec in got:
        rep.undec += undec
        for k, f, m in found:
            if not any(k == k2 for k2, _, _ in rep.found):
                rep.found.append((k, f, m))
        rep.obl += obl
        rep.notes += notes
        rep.items += items
        rep.fns |= fns
        for k, v in counts.items():
            rep.counts[k] = rep.counts.get(k, 0) + v
        if err:
            errs.append(err)
    if errs:
        raise facts.AnalysisError("; ".join(dict.fromkeys(e[1] for e in errs))[:4000])
