"""One run of the check of one property: cases, failures, replays, evidence."""
import base64
import hashlib
import json
import os
import pickle
import random
import time
import traceback

from .concrete import Timeout, limit, short

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# size of the concrete runs, so that a quick run takes about 20 seconds
SCALE = dict(C01=60, C02=200, C03=120, C04=6, C05=3, C06=80, C07=200, C08=30, C09=150, C10=200,
             C11=150, C12=100, C13=80, C14=40, C15=50, C16=80, C17=40, C18=40, C19=200, C20=150)


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(f"{pid}:{seed}:{tier}")
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.fails = {}
        self.notes = []
        self.known = load_known(pid)
        self.known_hit = {}
        self.obligations = []  # dicts from the deductive back end
        self.functions = {}
        self.assumptions = []
        self.trusted = []
        self.bounded = []
        self.solver_s = 0.0
        self.stopped = []  # contracts the verifier could not follow to the end
        self.soft = []  # refuted obligations without a failing input

    # ---- size of the run
    def n(self, quick, thorough=None):
        k = SCALE.get(self.pid, 20)
        if self.tier == "quick":
            return quick * k
        return max(thorough if thorough is not None else 0, quick * k * 8)

    def elapsed(self):
        return time.time() - self.t0

    # ---- concrete contract runs
    def case(self, fn, *args, seconds=10, label=None):
        """fn(*args) -> list of failure dicts(clause, detail) or None"""
        blob = pickle.dumps(args)
        self.evals += 1
        key = hashlib.md5(fn.__name__.encode() + blob).hexdigest()
        self.distinct.add(key)
        if len(self.samples) < 12 and (self.evals & (self.evals - 1)) == 0:
            self.samples.append(f"{fn.__name__}{short(args, 240)}")
        try:
            with limit(seconds):
                res = fn(*pickle.loads(blob)) or []
        except Timeout as e:
            res = [dict(clause="terminates", detail=str(e))]
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb][-4:]
            res = [dict(clause="no unexpected exception",
                        detail=f"{type(e).__name__}: {e} at {' > '.join(where)}")]
        for f in res:
            self.fail(f"{label or fn.__name__}: {f['clause']}", f.get("detail", ""),
                      case=(fn.__module__, fn.__name__, blob), readable=short(args, 3000),
                      clause=f["clause"], key=f.get("key"))
        return res

    def fail(self, site, detail, case=None, readable="", clause="", key=None, no_input=False,
             extra=None):
        for k in self.known:
            if k["match"] in (key, site):
                self.known_hit.setdefault(k["match"], detail)
                return
        if site in self.fails:
            self.fails[site]["count"] += 1
            return
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        name = f"{self.pid}-{hashlib.md5(site.encode()).hexdigest()[:10]}.json"
        path = os.path.join(d, name)
        rec = dict(property=self.pid, violated=site, clause=clause, detail=detail,
                   input=readable,
                   how_to_replay=f"python3-vt /verif/check.py {self.pid} --replay {path}")
        if case:
            rec["module"], rec["function"] = case[0], case[1]
            rec["args_pickle"] = base64.b64encode(case[2]).decode()
        if extra:
            rec.update(extra)
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        self.fails[site] = dict(path=path, detail=detail, count=1, no_input=no_input)

    # ---- end
    def finish(self, level, extra_cov=None):
        for k in self.known:
            if k["match"] in self.known_hit:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        real = [s for s, f in self.fails.items() if not f["no_input"]]
        soft = [s for s, f in self.fails.items() if f["no_input"]]
        for s in real + soft:
            f = self.fails[s]
            print(f"  {s} ({f['count']}x): {short(f['detail'], 500)}")
        for s in real:
            print(f"VIOLATION property={self.pid} replay={self.fails[s]['path']}")
        if not real:
            for s in soft:
                print(f"VIOLATION property={self.pid} replay={self.fails[s]['path']} "
                      "no-failing-input-found")
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct),
                   rule="distinct (function, arguments) of contract executions on the real code",
                   samples=self.samples or ["(none)"])
        if self.obligations or level == "proof":
            disc = [o for o in self.obligations if o["status"] == "discharged"]
            cov.update(
                obligations=len(self.obligations), discharged=len(disc),
                checker_cmd=f"python3-vt /verif/check.py {self.pid} --tier {self.tier}",
                trusted_base=self.trusted or ["PyVC (this directory)", "z3"],
                functions_under_contract=sorted(self.functions),
                per_function=self.functions,
                solver_s=round(self.solver_s, 2),
                contracts_discharged=len({o["contract"] for o in self.obligations}
                                         - {o["contract"] for o in self.obligations
                                            if o["status"] != "discharged"}),
                contracts_outside_reach=self.stopped,
                undischarged=[o for o in self.obligations if o["status"] != "discharged"][:40],
            )
        cov["bounded_stand_ins"] = self.bounded
        if extra_cov:
            cov.update(extra_cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(self.elapsed(), 2), violations=len(self.fails),
                  known_findings=sorted(self.known_hit), notes=self.notes[:50])
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid}: {self.evals} contract executions, "
              f"{len(self.obligations)} obligations "
              f"({len([o for o in self.obligations if o['status'] == 'discharged'])} discharged), "
              f"{len(self.fails)} violations, {self.elapsed():.1f} s")
        return 1 if self.fails else 0


def load_known(pid):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d["property"] == pid and d["status"] == "known":
                    out.append(d)
    return out


def replay(path):
    import importlib

    rec = json.load(open(path))
    print(f"property {rec['property']}: {rec['violated']}\n  recorded: {rec['detail']}")
    if "args_pickle" not in rec:
        print(json.dumps(rec, indent=1)[:6000])
        return 0
    fn = getattr(importlib.import_module(rec["module"]), rec["function"])
    args = pickle.loads(base64.b64decode(rec["args_pickle"]))
    print("  input:", short(args, 2000))
    try:
        with limit(20):
            res = fn(*args)
    except Exception as e:
        traceback.print_exc()
        res = [dict(clause="no unexpected exception", detail=str(e))]
    for f in res or []:
        print("  FAILS", f["clause"], short(f.get("detail", ""), 2000))
    if not res:
        print("  holds now")
    return 1 if res else 0
