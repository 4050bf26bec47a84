"""Runs proof jobs in parallel worker processes and applies the verdict policy."""
import multiprocessing as mp
import os
import pickle
import signal
import time
import traceback

CTX = mp.get_context("fork")


def _child(conn, fn, args, mem_gb):
    import resource

    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    except (ValueError, OSError):
        pass
    try:
        r = fn(*args)
    except BaseException as e:  # noqa: BLE001 - never a verdict about the code
        r = dict(name=str(args)[:80], error=f"{type(e).__name__}: {e} "
                 f"{traceback.format_exc()[-600:]}")
    try:
        conn.send_bytes(pickle.dumps(r))
    except Exception as e:
        conn.send_bytes(pickle.dumps(dict(name=str(args)[:80], error=f"result: {e}")))
    conn.close()
    os._exit(0)


def run_jobs(jobs, workers=None, seconds=120, total=600, mem_gb=6):
    """jobs: [(fn, args)] -> results in order (None: gave up)"""
    workers = workers or min(8, os.cpu_count() or 1)
    res = [None] * len(jobs)
    pending = list(range(len(jobs)))[::-1]
    active = {}
    t0 = time.time()
    while pending or active:
        while pending and len(active) < workers and time.time() - t0 < total:
            i = pending.pop()
            a, b = CTX.Pipe(duplex=False)
            p = CTX.Process(target=_child, args=(b, jobs[i][0], jobs[i][1], mem_gb))
            p.start()
            b.close()
            active[i] = (p, a, time.time())
        if not active:
            break
        mp.connection.wait([a for _, a, _ in active.values()], timeout=0.2)
        for i, (p, a, t) in list(active.items()):
            done = False
            if a.poll():
                try:
                    res[i] = pickle.loads(a.recv_bytes())
                except (EOFError, OSError):
                    res[i] = dict(name=str(jobs[i][1])[:80], error="worker ended")
                done = True
            elif not p.is_alive():
                res[i] = dict(name=str(jobs[i][1])[:80], error="worker ended")
                done = True
            elif time.time() - t > seconds or time.time() - t0 > total + 30:
                p.kill()
                res[i] = dict(name=str(jobs[i][1])[:80], error=f"no answer in {seconds} s")
                done = True
            if done:
                p.join(5)
                if p.is_alive():
                    p.kill()
                    p.join()
                a.close()
                del active[i]
    return res


def pack(res, replay=None):
    """picklable summary of a contract Result; refuted obligations are concretized and
    replayed on the real code by replay(subject value) -> list of failures"""
    from .model import Concrete, small_model
    from .values import Unsupported
    import z3

    out = dict(name=res.name, unsupported=res.unsupported, functions=res.functions,
               assumptions=sorted(res.assumptions), paths=res.paths, time=res.time,
               solver=res.solver, proved=bool(res.proved), invariant=res.invariant,
               obls=[(o[0], o[1]) for o in res.obls], refuted=[])
    seen = set()
    n = 0
    for o in res.obls:
        if o[1] != "refuted" or n >= 6:
            continue
        rec = dict(obligation=o[0], model="", cases=[])
        m, pc, info = o[2]
        if o[0] in seen and len(out["refuted"]) >= 3:
            continue
        seen.add(o[0])
        n += 1
        try:
            goal = o[3] if len(o) > 3 else None
            sm = small_model(list(pc) + ([z3.Not(goal)] if goal is not None else []))
            m = sm if sm is not None else m
            rec["model"] = str(m)[:1500]
            if replay is not None and res.subject is not None:
                d = Concrete(m).value(res.subject)
                rec["cases"] = replay(d)
        except Unsupported as u:
            rec["note"] = str(u)
        except Exception as ex:
            rec["note"] = f"{type(ex).__name__}: {ex}"
        out["refuted"].append(rec)
    return out


def add_results(run, results, expected, search=None):
    """record the results of proof jobs in the Run and report refuted obligations.

    `search(name)`: directed concrete search for an input that fails, -> bool"""
    for (name, _), r in zip(expected, results):
        if r is None or r.get("error"):
            why = (r or {}).get("error", "time ran out")
            run.bounded.append(f"{name}: not decided ({why[:300]})")
            continue
        if r["unsupported"]:
            run.bounded.append(f"{name}: outside the verifier's reach "
                               f"({r['unsupported'][:300]}); bounded contract runs only")
        # a supplied invariant or a contract of an internal function that does not fit the code
        # says nothing about what the code does
        misfit = r.get("invariant") and not r["proved"]
        if misfit and not r["unsupported"]:
            r["unsupported"] = "the supplied invariant or internal contract does not fit the code: " + "; ".join(
                sorted({o[0] for o in r["obls"] if o[1] != "discharged"}))
            run.bounded.append(f"{name}: {r['unsupported'][:300]}; bounded contract runs only")
        undecided = [o for o in r["obls"] if o[1] == "unknown"]
        for f, c in r["functions"].items():
            run.functions.setdefault(f, []).append(name) if name not in run.functions.get(
                f, []) else None
        for a in r["assumptions"]:
            if a not in run.assumptions:
                run.assumptions.append(a)
        run.solver_s += r["solver"]
        if r["unsupported"]:
            # obligations before the construct that stopped the proof do not count
            run.stopped.append(dict(contract=name, why=r["unsupported"][:300]))
        else:
            for o in r["obls"]:
                run.obligations.append(dict(contract=name, name=o[0], status=o[1],
                                            backend="z3"))
            if undecided:
                run.bounded.append(f"{name}: {len(undecided)} obligations undecided by z3")
            if not r["obls"]:
                run.bounded.append(f"{name}: no obligations generated")
        hit = False
        for rec in r["refuted"]:
            for case in rec["cases"]:
                hit = True
                run.fail(f"{name}: {rec['obligation']}",
                         f"obligation refuted; replayed on the real code: {case['detail']}",
                         case=(case["module"], case["function"], case["blob"]),
                         readable=case["readable"], clause=case["clause"],
                         extra=dict(obligation=rec["obligation"], model=rec["model"]))
                break
            if hit:
                break
        # obligations of the specification itself ("layout: ...") are no statement about the code
        soft = [x for x in r["refuted"] if not x["obligation"].startswith("layout:")]
        if soft and not hit and not r["unsupported"]:
            run.soft.append((name, soft))


def settle(run, search=None):
    """refuted obligations for which no failing input has been found so far"""
    for name, refs in run.soft:
        if run.fails:
            break
        if search is not None:
            search(name)
    for name, refs in run.soft:
        rec = refs[0]
        run.fail(f"{name}: {rec['obligation']}",
                 f"obligation refuted by z3; no failing input found. model: {rec['model'][:600]}",
                 no_input=True, clause=rec["obligation"],
                 extra=dict(obligation=rec["obligation"], model=rec["model"],
                            all=[x["obligation"] for x in refs], note=rec.get("note", "")))
