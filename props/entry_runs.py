"""Contracts of the entry types (C06..C12): proofs and bounded contract runs."""
import pickle

from pyvc import concrete
from pyvc.concrete import short
from specs import entries

TRUSTED = [
    "PyVC (/verif/pyvc): symbolic execution of the AST of the functions in /repo/src",
    "z3 5.3.2",
    "semantics of the Python builtins, struct, BytesIO, str.encode/bytes.decode as modelled in "
    "pyvc/natives.py (decode(encode(s)) == s for texts of the encoding's repertoire)",
]


def find(pid, eid):
    for e in entries.ENTRIES:
        if e.pid == pid and eid in e.ids:
            return e


def entry_contract(pid, eid, ctx, d):
    return concrete.check_entry(find(pid, eid), eid, ctx, d)


def refuse_contract(pid, eid, ctx, d):
    return concrete.check_refuse(find(pid, eid), eid, ctx, d)


# ------------------------------------------------------------------ proofs
def proof_job(pid, idx, eid, ctx, which):
    from pyvc import contracts
    from pyvc.prove import pack

    entry = entries.ENTRIES[idx]
    f = contracts.compile_contract if which == "compile" else contracts.parse_contract

    def replay(d):
        fails = concrete.check_entry(entry, eid, ctx, d)
        out = []
        for x in fails:
            out.append(dict(module="props.entry_runs", function="entry_contract",
                            blob=pickle.dumps((pid, eid, ctx, d)), clause=x["clause"],
                            detail=f"{x['clause']}: {x.get('detail', '')}",
                            readable=short((pid, eid, ctx, d), 3000)))
        return out

    return pack(f(entry, eid, ctx), replay)


def proof_jobs(run, pid):
    jobs, names = [], []
    for idx, en in enumerate(entries.ENTRIES):
        if en.pid != pid:
            continue
        if en.concrete and not en.schema and not en.bounded:
            continue
        if en.bounded or not en.schema:
            run.bounded.append(f"{en.name}: {en.bounded or 'no symbolic domain'}")
            continue
        seen = set()
        for eid in en.ids:
            info = concrete.lookup(eid)
            if info is None or None in info[1:] or info[1:] in seen:
                continue
            seen.add(info[1:])
            for ctx in en.ctxs:
                for which in ("compile", "parse"):
                    jobs.append((proof_job, (pid, idx, eid, ctx, which)))
                    names.append((f"{en.name} ({eid}) {which} {ctx}", (idx, eid, ctx)))
    # expensive ones first
    order = sorted(range(len(jobs)), key=lambda j: -jobs[j][1][3].M)
    return [jobs[j] for j in order], [names[j] for j in order]


def prove_entries(run, pid, seconds=240, total=420):
    from pyvc.prove import add_results, run_jobs

    jobs, names = proof_jobs(run, pid)
    res = run_jobs(jobs, seconds=seconds, total=total)
    add_results(run, res, names)
    for t in TRUSTED:
        if t not in run.trusted:
            run.trusted.append(t)
    return dict(names)


def run_entries(run, pid, quick, thorough):
    where = prove_entries(run, pid)
    for e in entries.ENTRIES:
        if e.pid != pid or not (e.schema or e.concrete) or e.part:
            continue
        n = run.n(quick, thorough)
        n = max(n, 2 * len(e.ids))
        for eid, ctx, d in concrete.entry_cases(e, run.rng, n):
            run.case(entry_contract, pid, eid, ctx, d, label=f"entry {eid} {e.ids[eid]}")
        for d in e.refuse:
            for eid in e.ids:
                run.case(refuse_contract, pid, eid, e.ctxs[0], d,
                         label=f"entry {eid} {e.ids[eid]}")

    def search(name):
        """more inputs for an entry whose obligation is refuted"""
        idx, eid, ctx = where[name]
        e = entries.ENTRIES[idx]
        for j in range(run.n(4000, 40000)):
            d = (e.concrete or e.schema)(ctx).gen(run.rng, j % 7)
            if run.case(entry_contract, pid, eid, ctx, d, label=f"entry {eid} {e.ids[eid]}"):
                return True

    from pyvc.prove import settle

    settle(run, search)
