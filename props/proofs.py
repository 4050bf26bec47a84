"""Function contracts proved by PyVC: the machinery shared by the property modules.

A property module lists PROOFS = [Proof(name, thunk, args, ...)]. thunk(engine, *args) builds
symbolic inputs, calls the real function through the engine and states the postconditions.
"""
import importlib
import pickle

from pyvc.concrete import short

TRUSTED = [
    "PyVC (/verif/pyvc): symbolic execution of the AST of the functions in /repo/src",
    "z3 5.3.2",
    "semantics of the Python builtins, struct, BytesIO, str.encode/bytes.decode as modelled in "
    "pyvc/natives.py (decode(encode(s)) == s for texts of the encoding's repertoire)",
]


class Proof:
    def __init__(self, name, thunk, args=(), contracts=True, allowed=(), case=None, limit=None,
                 setup=None, modular=False):
        self.name, self.thunk, self.args = name, thunk, args
        self.contracts = contracts  # use the contracts of the number encoding at call sites
        self.allowed = allowed  # exceptions that may leave the function
        self.case = case  # concrete subject -> (contract function, args) to replay
        self.limit = limit
        self.setup = setup
        # states a contract of an internal function, or rests on one: code that splits its work
        # otherwise does not satisfy it, which says nothing about what the code does
        self.modular = modular


def job(modname, i):
    from pyvc.contracts import run_contract
    from pyvc.prove import pack

    mod = importlib.import_module(modname)
    pf = mod.PROOFS[i]

    def thunk(e):
        if pf.setup:
            pf.setup(e)
        return pf.thunk(e, *pf.args)

    res = run_contract(pf.name, thunk, contracts=pf.contracts, allowed=pf.allowed,
                       limit=pf.limit)
    res.invariant = res.invariant or pf.modular

    def replay(d):
        if pf.case is None:
            return []
        fn, args = pf.case(d, *pf.args)
        out = []
        for x in fn(*args):
            out.append(dict(module=fn.__module__, function=fn.__name__,
                            blob=pickle.dumps(args), clause=x["clause"],
                            detail=f"{x['clause']}: {x.get('detail', '')}",
                            readable=short(args, 3000)))
        return out

    return pack(res, replay)


def prove(run, modname, seconds=200, total=420):
    """discharge the contracts of the module; call `finish` after the bounded runs"""
    from pyvc.prove import add_results, run_jobs

    mod = importlib.import_module(modname)
    jobs = [(job, (modname, i)) for i in range(len(mod.PROOFS))]
    names = [(pf.name, None) for pf in mod.PROOFS]
    res = run_jobs(jobs, seconds=seconds, total=total)
    add_results(run, res, names)
    for t in TRUSTED:
        if t not in run.trusted:
            run.trusted.append(t)


def finish(run):
    from pyvc.prove import settle

    settle(run)
    return "proof" if run.obligations else "exploration"


def show(modname, only=None):
    """development aid"""
    from pyvc.contracts import run_contract

    mod = importlib.import_module(modname)
    for pf in mod.PROOFS:
        if only and only not in pf.name:
            continue

        def thunk(e, pf=pf):
            if pf.setup:
                pf.setup(e)
            return pf.thunk(e, *pf.args)

        r = run_contract(pf.name, thunk, contracts=pf.contracts, allowed=pf.allowed,
                         limit=pf.limit)
        st = "PROVED" if r.proved else ("UNSUP " + r.unsupported if r.unsupported else "FAILED")
        print(f"{st:8} {r.name} obls={len(r.obls)} paths={r.paths} t={r.time:.2f}", flush=True)
        if not r.proved:
            for o in r.obls:
                if o[1] != "discharged":
                    print("     ", o[0], o[1], str(o[3])[:300].replace("\n", " "))


if __name__ == "__main__":
    import sys

    show("props." + sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None)
