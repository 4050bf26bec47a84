"""C07 entry contracts"""
from props.entry_runs import run_entries


def check(run):
    run_entries(run, "C07", 60, 1500)
    return "proof"
