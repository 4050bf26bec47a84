"""C08 entry contracts"""
from props.entry_runs import run_entries


def check(run):
    run_entries(run, "C08", 600, 6000)
    return "proof"
