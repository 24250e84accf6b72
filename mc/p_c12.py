"""C12: see mc/signals.py."""
from .signals import RULE, BOUNDS, run_job, jobs_for, finish_for   # noqa: F401

CHUNK = 2


def jobs(tier):
    return jobs_for("vol", tier)


def finish(tier, tot):
    return finish_for("vol", tot)
