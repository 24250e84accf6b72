from .values import RULE, BOUNDS, run_job, jobs_for   # noqa: F401

CHUNK = 2


def jobs(tier):
    return jobs_for("osc", tier)


def finish(tier, tot):
    return [] if tot.nontrivial > 100000 else ["only %d defined cells compared" % tot.nontrivial]
