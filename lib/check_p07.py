from . import fcheck
def main(pid, tier): return fcheck.main(pid, tier, assumptions=['the problem returns finite numbers', 'budgets are non-negative'], trusted=['the specification of the task state in specs/taskspec.py'])
