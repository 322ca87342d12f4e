from . import fcheck
def main(pid, tier): return fcheck.main(pid, tier, assumptions=['initialization, iteration, callbacks and task are used through abstract contracts: any result, no change of the caller\'s variables', 'the frame condition on the algorithms is syntactic: no call of the counting methods, no store to an attribute of the task'], nquick=120)
