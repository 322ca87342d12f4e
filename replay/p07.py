import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import p06
TARGETS = {'Task.history': (p06.gen, p06.check('hist'))}
if __name__ == '__main__': run(TARGETS)
