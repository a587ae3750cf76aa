import sys
from engine import *
import ebay, solver
prog = Program("/repo", ebay.MODULES, ebay.FIELDS, ebay.BASES, ebay.FROZEN)
con=ebay.C[sys.argv[1]]; e=Engine(prog, ebay.C, ebay.BUILTINS)
for o in e.verify(con,(con.variants or [None])[0]):
    if sys.argv[2] in o.label:
        open('/tmp/d.smt2','w').write(solver.smt2(o)); print(o.label)
        if len(sys.argv)>3: break
