"""Nothing has to be built: check that the tools the checks use are there."""
import shutil, sys
for t in ('/opt/py2/bin/jython', 'z3', 'cvc5'):
    if not shutil.which(t): print('missing', t)
import z3
print('ok')
