"""Nothing to build: the verifier is Python run from source; this only checks that what it needs is installed."""
import shutil, sys
import z3
for t in ('clang', 'cvc5'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
print('z3', z3.get_version_string(), 'ok')
