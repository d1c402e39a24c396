#!/bin/bash
# Nothing has to be built: the checks import chainerrl from /repo's working
# tree.  Verify that the interpreter and the libraries are there.
cd "$(dirname "$0")"
PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c '
import numpy, scipy, chainer, gym, cloudpickle, chainerrl
assert chainerrl.__file__.startswith("/repo/"), chainerrl.__file__
print("setup ok", chainer.__version__, numpy.__version__)'
