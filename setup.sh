#!/bin/bash
# Nothing is installed: checks import /repo's working tree and build what they
# need in a scratch directory.  This only verifies that the tools are there.
/opt/venv/bin/python -c 'import numpy, h5py, theano' >/dev/null 2>&1 || { echo "Python environment is missing"; exit 1; }
command -v gcc >/dev/null || { echo "gcc is missing"; exit 1; }
exit 0
