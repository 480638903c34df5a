#!/bin/bash
# Nothing to install: check that what the checks need is here.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
/opt/venv/bin/python -c "import numpy, scipy, h5py, PIL, numba, joblib, pywt" \
    && command -v gcc >/dev/null && echo ok
