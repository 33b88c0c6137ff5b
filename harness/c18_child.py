"""Fresh interpreter: loads saved studies, observes them, continues them, and writes what it saw."""
import contextlib
import io
import os
import pickle
import sys

import cloudpickle

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402

with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    boot.load()
    import check_c18
    with open(sys.argv[1], 'rb') as f:
        jobs = cloudpickle.load(f)
    out = [check_c18.child_job(*j) for j in jobs]
with open(sys.argv[2], 'wb') as f:
    pickle.dump(out, f)
