"""Process set-up shared by every check: import paths, quiet logging, and the stand-in for the native
chunker extension (which is not built in this environment; C02 builds and checks the real one)."""

import os
import sys
import types

os.environ.setdefault("TQDM_DISABLE", "1")
# Makes the code use its in-process pool instead of a multiprocessing pool (its own switch for tests).
os.environ.setdefault("PYTEST_CURRENT_TEST", "vf")

REPO = os.environ.get("VF_REPO", "/repo")
if sys.path[0:1] != [REPO] and REPO not in sys.path:
    sys.path.insert(0, REPO)
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import hypothesis  # noqa: F401
except ImportError:
    # Hypothesis lives in the tool venv; append last so that nothing of /opt/venv is shadowed.
    sys.path.append(_VT)
    import hypothesis  # noqa: F401

from loguru import logger  # noqa: E402

logger.remove()


def _rows(table):
    cols = {name: table.column(name).to_pylist() for name in table.column_names}
    n = table.num_rows
    for i in range(n):
        yield {name: vals[i] for name, vals in cols.items()}


NON_PROPERTY = ("dataset_id", "file_id", "group_id", "interval_start", "interval_end")


def reference_chunker_index(table, num_threads=1):
    """What the native extension computes: {key: {dataset: {file: [(start, end), ...]}}}."""
    from mixtera.core.query.mixture.mixture_key import MixtureKey

    props = [c for c in table.column_names if c not in NON_PROPERTY]
    out = {}
    index = {}
    for row in _rows(table):
        p = {}
        for name in props:
            v = row[name]
            if v is None:
                continue
            p[name] = [str(x) for x in v if x is not None] if isinstance(v, list) else [str(v)]
        ident = tuple(sorted((k, tuple(sorted(v))) for k, v in p.items()))
        key = index.get(ident)
        if key is None:
            key = index[ident] = MixtureKey(p)
            out[key] = {}
        out[key].setdefault(row["dataset_id"], {}).setdefault(row["file_id"], []).append(
            (row["interval_start"], row["interval_end"])
        )
    return out


def install_standin():
    name = "mixtera.core.query.chunker.chunker_extension"
    if name in sys.modules:
        return
    mod = types.ModuleType(name)
    mod.create_chunker_index_cpp = reference_chunker_index
    mod.create_chunker_index = reference_chunker_index
    sys.modules[name] = mod


install_standin()
# This package has to be imported first (circular imports in the package under test).
import mixtera.core.datacollection  # noqa: E402,F401
