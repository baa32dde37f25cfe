"""Stand-in for the native chunker extension, which the build here leaves out. Import before mixtera."""
import os
import sys
import types

os.environ.setdefault("PYTEST_CURRENT_TEST", "demo")  # in-process pool, one chunker thread
os.environ.setdefault("TQDM_DISABLE", "1")


def _index(table, num_threads=1):
    from mixtera.core.query.mixture.mixture_key import MixtureKey

    fixed = ("dataset_id", "file_id", "group_id", "interval_start", "interval_end")
    out, keys = {}, {}
    for row in table.to_pylist():
        p = {k: [str(x) for x in (v if isinstance(v, list) else [v]) if x is not None]
             for k, v in row.items() if k not in fixed and v is not None}
        ident = tuple(sorted((k, tuple(sorted(v))) for k, v in p.items()))
        if ident not in keys:
            keys[ident] = MixtureKey(p)
            out[keys[ident]] = {}
        out[keys[ident]].setdefault(row["dataset_id"], {}).setdefault(row["file_id"], []).append(
            (row["interval_start"], row["interval_end"]))
    return out


if os.environ.get("NO_STANDIN") is None:
    _m = types.ModuleType("mixtera.core.query.chunker.chunker_extension")
    _m.create_chunker_index_cpp = _m.create_chunker_index = _index
    sys.modules[_m.__name__] = _m

from loguru import logger  # noqa: E402

logger.remove()
import mixtera.core.datacollection  # noqa: E402,F401


def registry(root, files, parser="RED_PAJAMA"):
    """A LocalStub over JSONL files {name: [(language, publication_date, text), ...]}, one dataset per file."""
    import json
    from pathlib import Path

    from mixtera.core.client import MixteraClient
    from mixtera.core.datacollection.datasets import JSONLDataset

    root = Path(root)
    (root / "data").mkdir(parents=True, exist_ok=True)
    client = MixteraClient.from_directory(root / "mix") if _mk(root / "mix") else None
    for name, rows in files.items():
        path = root / "data" / f"{name}.jsonl"
        path.write_text("".join(
            json.dumps({"text": t, "meta": {"language": [{"name": lang, "score": 1.0}], "publication_date": d}}) + "\n"
            for lang, d, t in rows))
        client.register_dataset(name, path, JSONLDataset, lambda s: __import__("json").loads(s)["text"], parser)
    return client


def _mk(p):
    p.mkdir(parents=True, exist_ok=True)
    return True
