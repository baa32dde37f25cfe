"""Builds the real native chunker from /repo's current sources (the build of the repository skips it) and loads it."""
import importlib.util
import os
import subprocess
import sys
import sysconfig
from pathlib import Path

from vf.core import HarnessError, REPO, scratch_root

HERE = Path(__file__).resolve().parent
_so = None
_mod = None


def build():
    """Compile once per run, into the scratch directory of the run."""
    global _so
    if _so is not None:
        return _so
    import pyarrow
    import pybind11

    src = Path(REPO) / "mixtera" / "core" / "query" / "chunker"
    out = scratch_root() / "cxx"
    out.mkdir(exist_ok=True)
    so = out / "chunker_extension.so"
    pa_dir = Path(pyarrow.__file__).parent
    pa_libs = sorted(pa_dir.glob("libarrow.so.*"))[:1] + sorted(pa_dir.glob("libarrow_python.so.*"))[:1]
    cmd = ["g++", "-std=c++20", "-O1", "-fPIC", "-shared", "-fvisibility=hidden", f"-I{HERE}/include", f"-I{src}/include",
           f"-I{pyarrow.get_include()}", f"-I{pybind11.get_include()}", f"-I{sysconfig.get_paths()['include']}",
           *map(str, sorted((src / "src").glob("*.cpp"))), "-o", str(so), *map(str, pa_libs), f"-Wl,-rpath,{pa_dir}",
           "-labsl_raw_hash_set", "-labsl_hashtablez_sampler", "-labsl_hash", "-labsl_city", "-labsl_low_level_hash",
           "-labsl_raw_logging_internal", "-labsl_throw_delegate", "-labsl_base", "-lspdlog", "-lfmt", "-lpthread"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise HarnessError("native chunker does not compile:\n" + r.stderr[-3000:])
    _so = so
    return so


def load():
    global _mod
    if _mod is None:
        spec = importlib.util.spec_from_file_location("chunker_extension", str(build()))
        _mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_mod)
    return _mod


def install_from(so):
    """install() of a library another process has built."""
    global _so
    _so = so
    install()


def install():
    """Make the code under test use the real native chunker instead of the stand-in."""
    m = load()
    ext = sys.modules["mixtera.core.query.chunker.chunker_extension"]
    ext.create_chunker_index_cpp = m.create_chunker_index_cpp
    ext.create_chunker_index = m.create_chunker_index_cpp
    import mixtera.core.query.chunker as chunker
    import mixtera.core.query.query_result as query_result

    chunker.create_chunker_index = m.create_chunker_index_cpp
    if hasattr(query_result, "cpp_create"):
        query_result.cpp_create = m.create_chunker_index_cpp
    return m
