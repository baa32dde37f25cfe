"""C02: the native chunker index is an exact partition of the query result."""
import pyarrow as pa
from hypothesis import strategies as st

from vf import boot, cxx
from vf.core import Sub, eq, fail, require, sut
from vf.gen import ANY_TEXT, SPECIAL_TEXT

RULE = ("an interval table as the query produces it (integer ids of any width, string / large string / dictionary / list "
        "property columns with nulls, values with any characters), sorted like a query result, split into any record "
        "batches and indexed with 1-7 threads; non-trivial = at least 2 keys, one of them spread over several batches")
ASSUMPTIONS = ["the table is sorted like the query's result (dataset, file, properties, interval start) and list values "
               "are in the canonical order the query gives them",
               "compiled with system absl/fmt/spdlog and a no-op stand-in for the progress bars"]

INT_TYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
COL_TYPES = ["string", "large_string", "dict", "dict_large", "list", "large_list", "list_dict", "large_list_large",
             "list_dict_large"]
VALUE = st.one_of(st.sampled_from(["a", "b", "ab", "", "1", "a,b", "a;b", "x:y", "p:q;r"]), SPECIAL_TEXT, ANY_TEXT)


def prepare(tier):
    cxx.build()


@st.composite
def _case(draw):
    ncols = draw(st.integers(0, 3))
    names = draw(st.lists(st.sampled_from(["lang", "topic", "src", "Az", "z_9", "grade"]), min_size=ncols,
                          max_size=ncols, unique=True))
    cols = [[n, draw(st.sampled_from(COL_TYPES))] for n in names]
    ncombos = draw(st.integers(1, 5))
    combos = []
    for _ in range(ncombos):
        combo = []
        for _, t in cols:
            if draw(st.integers(0, 3)) == 0:
                combo.append(None)
            elif "list" in t:
                vals = draw(st.lists(VALUE, max_size=3))
                combo.append(sorted(vals))
            else:
                combo.append(draw(VALUE))
        combos.append(combo)
    nfiles = draw(st.integers(1, 4))
    files = []
    seen = set()
    for _ in range(nfiles):
        did, fid = draw(st.integers(0, 2)), draw(st.integers(0, 5))
        if (did, fid) in seen:
            continue
        seen.add((did, fid))
        # Runs: (combo, gap before, length); adjacent intervals of one combo are legal input, too.
        runs = draw(st.lists(st.tuples(st.integers(0, ncombos - 1), st.integers(0, 3), st.integers(1, 4)), max_size=14))
        files.append([did, fid, [list(r) for r in runs]])
    big = draw(st.sampled_from([0, 0, 0, 1, 2]))
    splits = draw(st.lists(st.integers(1, 9), max_size=8))
    return {"cols": cols, "combos": combos, "files": files, "base": [0, 100, 2**40][big],
            "types": draw(st.lists(st.sampled_from(INT_TYPES), min_size=4, max_size=4)), "splits": splits,
            "colsplits": draw(st.lists(st.integers(1, 9), max_size=5)),
            "threads": draw(st.lists(st.integers(0, 7), min_size=1, max_size=3, unique=True)),
            "idx": draw(st.sampled_from(["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"])),
            "order": draw(st.integers(0, 5)), "slice": draw(st.booleans())}


def _ident(props):
    return tuple(sorted((k, tuple(sorted(v))) for k, v in props.items()))


def rows_of(case):
    rows = []
    for did, fid, runs in case["files"]:
        pos = case["base"]
        for combo, gap, length in runs:
            pos += gap
            rows.append((did, fid, combo, pos, pos + length))
            pos += length

    def sort_key(r):
        vals = case["combos"][r[2]]
        return (r[0], r[1], [(v is None, "" if v is None else v if isinstance(v, str) else "", v if isinstance(v, list)
                              else []) for v in vals], r[3])

    rows.sort(key=sort_key)
    return rows


def _column(t, values, idx):
    if t == "string":
        return pa.array(values, pa.string())
    if t == "large_string":
        return pa.array(values, pa.large_string())
    if t in ("dict", "dict_large"):
        arr = pa.array(values, pa.large_string() if t == "dict_large" else pa.string()).dictionary_encode()
        return arr.cast(pa.dictionary(getattr(pa, idx)(), arr.type.value_type))
    if t == "list":
        return pa.array(values, pa.list_(pa.string()))
    if t == "large_list":
        return pa.array(values, pa.large_list(pa.string()))
    if t == "large_list_large":
        return pa.array(values, pa.large_list(pa.large_string()))
    flat, offsets, mask = [], [0], []
    for v in values:
        mask.append(v is None)
        flat.extend(v or [])
        offsets.append(len(flat))
    inner = pa.array(flat, pa.large_string() if t == "list_dict_large" else pa.string()).dictionary_encode()
    inner = inner.cast(pa.dictionary(getattr(pa, idx)(), inner.type.value_type))
    return pa.ListArray.from_arrays(pa.array(offsets, pa.int32()), inner, mask=pa.array(mask, pa.bool_()))


def _int_type(name, values, lo_bits):
    """The requested width, or int64 if the values do not fit."""
    t = getattr(pa, name)()
    try:
        pa.array(values, t)
        return t
    except (pa.ArrowInvalid, OverflowError):
        return pa.int64()


def _chunked(arr, sizes, sliced):
    out, i = [], 0
    for s in sizes:
        if i >= len(arr):
            break
        part = arr[i:i + s]
        if not sliced:
            part = pa.concat_arrays([part])
            if pa.types.is_dictionary(part.type):  # every batch with a dictionary of its own
                part = part.dictionary_decode().dictionary_encode().cast(part.type)
        out.append(part)
        i += s
    if i < len(arr) or not out:
        out.append(arr[i:])
    return pa.chunked_array(out, type=arr.type)


def table_of(case, rows):
    ty = case["types"]
    ints = {"dataset_id": ([r[0] for r in rows], ty[0]), "file_id": ([r[1] for r in rows], ty[1]),
            "group_id": ([1 for _ in rows], "int64"), "interval_start": ([r[3] for r in rows], ty[2]),
            "interval_end": ([r[4] for r in rows], ty[3])}
    names, arrays = [], []
    for n, (vals, t) in ints.items():
        names.append(n)
        arrays.append(_chunked(pa.array(vals, _int_type(t, vals, 0)), case["splits"], case["slice"]))
    for j, (n, t) in enumerate(case["cols"]):
        vals = [case["combos"][r[2]][j] for r in rows]
        # Columns may be divided differently from each other.
        names.append(n)
        arrays.append(_chunked(_column(t, vals, case["idx"]), case["colsplits"] if j == 0 and case["colsplits"] else case["splits"],
                               case["slice"]))
    perm = list(range(len(names)))
    k = case["order"] % len(names)
    perm = perm[k:] + perm[:k]
    return pa.table([arrays[i] for i in perm], names=[names[i] for i in perm])


def _run(case):
    mod = cxx.load()
    rows = rows_of(case)
    table = table_of(case, rows)
    want = {}
    for did, fid, combo, s, e in rows:
        props = {n: (v if isinstance(v, list) else [v])
                 for (n, _), v in zip(case["cols"], case["combos"][combo]) if v is not None}
        want.setdefault(_ident(props), {}).setdefault(did, {}).setdefault(fid, []).append((s, e))
    for threads in case["threads"]:
        with sut(f"create_chunker_index({threads} threads)"):
            got_raw = mod.create_chunker_index_cpp(table, threads)
        got = {}
        for key, ds in got_raw.items():
            ident = _ident({k: [str(x) for x in v] for k, v in key.properties.items()})
            require(ident not in got, "two entries for the key %s", ident)
            got[ident] = {d: {f: [tuple(iv) for iv in ivs] for f, ivs in fs.items()} for d, fs in ds.items()}
        for ident in want:
            require(ident in got, "with %d threads the key %r is missing; got %r", threads, ident, sorted(got))
        for ident in got:
            require(ident in want, "with %d threads unexpected key %r, expected %r", threads, ident, sorted(want))
        for ident, ds in want.items():
            eq(got[ident], ds, f"intervals of {ident} with {threads} threads")
    labels = {f"t_{t}" for _, t in case["cols"]}
    nb = len(table.to_batches())
    if nb > 1:
        labels.add("batches")
    if len(want) >= 2 and nb > 1 and any(sum(len(i) for fs in d.values() for i in fs.values()) > 1
                                         for d in want.values()):
        labels.add("nt")
    return labels


def _bad_case():
    return st.fixed_dictionaries({"kind": st.sampled_from(["missing", "type", "listtype", "reversed", "negthreads"]),
                                  "which": st.integers(0, 3), "n": st.integers(1, 12), "threads": st.integers(1, 5)})


def _run_bad(case):
    """Input that is not an interval table is refused, it does not yield an index that leaves things out."""
    mod = cxx.load()
    n = case["n"]
    cols = {"dataset_id": pa.array([1] * n), "file_id": pa.array([1] * n),
            "interval_start": pa.array([2 * i for i in range(n)]), "interval_end": pa.array([2 * i + 1 for i in range(n)]),
            "lang": pa.array(["a"] * n)}
    threads = case["threads"]
    if case["kind"] == "missing":
        del cols[list(cols)[case["which"]]]
    elif case["kind"] == "type":
        cols[list(cols)[case["which"]]] = pa.array([0.5] * n)
    elif case["kind"] == "listtype":
        cols["lang"] = pa.array([[1, 2]] * n)
    elif case["kind"] == "negthreads":
        threads = -1
    else:
        k = case["which"] % n
        vals = [2 * i + 1 for i in range(n)]
        vals[k] = 2 * k - 1
        cols["interval_end"] = pa.array(vals)
    table = pa.concat_tables([pa.table(cols)[i:i + 2] for i in range(0, n, 2)])
    try:
        got = mod.create_chunker_index_cpp(table, threads)
    except Exception:
        return {"nt", case["kind"]}
    fail("%s: accepted, giving %r", case["kind"], {str(k): v for k, v in got.items()})


SUBS = [Sub("partition", _case, _run, quick=12000, thorough=120000, shards=6, crashy=True),
        Sub("refuse", _bad_case, _run_bad, quick=300, thorough=2000, shards=2, crashy=True)]
