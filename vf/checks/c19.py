"""C19: network messages survive the wire intact."""
import asyncio
import math

import numpy as np
from hypothesis import strategies as st

from vf import vloop
from vf.core import Sub, eq, fail, require, sut
from vf.gen import ANY_TEXT, SPECIAL_TEXT

from mixtera.network import network_utils as nu

TECHNIQUE = "property-based testing of generated message sequences, fragmentations, truncations and delays (virtual clock)"
RULE = ("1-8 messages (ints of 1-8 bytes, strings, byte strings incl. empty and None, floats, pickled objects, numpy arrays; "
        "header sizes 1-8) over a byte stream cut into generated fragments, truncated at a generated byte, or delayed on a "
        "virtual clock; non-trivial = fragmented inside a message, truncated, or delayed")


class Writer:
    """The writing half of a stream."""

    def __init__(self):
        self.data = bytearray()
        self.drained = 0

    def write(self, data):
        self.data.extend(data)

    def writelines(self, ds):
        for d in ds:
            self.write(d)

    async def drain(self):
        self.drained += 1


_obj = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-2**70, 2**70), st.floats(allow_nan=False), ANY_TEXT),
    lambda c: st.one_of(st.lists(c, max_size=4), st.dictionaries(st.sampled_from("abcd"), c, max_size=3)), max_leaves=8)


@st.composite
def message(draw):
    kind = draw(st.sampled_from(["int", "int", "str", "str", "bytes", "bytes", "float", "obj", "np"]))
    if kind == "int":
        nb = draw(st.sampled_from([1, 2, 4, 8]))
        lim = 2 ** (8 * nb - 1)
        v = draw(st.one_of(st.integers(-lim, lim - 1), st.sampled_from([0, -1, 1, lim - 1, -lim])))
        return ["int", nb, v]
    hdr = draw(st.sampled_from([1, 2, 4, 8, 8]))
    if kind == "str":
        s = draw(st.one_of(ANY_TEXT, SPECIAL_TEXT))
        rep = draw(st.sampled_from([1, 1, 1, 3, 15, 40, 5000]))
        return ["str", hdr, s, rep]
    if kind == "bytes":
        b = draw(st.one_of(st.none(), st.binary(max_size=20)))
        return ["bytes", hdr, None if b is None else b.hex(), draw(st.sampled_from([1, 1, 1, 7, 50, 4000, 300000]))]
    if kind == "float":
        return ["float", repr(draw(st.floats()))]
    if kind == "obj":
        return ["obj", draw(st.sampled_from([2, 4, 8, 8])), draw(_obj)]
    if draw(st.integers(0, 4)) == 0:
        return ["np", 1, 8, None, None, None]
    dt = draw(st.sampled_from(["int64", "float64", "float32", "uint8", "bool"]))
    n = draw(st.integers(0, 6))
    return ["np", draw(st.sampled_from([1, 4])), draw(st.sampled_from([2, 4, 8])), dt,
            [draw(st.integers(0, 100)) for _ in range(n)], draw(st.sampled_from(["flat", "2d", "0d", "F", "step", "back"])),
            draw(st.sampled_from([1, 1, 1, 1, 1, 2000, 100000]))]


def value(m):
    if m[0] == "int":
        return m[2]
    if m[0] == "str":
        return m[2] * m[3]
    if m[0] == "bytes":
        return None if m[2] is None else bytes.fromhex(m[2]) * m[3]
    if m[0] == "float":
        return float(m[1])
    if m[0] == "obj":
        return m[2]
    if m[3] is None:
        return None
    a = np.array(m[4] * m[6], dtype=m[3])
    if m[5] == "0d":
        return a[0].reshape(()) if len(a) else a.reshape((0, 3))
    if m[5] == "F":
        return np.asfortranarray(a.reshape((2, -1) if len(a) % 2 == 0 else (-1, 1)) if len(a) else a)
    return {"2d": lambda: a.reshape((1, -1)), "step": lambda: a[::2], "back": lambda: a[::-1]}.get(m[5], lambda: a)()


async def write(m, w):
    v = value(m)
    if m[0] == "int":
        await nu.write_int(v, m[1], w)
    elif m[0] == "str":
        await nu.write_utf8_string(v, m[1], w)
    elif m[0] == "bytes":
        await nu.write_bytes_obj(v, m[1], w)
    elif m[0] == "float":
        await nu.write_float(v, w)
    elif m[0] == "obj":
        await nu.write_pickeled_object(v, m[1], w)
    else:
        await nu.write_numpy_array(v, m[1], m[2], w)


async def read(m, r, **kw):
    if m[0] == "int":
        return await nu.read_int(m[1], r, **kw)
    if m[0] == "str":
        return await nu.read_utf8_string(m[1], r, **kw)
    if m[0] == "bytes":
        return await nu.read_bytes_obj(m[1], r, **kw)
    if m[0] == "float":
        return await nu.read_float(r, **kw)
    if m[0] == "obj":
        return await nu.read_pickeled_object(m[1], r)
    return await nu.read_numpy_array(m[1], m[2], r, **kw)


def same(m, got):
    v = value(m)
    if m[0] == "bytes" and not v:
        return got is None or (isinstance(got, (bytes, bytearray)) and len(got) == 0)  # documented: zero length is None
    if v is None:
        return got is None
    if got is None:
        return False
    if m[0] == "float":
        return isinstance(got, float) and (got == v and math.copysign(1, got) == math.copysign(1, v)
                                           or math.isnan(v) and math.isnan(got))
    if m[0] == "np":
        return isinstance(got, np.ndarray) and got.dtype == v.dtype and got.shape == v.shape and bool((got == v).all())
    if m[0] == "bytes":
        return isinstance(got, (bytes, bytearray)) and bytes(got) == v
    return type(got) is type(v) and got == v


async def write_all(msgs):
    """(messages really written, their encodings). A message its header cannot describe may be refused."""
    out, parts = [], []
    for m in msgs:
        w = Writer()
        try:
            await write(m, w)
        except OverflowError:
            hdr = m[2] if m[0] == "np" else m[1]
            if m[0] == "int":
                raise
            require(hdr < 4, "refused to write %s", m[:2])
            continue
        out.append(m)
        parts.append(bytes(w.data))
    return out, parts


def cut(data, sizes):
    out, i, k = [], 0, 0
    while i < len(data):
        n = sizes[k % len(sizes)] if sizes else len(data)
        out.append(data[i:i + n])
        i += n
        k += 1
        if k > 400:
            out.append(data[i:])
            break
    return [x for x in out if x]


@st.composite
def wire_case(draw):
    msgs = draw(st.lists(message(), min_size=1, max_size=8))
    return {"msgs": msgs, "sizes": draw(st.lists(st.sampled_from([1, 1, 2, 3, 7, 8, 100, 10000]), max_size=6)),
            "trunc": draw(st.one_of(st.none(), st.none(), st.floats(0, 1))),
            "near": draw(st.sampled_from([0, 0, -1, 1, 3])),
            "ahead": draw(st.booleans())}


def run_wire(case):
    labels = set()

    async def go():
        msgs, parts = await write_all(case["msgs"])
        data = b"".join(parts)
        ends = [sum(map(len, parts[:i + 1])) for i in range(len(parts))]
        limit = len(data)
        if case["trunc"] is not None and data:
            limit = int(case["trunc"] * len(data))
            if case["near"]:  # just around a message boundary
                b = ends[int(case["trunc"] * (len(ends) - 1))]
                limit = min(max(b + case["near"], 0), len(data))
            labels.update(["truncated", "nt"])
        frags = cut(data[:limit], case["sizes"])
        if len(frags) > len(parts):
            labels.update(["fragmented", "nt"])
        r = asyncio.StreamReader()

        async def feed():
            for f in frags:
                r.feed_data(f)
                if not case["ahead"]:
                    await asyncio.sleep(0)
                    await asyncio.sleep(0)
            r.feed_eof()

        t = asyncio.ensure_future(feed())
        t0 = asyncio.get_event_loop().time()
        for i, m in enumerate(msgs):
            complete = ends[i] <= limit
            try:
                got = await read(m, r)
            except Exception as e:  # noqa: BLE001
                require(not complete, "reading message %s %s failed: %s: %s", i, m, type(e).__name__, e)
                labels.add("error")
                break
            if complete:
                require(same(m, got), "message %s %s was read as %r", i, m, got)
                continue
            require(got is None, "stream truncated at byte %s of %s, but message %s (%s) was read as %r", limit, len(data), i,
                    m, got)
            labels.add("missing")
            break
        else:
            if limit == len(data):
                rest = await r.read()
                eq(rest, b"", "bytes left on the wire after all messages")
        require(asyncio.get_event_loop().time() - t0 < 1, "a read waited although the stream was complete or closed")
        await t

    with sut("network primitives"):
        vloop.run(go())
    return labels


@st.composite
def delay_case(draw):
    return {"msg": draw(message()), "sizes": draw(st.lists(st.sampled_from([1, 2, 3, 7, 50]), min_size=1, max_size=4)),
            "timeout": draw(st.sampled_from([0.5, 2.0, 10.0, 30.0])),
            "gap": draw(st.sampled_from([0.0, 0.01, 0.1, 0.4, 0.9])), "first": draw(st.sampled_from([0.0, 0.3, 0.9, 1.5])),
            "stop": draw(st.one_of(st.none(), st.none(), st.floats(0, 1))), "eof": draw(st.booleans())}


def run_delay(case):
    """gap, first: in units of the timeout. stop: the stream stalls (or closes) after this share of the bytes."""
    labels = set()
    m = case["msg"]
    timeout = 10.0 if m[0] == "obj" else case["timeout"]

    async def go():
        msgs, parts = await write_all([m])
        if not msgs:
            return
        data = parts[0]
        frags = cut(data, case["sizes"])
        keep = len(frags) if case["stop"] is None else int(case["stop"] * len(frags))
        r = asyncio.StreamReader()
        loop = asyncio.get_event_loop()
        t0 = loop.time()
        arrivals = []

        async def feed():
            await asyncio.sleep(case["first"] * timeout)
            for i, f in enumerate(frags[:keep]):
                if i:
                    await asyncio.sleep(case["gap"] * timeout)
                arrivals.append(loop.time() - t0)
                r.feed_data(f)
            if case["eof"] and keep < len(frags):
                r.feed_eof()

        t = asyncio.ensure_future(feed())
        nparts = {"int": 1, "float": 1, "str": 2, "bytes": 2, "obj": 2, "np": 3}[m[0]]
        got, err = None, None
        kw = {} if m[0] == "obj" else {"timeout": timeout}
        try:
            got = await read(m, r, **kw)
        except Exception as e:  # noqa: BLE001
            err = e
        took = loop.time() - t0
        t.cancel()
        total = (case["first"] + case["gap"] * (len(frags) - 1)) * timeout
        require(took <= nparts * timeout + 0.01, "reading %s with timeout %s waited %s s", m, timeout, took)
        whole = keep == len(frags)
        if total > 0 or not whole:
            labels.add("nt")
        if whole and total < timeout * 0.999:
            require(err is None, "all data arrived after %s s (timeout %s), but reading %s failed: %r", total, timeout, m, err)
            require(same(m, got), "%s was read as %r", m, got)
            labels.add("in-time")
        elif err is None:
            if not same(m, got):
                require(got is None and case["eof"] and not whole, "%s was read as %r (stalled=%s)", m, got, not whole)
            elif value(m) is not None and m[0] != "bytes":
                require(whole, "value %r from an incomplete stream", got)
            labels.add("late-ok")
        else:
            labels.add("timeout" if isinstance(err, asyncio.TimeoutError) else "error")
            if not isinstance(err, asyncio.TimeoutError):
                require(case["eof"] and not whole, "expected a timeout, got %r", err)

    with sut("network primitives"):
        vloop.run(go())
    return labels


SUBS = [
    Sub("wire", wire_case, run_wire, quick=4000, thorough=150000, shards=5),
    Sub("delay", delay_case, run_delay, quick=2500, thorough=100000, shards=3),
]
