"""C08: nodes of a group agree, groups and workers are disjoint."""
import dill
from hypothesis import strategies as st

from vf import qr
from vf.core import Sub, eq, require, sut

from mixtera.core.query.chunk_distributor import ChunkDistributor

RULE = ("distributors over generated query results with 1-3 data-parallel groups, 1-3 nodes and 0-3 workers, driven by 5-60 requests in a "
        "generated interleaving (skewed towards some nodes so that others lag far behind, serialized and deserialized, mixture replacements "
        "in between) and then drained in a generated order; the model is the sequential chunk stream of an identical query result; "
        "non-trivial = several groups or workers, several nodes and a node that lagged at least two chunks behind")


@st.composite
def case(draw):
    d = draw(qr.data())
    dp, nodes, workers = draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(0, 3))
    who = st.tuples(st.integers(0, dp - 1), st.integers(0, nodes - 1), st.integers(0, max(workers, 1) - 1), st.booleans())
    ops = []
    for _ in range(draw(st.integers(3, 25))):
        if draw(st.integers(0, 14)) == 7:
            ops.append(["mix", draw(qr.mixture(d["comps"], d=d, max_size=6))])
            continue
        w = list(draw(who))
        ops += [["get", *w]] * draw(st.sampled_from([1, 1, 1, 2, 4]))
    mix = draw(qr.mixture(d["comps"], d=d, max_size=5))
    mix["size"] = min(mix["size"], 4) if mix["kind"] != "static" else mix["size"]
    return {"data": d, "dp": dp, "nodes": nodes, "workers": workers, "mix": mix, "ops": ops,
            "drain": draw(st.permutations(range(dp * nodes * max(workers, 1))))}


def fingerprint(chunk):
    return (qr.chunk_samples(chunk), chunk.mixture_id, sorted((qr.content(k), i) for k, i in chunk._key_id_map.items()
                                                              if k in chunk._result_index))


def run(c):
    dp, nodes, nw = c["dp"], c["nodes"], max(c["workers"], 1)
    labels = set()
    with sut("building a distributor"):
        ref, owner = qr.new_result(c["data"], qr.build(c["mix"]), stop_on_none=False)
        q, _ = qr.new_result(c["data"], qr.build(c["mix"]))
        dist = ChunkDistributor(dp, nodes, c["workers"], q, "job")
    got = {(g, n, w): [] for g in range(dp) for n in range(nodes) for w in range(nw)}
    streams = {(g, w): [] for g in range(dp) for w in range(nw)}
    fails = 0
    lag = 0

    def request(g, n, w, deser):
        nonlocal fails, lag
        mine, stream = got[g, n, w], streams[g, w]
        known = len(mine) < len(stream)
        with sut(f"request of group {g} node {n} worker {w}"):
            try:
                chunk = dist.next_chunk_for(g, n, w, deser)
            except StopIteration:
                chunk = None
        if known:
            want = stream[len(mine)]
        else:
            # it has to be the next chunk of the sequential stream
            try:
                nxt = next(ref)
            except StopIteration:
                nxt = None
            want = None if nxt is None else fingerprint(nxt)
        if want is None:
            require(chunk is None, "a chunk was handed out after the end of the stream")
            fails += 1
            return False
        require(chunk is not None, "group %s node %s worker %s: no chunk although the stream has %s", g, n, w, want)
        if not deser:
            require(isinstance(chunk, bytes), "asked for a serialized chunk, got %s", type(chunk))
            chunk = dill.loads(chunk)
        eq(fingerprint(chunk), want, f"chunk {len(mine)} of group {g} node {n} worker {w}")
        if not known:
            stream.append(want)
            fails = 0
        mine.append(want)
        behind = max(len(got[g, m, w]) for m in range(nodes)) - min(len(got[g, m, w]) for m in range(nodes))
        lag = max(lag, behind)
        # every chunk all nodes have moved past is released
        for grp, cached in dist._chunk_cache.items():
            need = sum(max(len(got[grp, m, x]) for m in range(nodes)) - min(len(got[grp, m, x]) for m in range(nodes)) + 1 for x in range(nw))
            require(len(cached) <= need, "group %s keeps %s chunks (%s), %s can still be requested", grp, len(cached), sorted(cached), need)
        return True

    for op in c["ops"]:
        if op[0] == "mix":
            with sut("replacing the mixture"):
                ref.update_mixture(qr.build(op[1]))
                q.update_mixture(qr.build(op[1]))
            continue
        if fails < 6:
            request(*op[1:])
    # drain: everybody ends with the same stream
    ended = set()
    order = [(g, n, w) for g in range(dp) for n in range(nodes) for w in range(nw)]
    order = [order[i] for i in c["drain"]]
    rounds = 0
    while len(ended) < len(order) and rounds < len(owner) + 60:
        rounds += 1
        for t in order:
            if t not in ended:
                if len(got[t]) == len(streams[t[0], t[2]]) and fails >= 8:
                    ended.add(t)
                elif not request(*t, True):
                    ended.add(t)
    for (g, n, w), mine in got.items():
        eq(mine, streams[g, w], f"chunks of group {g} node {n} worker {w} after draining")
    all_samples = [s for stream in streams.values() for ch in stream for v in ch[0].values() for s in v]
    require(len(all_samples) == len(set(all_samples)), "a sample was handed to two workers or groups")
    if nodes > 1 and (dp > 1 or nw > 1) and lag >= 2:
        labels.add("nt")
    if any(len(s) > 2 for s in streams.values()):
        labels.add("long")
    return labels


SUBS = [Sub("distribution", case, run, quick=3000, thorough=120000, shards=8, cpu=20)]
