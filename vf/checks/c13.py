"""C13: token mode yields exact token windows."""
import types

from hypothesis import strategies as st

from vf import qr
from vf.core import Sub, eq, fail, require, scratch_root, sut

from mixtera.core.query.query_result import QueryResult
from mixtera.utils import ThreadedTokenizingIterator, TokenizingIterator

RULE = ("(iterator) 0-12 samples of 0-15 tokens, sequence length 1-20, batch size 1-13, overlap/begin/end/at-least-one flags, with and "
        "without the background thread, against a list model; (long) documents of up to 20 000 tokens and sequences of up to "
        "5 000; (failing) the source or the tokenizer fails at a generated sample; (chunk) "
        "chunks of generated query results read in token mode with a Hugging Face tokenizer; non-trivial = at least two windows, or "
        "padding, or a failure")

BOS, EOS = 1000, 1001


class FakeTokenizer:
    bos_token_id = BOS
    eos_token_id = EOS

    def __init__(self, bad=None):
        self.bad = bad

    def batch_encode_plus(self, texts, **_):
        if self.bad in texts:
            raise ValueError("stand-in for a tokenizer failure")
        return {"input_ids": [[int(t) for t in x.split(":")[1].split()] for x in texts]}

    __call__ = batch_encode_plus


def model(token_lists, seq, overlap, one, bos, eos):
    flat = []
    for t in token_lists:
        flat += ([BOS] if bos else []) + t + ([EOS] if eos else [])
    step = seq if overlap else seq + 1
    out = []
    i = 0
    while i + seq + 1 <= len(flat):
        out.append(flat[i:i + seq + 1])
        i += step
    if not out and flat and one:
        out.append((flat * (seq + 1))[:seq + 1])
    return out


@st.composite
def opts(draw):
    return {"seq": draw(st.one_of(st.integers(1, 5), st.integers(1, 20))), "bs": draw(st.integers(1, 13)),
            "overlap": draw(st.booleans()), "one": draw(st.booleans()), "bos": draw(st.booleans()), "eos": draw(st.booleans())}


@st.composite
def it_case(draw):
    ns = draw(st.lists(st.one_of(st.integers(0, 3), st.integers(0, 15)), max_size=12))
    return dict(draw(opts()), lens=ns, fail=None)


@st.composite
def long_case(draw):
    """Documents and sequences of realistic length, so that tens of thousands of tokens pass through the buffer."""
    n = draw(st.integers(1, 6))
    lens = [draw(st.sampled_from([0, 1, 17, 500, 1023, 1024, 2048, 4095, 4096, 8192, 20000])) + draw(st.integers(0, 3)) for _ in range(n)]
    lens = lens * draw(st.sampled_from([1, 1, 3, 10]))
    return dict(draw(opts()), lens=lens[:30], fail=None,
                seq=draw(st.one_of(st.sampled_from([7, 64, 127, 128, 512, 1024, 2047, 2048, 4096]), st.integers(6, 5000))))


@st.composite
def fail_case(draw):
    c = draw(it_case())
    c["lens"] = c["lens"] + [draw(st.integers(0, 5))]
    c["fail"] = [draw(st.sampled_from(["source", "tokenizer"])), draw(st.integers(0, len(c["lens"]) - 1))]
    return c


def samples(c):
    out, nxt = [], 1
    for n in c["lens"]:
        out.append(list(range(nxt, nxt + n)))
        nxt += n
    return out


def source(c, toks):
    for i, t in enumerate(toks):
        if c["fail"] == ["source", i]:
            raise OSError("stand-in for a failing source")
        yield f"{i}:" + " ".join(map(str, t))


def run_iterator(c):
    toks = samples(c)
    want = model(toks, c["seq"], c["overlap"], c["one"], c["bos"], c["eos"])
    for cls in (TokenizingIterator, ThreadedTokenizingIterator):
        bad = None
        if c["fail"] and c["fail"][0] == "tokenizer":
            i = c["fail"][1]
            bad = f"{i}:" + " ".join(map(str, toks[i]))
        got = []
        try:
            it = cls(source(c, toks), FakeTokenizer(bad), c["seq"], c["bs"], c["one"], c["overlap"], c["eos"], c["bos"])
            for w in it:
                got.append(w)
                require(len(got) <= len(want), "%s yields more windows than there are: %s", cls.__name__, got[-1])
        except (OSError, ValueError):
            require(c["fail"], "%s failed", cls.__name__)
            eq(got, want[:len(got)], f"windows of {cls.__name__} before the failure")
        else:
            if c["fail"]:
                fail("%s ended after %s windows without an error although the %s fails at sample %s", cls.__name__, len(got), *c["fail"])
            eq(got, want, f"windows of {cls.__name__}")
    if c["fail"]:
        return {"nt", "failure"}
    if len(want) >= 2:
        return {"nt", "overlap" if c["overlap"] else "disjoint"}
    return {"nt", "padded"} if want and sum(c["lens"]) < c["seq"] else set()


WORDS = [f"w{i}" for i in range(40)]


def prepare(tier):
    from tokenizers import Tokenizer, models, pre_tokenizers
    from transformers import PreTrainedTokenizerFast

    vocab = {w: i for i, w in enumerate(WORDS)}
    vocab.update({"[U]": 999, "<b>": BOS, "<e>": EOS})
    t = Tokenizer(models.WordLevel(vocab, unk_token="[U]"))
    t.pre_tokenizer = pre_tokenizers.WhitespaceSplit()
    PreTrainedTokenizerFast(tokenizer_object=t, bos_token="<b>", eos_token="<e>").save_pretrained(scratch_root() / "tok")


@st.composite
def chunk_case(draw):
    d = draw(qr.data(max_comps=3, max_len=8, max_segs=8))
    return dict(draw(opts()), data=d, mix=draw(qr.mixture(d["comps"], d=d)), words=draw(st.lists(st.integers(0, 9), min_size=1, max_size=6)),
                prefetch=draw(st.booleans()), dop=1)


def run_chunk(c):
    words = c["words"]

    def text(f, i):
        n = words[(int(f[1:]) * 7 + i) % len(words)]
        return " ".join(WORDS[(i * 3 + j) % 40] for j in range(n))

    def parse(x):
        f, i = x.split("/")
        return text(f, int(i))

    mdc = types.SimpleNamespace(_get_dataset_type_by_id=lambda d: qr.FakeDataset, _get_dataset_func_by_id=lambda d: parse,
                                _get_file_path_by_id=lambda f: f"f{f}")
    t, _ = qr.table(c["data"])
    labels = set()
    with sut("creating a chunk"):
        chunk = next(iter(QueryResult(mdc, t, qr.build(c["mix"]))), None)
    if chunk is None:
        return labels
    with sut("reading in simple mode"):
        simple = qr.read(chunk)
    per_id = {}
    for _, k, s in simple:
        per_id.setdefault(k, []).append(s)
    ids = {qr.content(k): i for k, i in chunk._key_id_map.items()}
    need = {ids[k]: len(v) for k, v in qr.chunk_samples(chunk).items()}
    wins = {k: model([[WORDS.index(w) for w in s.split()] for s in v], c["seq"], c["overlap"], c["one"], c["bos"], c["eos"])
            for k, v in per_id.items()}
    first = None
    for thread in (False, True):
        for bs in sorted({1, c["bs"]}):
            with sut(f"reading in token mode (thread {thread}, batch size {bs})"):
                rows = qr.read(chunk, chunk_reading_mixture_type="token", chunk_reading_sequence_len=c["seq"],
                               chunk_reading_tokenizer=str(scratch_root() / "tok"), chunk_reading_tokenization_bs=bs,
                               chunk_reading_token_overlapping=c["overlap"], chunk_reading_eos=c["eos"], chunk_reading_bos=c["bos"],
                               chunk_reading_token_separate_thread=thread, chunk_reading_token_at_least_one_sample=c["one"],
                               chunk_reading_prefetch_first_sample=c["prefetch"])
            if first is None:
                first = rows
            eq([list(map(str, r)) for r in rows], [list(map(str, r)) for r in first],
               f"token windows with thread={thread}, batch size {bs} against the first reading")
    eq([r[0] for r in first], list(range(len(first))), "numbers")
    for k in need:
        mine = [list(r[2]) for r in first if r[1] == k]
        eq(mine, wins[k][:len(mine)], f"token windows of key {k}")
    # the mixture holds on the level of windows, until a key runs out
    w = sum(need.values())
    full = min(len(wins[k]) // n for k, n in need.items())
    for i in range(full):
        part = [r[1] for r in first[i * w:(i + 1) * w]]
        eq({k: part.count(k) for k in need}, need, f"token windows per key in window {i} of {full}")
    tail = [r[1] for r in first[full * w:]]
    for k, n in need.items():
        eq(tail.count(k), min(n, len(wins[k]) - full * n), f"token windows of key {k} after the {full} full windows")
    if len(first) >= 2:
        labels.add("nt")
    if full and len(need) > 1:
        labels.add("mixed-windows")
    return labels


SUBS = [
    Sub("iterator", it_case, run_iterator, quick=6000, thorough=300000, shards=8, cpu=20, wall=60),
    Sub("long", long_case, run_iterator, quick=160, thorough=6000, shards=8, cpu=40, wall=90),
    Sub("failing", fail_case, run_iterator, quick=2000, thorough=100000, shards=4, cpu=20, wall=60),
    Sub("chunk", chunk_case, run_chunk, quick=400, thorough=15000, shards=8, cpu=40, wall=90),
]
