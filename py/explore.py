"""C34: the Python interface gives what the same operation gives on the pyarrow values.

Every case of the families below is enumerated; the interface built from /repo runs it, plain Python lists are the
oracle. A shard takes every N-th case. Usage: explore.py TIER SHARD NSHARDS OUT.json SCRATCH [ONLY]
"""
import collections
import datetime as dt
import faulthandler
import itertools
import json
import math
import operator
import os
import struct
import sys

import numpy as np
import pyarrow as pa
import pyarrow.compute as pc

TIER, SHARD, NSHARDS, OUT, SCRATCH = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
ONLY = sys.argv[6] if len(sys.argv) > 6 else None
DEEP = TIER == "thorough"

import vortex  # noqa: E402
import vortex.dataset  # noqa: E402

sys.stdout.flush()
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)  # the library prints the substrait expressions it converts
if not os.environ.get("SHOW_PANICS"):
    os.dup2(devnull, 2)

UTC = dt.timezone.utc
count = collections.Counter()
states = collections.Counter()
rejected = collections.Counter()
violations = []
samples = []
case_no = 0
LIMIT = int(os.environ.get("CASE_LIMIT", "300"))
progress = os.open(OUT + ".case", os.O_RDWR | os.O_CREAT)


def norm(x):
    """A Python value with NaN and -0.0 distinguishable by ==."""
    if isinstance(x, (float, np.float16)):
        x = float(x)
        return ("f", struct.pack("<d", math.nan if x != x else x))
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


class Bad(Exception):
    pass


def want(what, got, expected):
    states["observations"] += 1
    if norm(got) != norm(expected):
        raise Bad(f"{what}: got {got!r} instead of {expected!r}")


def view(t):
    """The Arrow type that Vortex's canonical form of t has."""
    if t in (pa.string(), pa.large_string()):
        return pa.string_view()
    if t in (pa.binary(), pa.large_binary()):
        return pa.binary_view()
    if pa.types.is_struct(t):
        return pa.struct([(f.name, view(f.type)) for f in t])
    return t


def same_type(a, b):
    if pa.types.is_struct(a) and pa.types.is_struct(b):
        return [f.name for f in a] == [f.name for f in b] and all(same_type(x.type, y.type) for x, y in zip(a, b))
    return a == b


def case(family, key, fn):
    """Runs one case if it belongs to this shard."""
    global case_no
    case_no += 1
    name = f"{family}|{key}"
    if ONLY is not None:
        if name != ONLY:
            return
    elif case_no % NSHARDS != SHARD:
        return
    count[family] += 1
    if count[family] & (count[family] - 1) == 0 and len(samples) < 60:
        samples.append(name[:200])
    os.ftruncate(progress, 0)
    os.pwrite(progress, name.encode(), 0)
    faulthandler.dump_traceback_later(LIMIT, exit=True)  # an operation that does not come back
    try:
        fn()
    except Bad as e:
        violations.append((name, str(e)))
    except NotImplementedError:
        rejected[family] += 1
    except BaseException as e:  # noqa: BLE001 - a panic is a BaseException
        violations.append((name, f"{type(e).__module__}.{type(e).__name__}: {str(e)[:300]}"))


def must_raise(what, fn):
    """An operation that has no meaning is refused with an exception that is not a panic."""
    states["observations"] += 1
    try:
        r = fn()
    except Exception:  # noqa: BLE001 - PanicException is a BaseException
        return
    except BaseException as e:  # noqa: BLE001
        raise Bad(f"{what}: panics with {type(e).__name__}: {str(e)[:200]}") from None
    raise Bad(f"{what}: gives {r!r} instead of an exception")


# ----------------------------------------------------------------------------------------------------------------
LONG = "a string longer than a view can inline"
TYPES = [
    ("bool", pa.bool_(), [False, True]),
    ("i8", pa.int8(), [-128, 127]),
    ("i16", pa.int16(), [-(2**15), 2**15 - 1]),
    ("i32", pa.int32(), [-(2**31), 2**31 - 1]),
    ("i64", pa.int64(), [-(2**63), 2**63 - 1]),
    ("u8", pa.uint8(), [0, 255]),
    ("u16", pa.uint16(), [0, 2**16 - 1]),
    ("u32", pa.uint32(), [1, 2**32 - 1]),
    ("u64", pa.uint64(), [0, 2**64 - 1]),
    ("f16", pa.float16(), [np.float16(-2.5), np.float16(1.5)]),
    ("f32", pa.float32(), [-0.0, 1.5]),
    ("f64", pa.float64(), [0.1, math.inf]),
    ("utf8", pa.string(), ["", LONG]),
    ("large_utf8", pa.large_string(), ["é", LONG]),
    ("utf8_view", pa.string_view(), ["twelve bytes", "thirteen byte"]),
    ("binary", pa.binary(), [b"", b"\xff\x00" * 9]),
    ("large_binary", pa.large_binary(), [b"\x00", b"\xff\x00" * 9]),
    ("binary_view", pa.binary_view(), [b"\x80", b"\xff\x00" * 9]),
    ("date32", pa.date32(), [dt.date(1969, 12, 31), dt.date(2024, 2, 29)]),
    ("date64", pa.date64(), [dt.date(1969, 12, 31), dt.date(2024, 2, 29)]),
    ("time32s", pa.time32("s"), [dt.time(0, 0, 1), dt.time(23, 59, 59)]),
    ("time32ms", pa.time32("ms"), [dt.time(0, 0, 1), dt.time(23, 59, 59, 999000)]),
    ("time64us", pa.time64("us"), [dt.time(0, 0, 1), dt.time(23, 59, 59, 999999)]),
    ("ts_s", pa.timestamp("s"), [dt.datetime(1969, 12, 31, 23, 59, 59), dt.datetime(2024, 2, 29)]),
    ("ts_ms_utc", pa.timestamp("ms", "UTC"), [dt.datetime(1969, 12, 31, 23, 59, 59, 999000, UTC), dt.datetime(2024, 2, 29, tzinfo=UTC)]),
    ("ts_us", pa.timestamp("us"), [dt.datetime(1969, 12, 31, 23, 59, 59, 999999), dt.datetime(2024, 2, 29, 1, 2, 3)]),
    ("ts_ns_utc", pa.timestamp("ns", "UTC"), [0, 1_700_000_000_123_456_789]),
    ("null", pa.null(), []),
    ("struct", pa.struct([("x", pa.int64()), ("y", pa.string())]), [{"x": 1, "y": LONG}, {"x": -2, "y": ""}]),
    ("struct2", pa.struct([("s", pa.struct([("b", pa.bool_())])), ("", pa.uint8())]), [{"s": {"b": True}, "": 7}, {"s": {"b": False}, "": 0}]),
]
# what a struct of nulls cannot say in every place is left to the Rust-level properties
NO_NULL = {"struct", "struct2"}
SMALL = ["bool", "i64", "u8", "f64", "utf8", "binary", "ts_us", "struct"]


def values_of(name, vals):
    return list(vals) + ([] if name in NO_NULL else [None])


def tuples(name, vals, upto):
    for n in range(upto + 1):
        yield from itertools.product(values_of(name, vals), repeat=n)


def pylist(arrow):
    """to_pylist that keeps nanoseconds."""
    t = arrow.type
    if pa.types.is_timestamp(t) and t.unit == "ns":
        return arrow.cast(pa.int64()).to_pylist()
    return arrow.to_pylist()


def splits(n):
    """Every composition of n into consecutive non-empty parts, and those with one empty part added."""
    for bits in itertools.product([0, 1], repeat=max(n - 1, 0)):
        parts, last = [], 0
        for i, b in enumerate(bits):
            if b:
                parts.append((last, i + 1))
                last = i + 1
        if n:
            parts.append((last, n))
        yield parts
        for at in range(len(parts) + 1):
            p = parts[at][0] if at < len(parts) else n
            yield parts[:at] + [(p, p)] + parts[at:]


def build(kind, t, vals, parts=None):
    if kind == "array":
        return pa.array(vals, type=t)
    if kind == "sliced":
        pad = [vals[-1] if vals else None] if not pa.types.is_struct(t) else [vals[-1]] if vals else []
        a = pa.array(pad + list(vals) + pad, type=t)
        return a.slice(len(pad), len(vals))
    return pa.chunked_array([pa.array(vals[a:b], type=t) for a, b in parts], type=t)


DTYPES = {
    "bool": "bool", "i8": "i8", "i16": "i16", "i32": "i32", "i64": "i64", "u8": "u8", "u16": "u16", "u32": "u32",
    "u64": "u64", "f32": "f32", "f64": "f64", "f16": "f16", "utf8": "utf8", "large_utf8": "utf8", "utf8_view": "utf8",
    "binary": "binary", "large_binary": "binary", "binary_view": "binary", "null": "null",
}


def observe(what, v, t, vals):
    """Everything that can be asked of a Vortex array, against the values it should have."""
    want(f"{what} len", len(v), len(vals))
    a = v.to_arrow_array()
    want(f"{what} values", pylist(a), list(vals))
    if not same_type(a.type, view(t)):
        raise Bad(f"{what}: arrow type {a.type} instead of {view(t)}")
    (a.validate(full=True) if isinstance(a, (pa.Array, pa.ChunkedArray)) else None)
    for i in range(len(vals)):
        want(f"{what}[{i}]", scalar(v, i, t), vals[i])


def scalar(v, i, t):
    s = v.scalar_at(i)
    return as_python(s, t)


def as_python(s, t):
    if isinstance(s, (vortex.scalar.VortexStruct, vortex.scalar.VortexList)):
        deep = s.into_python(recursive=True)
        shallow = s.into_python()
        if isinstance(deep, dict):
            types = {f.name: f.type for f in t}
            want("shallow struct", {k: as_python(x, types[k]) for k, x in shallow.items()}, deep)
        s = deep
    elif isinstance(s, (vortex.scalar.Buffer, vortex.scalar.BufferString)):
        s = s.into_python()
    if s is None:
        return None
    # temporal scalars come as their storage
    if pa.types.is_temporal(t):
        if pa.types.is_timestamp(t) and t.unit == "ns":
            return s
        width = pa.int32() if t.bit_width == 32 else pa.int64()
        return pa.array([s], type=width).cast(t).to_pylist()[0]
    return s


def sources(name, t, vals):
    """The same values as Vortex arrays of several origins."""
    yield "plain", lambda: vortex.array(pa.array(vals, type=t))
    if len(vals) > 1:
        yield "sliced", lambda: vortex.array(build("sliced", t, vals))
        yield "chunked", lambda: vortex.array(build("chunked", t, vals, [(0, 1), (1, 1), (1, len(vals))]))
    yield "compressed", lambda: vortex.encoding.compress(vortex.array(pa.array(vals, type=t)))


def family_convert():
    for name, t, vs in TYPES:
        for vals in tuples(name, vs, 3 if name in SMALL or DEEP else 2):
            key = f"{name}|{vals!r}"

            def arrays(vals=vals, t=t, name=name):
                for kind in ("array", "sliced"):
                    v = vortex.array(build(kind, t, vals))
                    observe(kind, v, t, vals)
                    if name in DTYPES:
                        d = str(v.dtype)
                        want(f"{kind} dtype", d.rstrip("?"), DTYPES[name])
                        if None in vals and name != "null":
                            want(f"{kind} nullable", d[-1:], "?")

            case("convert", f"{key}|array", arrays)

            def listed(vals=vals, t=t):
                v = vortex.array(list(vals))
                want("list", pylist(v.to_arrow_array()), list(vals))

            if name in ("i64", "f64", "bool", "utf8", "binary", "struct") and any(x is not None for x in vals):
                case("convert", f"{key}|list", listed)

            for parts in splits(len(vals)):

                def chunked(vals=vals, t=t, parts=parts):
                    if parts:
                        v = vortex.array(build("chunked", t, vals, parts))
                        observe("chunked", v, t, vals)
                    else:
                        v = vortex.array(build("chunked", t, vals, parts))
                        want("no chunks", len(v), 0)
                        want("no chunks", pylist(v.to_arrow_array()), [])

                def table(vals=vals, t=t, parts=parts):
                    col = build("chunked", t, vals, parts)
                    tab = pa.table({"x": col, "n": pa.array(range(len(vals)), type=pa.uint16())})
                    v = vortex.array(tab)
                    want("table len", len(v), len(vals))
                    back = v.to_arrow_table()
                    want("table columns", back.column_names, ["x", "n"])
                    want("table x", pylist(back.column(0).combine_chunks()), list(vals))
                    want("table n", back.column(1).to_pylist(), list(range(len(vals))))
                    if not same_type(back.schema.field(0).type, view(t)):
                        raise Bad(f"table: arrow type {back.schema.field(0).type} instead of {view(t)}")

                def sliced_table(vals=vals, t=t, parts=parts):
                    col = build("chunked", t, vals, parts)
                    whole = pa.table({"x": col, "s": pa.array([{"k": i} for i in range(len(vals))], pa.struct([("k", pa.int8())]))})
                    for s in range(len(vals) + 1):
                        for e in range(s, len(vals) + 1):
                            v = vortex.array(whole.slice(s, e - s))
                            want("sliced table len", len(v), e - s)
                            back = v.to_arrow_table()
                            want("sliced table x", pylist(back.column(0).combine_chunks()), list(vals[s:e]))
                            want("sliced table s", back.column(1).to_pylist(), [{"k": i} for i in range(s, e)])

                case("convert", f"{key}|sliced table{parts}", sliced_table)
                case("convert", f"{key}|chunked{parts}", chunked)
                case("convert", f"{key}|table{parts}", table)


INDEX = [pa.uint8(), pa.int64(), pa.uint64(), pa.int32()]


def fill(vals, zero):
    out, last = [], zero
    for v in vals:
        last = v if v is not None else last
        out.append(last)
    return out


def operations(n):
    for s in range(n + 1):
        for e in range(s, n + 1):
            yield f"slice({s},{e})", (lambda v, s=s, e=e: v.slice(s, e)), (lambda l, s=s, e=e: l[s:e])
    for k in range(3):
        for idx in itertools.product(range(n), repeat=k):
            ty = INDEX[sum(idx) % len(INDEX)]
            yield (
                f"take{idx}",
                lambda v, idx=idx, ty=ty: v.take(vortex.array(pa.array(idx, type=ty))),
                lambda l, idx=idx: [l[i] for i in idx],
            )
    for mask in itertools.product([False, True], repeat=n):
        yield (
            f"filter{mask}",
            lambda v, mask=mask: v.filter(vortex.array(pa.array(mask, type=pa.bool_()))),
            lambda l, mask=mask: [x for x, m in zip(l, mask) if m],
        )
    yield "compress", lambda v: vortex.encoding.compress(v), lambda l: list(l)


def family_operate():
    for name, t, vs in TYPES:
        if name == "null" or (name not in SMALL and not DEEP and name not in ("i8", "u64", "f32", "date32", "utf8_view")):
            continue
        full = 3
        for vals in itertools.product(values_of(name, vs), repeat=full):
            for src, make in sources(name, t, vals):
                for op, f, g in operations(full):

                    def one(f=f, g=g, vals=vals, t=t, make=make):
                        first = f(make())
                        l1 = g(list(vals))
                        observe("after", first, t, l1)
                        if src == "plain" or DEEP:
                            for op2, f2, g2 in operations(len(l1)):
                                observe(f"then {op2}", f2(first), t, g2(l1))

                    case("operate", f"{name}|{vals!r}|{src}|{op}", one)

                def refused(make=make, full=full):
                    for s, e in ((0, full + 1), (full + 1, full + 1), (2, 1)):
                        must_raise(f"slice({s},{e})", lambda s=s, e=e: make().slice(s, e))
                    for i in (full, full + 7, -1, 2**64 - 1, 2**64):
                        must_raise(f"scalar_at({i})", lambda i=i: make().scalar_at(i))
                    for n in (full - 1, full + 1):
                        must_raise(f"filter of {n}", lambda n=n: make().filter(vortex.array(pa.array([True] * n))))
                    must_raise("take by float", lambda: make().take(vortex.array(pa.array([0.0]))))
                    must_raise("take past the end", lambda: make().take(vortex.array(pa.array([full]))))
                    must_raise("take before the start", lambda: make().take(vortex.array(pa.array([-1]))))

                case("operate", f"{name}|{vals!r}|{src}|refused", refused)

                zero = {"i64": 0, "i8": 0, "u8": 0, "u64": 0, "f64": 0.0, "f32": 0.0, "bool": False}.get(name)
                if zero is not None:

                    def forward(vals=vals, t=t, make=make, zero=zero):
                        try:
                            filled = make().fill_forward()
                        except ValueError as e:
                            if "not implemented" in str(e):
                                raise NotImplementedError from None
                            raise
                        observe("fill_forward", filled, t, fill(vals, zero))

                    case("operate", f"{name}|{vals!r}|{src}|fill_forward", forward)


COMPARE = [("<", operator.lt), ("<=", operator.le), ("==", operator.eq), ("!=", operator.ne), (">=", operator.ge), (">", operator.gt)]


def family_compare():
    for name, t, vs in TYPES:
        if name in ("null", "struct", "struct2"):
            continue
        order = lambda x: x  # noqa: E731
        for n in (1, 2):
            for l in itertools.product(values_of(name, vs), repeat=n):
                for r in itertools.product(values_of(name, vs), repeat=n):
                    for (ls, lmake), (rs, rmake) in itertools.product(sources(name, t, l), sources(name, t, r)):
                        if not DEEP and n == 2 and (ls, rs) not in (("plain", "plain"), ("compressed", "chunked"), ("chunked", "plain")):
                            continue

                        def one(l=l, r=r, lmake=lmake, rmake=rmake):
                            for sym, f in COMPARE:
                                expect = [None if a is None or b is None else f(order(a), order(b)) for a, b in zip(l, r)]
                                got = f(lmake(), rmake())
                                want(sym, got.to_arrow_array().to_pylist(), expect)

                        case("compare", f"{name}|{l!r}|{r!r}|{ls}|{rs}", one)


def family_dtype():
    d = vortex.dtype
    space = {"null": d.null, "bool": d.bool, "int": d.int, "uint": d.uint, "float": d.float, "utf8": d.utf8, "binary": d.binary}
    arrow = {
        "bool": pa.bool_(), "i8": pa.int8(), "i16": pa.int16(), "i32": pa.int32(), "i64": pa.int64(), "u8": pa.uint8(),
        "u16": pa.uint16(), "u32": pa.uint32(), "u64": pa.uint64(), "f16": pa.float16(), "f32": pa.float32(),
        "f64": pa.float64(), "utf8": pa.string(), "binary": pa.binary(),
    }
    makers = [("bool", lambda n: d.bool(nullable=n)), ("utf8", lambda n: d.utf8(nullable=n)), ("binary", lambda n: d.binary(nullable=n))]
    for w in (8, 16, 32, 64):
        makers.append((f"i{w}", lambda n, w=w: d.int(w, nullable=n)))
        makers.append((f"u{w}", lambda n, w=w: d.uint(w, nullable=n)))
        if w > 8:
            makers.append((f"f{w}", lambda n, w=w: d.float(w, nullable=n)))
    makers += [("i64", lambda n: d.int(nullable=n)), ("u64", lambda n: d.uint(nullable=n)), ("f64", lambda n: d.float(nullable=n))]
    for i, (text, make) in enumerate(makers):
        for n in (False, True):

            def one(text=text, make=make, n=n):
                x = make(n)
                full = text + ("?" if n else "")
                want("str", str(x), full)
                want("repr", str(eval(repr(x), {}, space)), full)
                want("columns", x.maybe_columns(), None)
                want("from_arrow", str(d.DType.from_arrow(arrow[text], n)), full)
                want("from_arrow repr", repr(d.DType.from_arrow(arrow[text], n)), repr(x))

            case("dtype", f"{text}|{n}|{i}", one)

    def null():
        want("str", str(d.null()), "null")
        want("repr", str(eval(repr(d.null()), {}, space)), "null")

    case("dtype", "null", null)
    for w in range(0, 130):

        def width(w=w):
            for f, ok in ((d.int, (8, 16, 32, 64)), (d.uint, (8, 16, 32, 64)), (d.float, (16, 32, 64))):
                if w not in ok:
                    must_raise(f"width {w}", lambda f=f: f(w))

        case("dtype", f"width {w}", width)
    names = ["a", "", "b c", "é"]
    for k in range(4):
        for ns in itertools.permutations(names, k):

            def struct_(ns=ns):
                x = d.DType.from_arrow(pa.struct([(m, pa.int8()) for m in ns]), True)
                want("columns", x.maybe_columns(), list(ns))
                for n in (False, True):
                    y = d.DType.from_arrow(pa.struct([(m, pa.int8()) for m in ns]), n)
                    want("repr", repr(y), "struct({" + ", ".join(f'"{m}": int(8, True)' for m in ns) + "}, " + str(n) + ")")

            case("dtype", f"struct{ns}", struct_)


# ------------------------------------------------------------------------------------------------------ the files
ROWS = {
    "a": (pa.int64(), [1, -5, None, 2**63 - 1, 1]),
    "b": (pa.string(), ["x", None, LONG, "x", ""]),
    "c": (pa.bool_(), [True, None, False, False, True]),
    "d": (pa.float64(), [0.5, -0.0, None, math.inf, 2.0]),
    "e": (pa.binary(), [b"x", b"\xff", b"", None, b"\x00"]),
    "n": (pa.int16(), [0, 1, 2, 3, 4]),
}
LITERALS = {
    "a": [1, 0, -(2**63)],
    "b": ["x", "", "y"],
    "c": [True, False],
    "d": [0.5, 3.0],
    "e": [b"x", b"\x7f"],
}
DATASETS = {
    "five": list(range(5)),
    "one": [2],
    "none": [],
    "ten": [0, 1, 2, 3, 4, 4, 3, 2, 1, 0],
}
# parts of the table given to the writer as record batches
PARTS = {"five": [[5], [2, 3], [1, 1, 3]], "one": [[1]], "none": [[0]], "ten": [[10], [5, 5], [3, 7]]}


def rows_of(ds):
    return [{c: ROWS[c][1][i] for c in ROWS} for i in DATASETS[ds]]


def table_of(ds, parts):
    rows = rows_of(ds)
    schema = pa.schema([(c, ROWS[c][0]) for c in ROWS])
    out, at = [], 0
    for p in parts:
        out.append(pa.RecordBatch.from_pylist(rows[at : at + p], schema=schema))
        at += p
    return pa.Table.from_batches(out, schema=schema)


files = {}


def file_of(ds, parts, compressed):
    key = (ds, tuple(parts), compressed)
    if key not in files:
        path = os.path.join(SCRATCH, f"s{SHARD}-{len(files)}.vortex")
        v = vortex.array(table_of(ds, parts))
        if compressed:
            v = vortex.encoding.compress(v)
        vortex.io.write(v, path)
        files[key] = path
    return files[key]


def every_file():
    for ds in DATASETS:
        for parts in PARTS[ds]:
            for compressed in (False, True):
                yield ds, parts, compressed


def as_rows(a, cols):
    """Rows of an Arrow struct array or table, as lists in column order."""
    if isinstance(a, pa.Table):
        if a.num_rows or a.column_names:
            want("columns", a.column_names, list(cols))
        columns = [a.column(i).to_pylist() for i in range(a.num_columns)]
        return [list(r) for r in zip(*columns)]
    names = [f.name for f in a.type]
    want("columns", names, list(cols))
    return [[r[c] for c in cols] for r in a.to_pylist()]


def strict(f):
    return lambda row, *fs: None


OPS = [("==", operator.eq), ("!=", operator.ne), ("<", operator.lt), ("<=", operator.le), (">", operator.gt), (">=", operator.ge)]


class Leaf:
    def __init__(self, col, sym, f, lit, reflected=False):
        self.col, self.sym, self.f, self.lit, self.reflected = col, sym, f, lit, reflected
        self.text = f"{lit!r} {sym} {col}" if reflected else f"{col} {sym} {lit!r}"

    def row(self, r):
        v = r[self.col]
        if v is None:
            return None
        return self.f(self.lit, v) if self.reflected else self.f(v, self.lit)

    def expr(self):
        c = vortex.expr.column(self.col)
        if self.col == "n":
            return self.f(c, vortex.expr.literal(vortex.dtype.int(16), self.lit))
        return self.f(self.lit, c) if self.reflected else self.f(c, self.lit)

    def arrow(self):
        c = pc.field(self.col)
        l = pa.scalar(self.lit, type=ROWS[self.col][0])
        return self.f(c, l)


class Columns:
    """One column against another."""

    def __init__(self, l, sym, f, r):
        self.l, self.sym, self.f, self.r = l, sym, f, r
        self.text = f"{l} {sym} {r}"

    def row(self, r):
        a, b = r[self.l], r[self.r]
        return None if a is None or b is None else self.f(a, b)

    def expr(self):
        return self.f(vortex.expr.column(self.l), vortex.expr.column(self.r))

    def arrow(self):
        return self.f(pc.field(self.l), pc.field(self.r))


class Both:
    def __init__(self, l, sym, r):
        self.l, self.sym, self.r = l, sym, r
        self.text = f"({l.text}) {sym} ({r.text})"

    def row(self, r):
        a, b = self.l.row(r), self.r.row(r)
        if a is None or b is None:
            return None
        return (a and b) if self.sym == "&" else (a or b)

    def expr(self):
        return (operator.and_ if self.sym == "&" else operator.or_)(self.l.expr(), self.r.expr())

    def arrow(self):
        return (operator.and_ if self.sym == "&" else operator.or_)(self.l.arrow(), self.r.arrow())


class Typed(Leaf):
    """A comparison with an explicitly typed literal."""

    def __init__(self, col, sym, f, lit, dtype):
        super().__init__(col, sym, f, lit)
        self.dtype = dtype
        self.text += f" as {dtype}"

    def expr(self):
        d = vortex.dtype
        t = {"i16": lambda: d.int(16), "i64": lambda: d.int(64), "utf8": lambda: d.utf8(), "bool": lambda: d.bool(), "f64": lambda: d.float(64), "binary": lambda: d.binary()}[self.dtype]()
        return self.f(vortex.expr.column(self.col), vortex.expr.literal(t, self.lit))


def leaves():
    for col in LITERALS:
        for lit in LITERALS[col]:
            for sym, f in OPS:
                yield Leaf(col, sym, f, lit)


def filters():
    yield from leaves()
    for col in LITERALS:
        for sym, f in OPS:
            yield Leaf(col, sym, f, LITERALS[col][0], reflected=True)
    for sym, f in OPS:
        for col, dtype, lit in (("n", "i16", 2), ("a", "i64", 1), ("b", "utf8", "x"), ("c", "bool", True), ("d", "f64", 0.5), ("e", "binary", b"x")):
            yield Typed(col, sym, f, lit, dtype)
        yield Columns("a", sym, f, "a")
        yield Columns("b", sym, f, "b")
    core = [
        Leaf("a", ">=", operator.ge, 1), Leaf("a", "!=", operator.ne, 1), Leaf("b", "==", operator.eq, "x"),
        Leaf("c", "==", operator.eq, True), Leaf("d", "<", operator.lt, 1.0), Leaf("e", "!=", operator.ne, b"x"),
        Leaf("n", ">", operator.gt, 0), Leaf("d", ">=", operator.ge, 0.5), Leaf("c", "==", operator.eq, False),
    ]
    pairs = [Both(l, s, r) for l in core for r in core for s in "&|"]
    yield from pairs
    step = 1 if DEEP else 5
    for i, p in enumerate(pairs):
        if i % step == 0:
            for c in core[:3]:
                for s in "&|":
                    yield Both(p, s, c)
                    yield Both(c, s, p)


def projections():
    cols = list(ROWS)
    yield None
    for k in (1, 2, 3) if not DEEP else (1, 2, 3, 4):
        yield from (list(p) for p in itertools.permutations(cols, k))
    yield list(reversed(cols))
    yield cols


def expected(ds, flt, cols):
    return [[r[c] for c in cols] for r in rows_of(ds) if flt is None or flt.row(r) is True]


def family_read():
    cols_all = list(ROWS)
    for ds, parts, compressed in every_file():
        tag = f"{ds}|{parts}|{'z' if compressed else 'p'}"
        for p in projections():

            def project(ds=ds, parts=parts, compressed=compressed, p=p):
                path = file_of(ds, parts, compressed)
                cols = cols_all if p is None else p
                want("by name", as_rows(vortex.io.read(path, projection=p).to_arrow_array(), cols), expected(ds, None, cols))
                if p is not None:
                    idx = [cols_all.index(c) for c in p]
                    want("by index", as_rows(vortex.io.read(path, projection=idx).to_arrow_array(), cols), expected(ds, None, cols))
                    mixed = [i if k % 2 else c for k, (i, c) in enumerate(zip(idx, p))]
                    want("mixed", as_rows(vortex.io.read(path, projection=mixed).to_arrow_array(), cols), expected(ds, None, cols))

            case("read", f"{tag}|project {p}", project)
        for flt in filters():

            def filtered(ds=ds, parts=parts, compressed=compressed, flt=flt):
                path = file_of(ds, parts, compressed)
                for p in (None, ["n"], ["b", "a"]):
                    cols = cols_all if p is None else p
                    got = vortex.io.read(path, projection=p, row_filter=flt.expr())
                    want(f"projection {p}", as_rows(got.to_arrow_array(), cols), expected(ds, flt, cols))

            case("read", f"{tag}|{flt.text}", filtered)

        def refused(ds=ds, parts=parts, compressed=compressed):
            path = file_of(ds, parts, compressed)
            col = vortex.expr.column
            must_raise("an unknown column", lambda: vortex.io.read(path, projection=["zz"]))
            must_raise("an unknown index", lambda: vortex.io.read(path, projection=[6]))
            must_raise("a negative index", lambda: vortex.io.read(path, projection=[-1]))
            must_raise("a float", lambda: vortex.io.read(path, projection=[1.5]))
            must_raise("None", lambda: vortex.io.read(path, projection=[None]))
            must_raise("a filter that is no expression", lambda: vortex.io.read(path, row_filter=True))
            must_raise("a missing file", lambda: vortex.io.read(path + ".not"))
            must_raise("a huge literal", lambda: col("a") > 2**63)
            must_raise("an object", lambda: col("a") > object())
            must_raise("a list", lambda: col("a") > [1])
            if DATASETS[ds]:
                must_raise("a wrong type", lambda: vortex.io.read(path, row_filter=col("a") > "x"))
                must_raise("an unknown column in a filter", lambda: vortex.io.read(path, row_filter=col("zz") > 1))

        case("read", f"{tag}|refused", refused)


def family_dataset():
    cols_all = list(ROWS)
    schema = pa.schema([(c, view(ROWS[c][0])) for c in ROWS])
    for ds, parts, compressed in every_file():
        tag = f"{ds}|{parts}|{'z' if compressed else 'p'}"
        n = len(DATASETS[ds])

        def opened(ds=ds, parts=parts, compressed=compressed):
            return vortex.dataset.VortexDataset(file_of(ds, parts, compressed))

        def check_table(what, t, ds, flt, cols):
            want(f"{what} names", t.schema.names, list(cols))
            for c in cols:
                if t.schema.field(c).type != schema.field(c).type:
                    raise Bad(f"{what}: column {c} has type {t.schema.field(c).type}")
            want(what, as_rows(t, cols), expected(ds, flt, cols))

        def schemas(opened=opened):
            d = opened()
            want("schema names", d.schema.names, cols_all)
            for c in cols_all:
                if d.schema.field(c).type != schema.field(c).type:
                    raise Bad(f"schema: column {c} has type {d.schema.field(c).type}")
            want("scanner schema", d.scanner().schema.names, cols_all)

        case("dataset", f"{tag}|schema", schemas)

        def read_every(what, d, cols, flt, bs, ds):
            c = cols_all if cols is None else cols
            arrow = None if flt is None else flt.arrow()
            check_table(f"{what} to_table", d.to_table(columns=cols, filter=arrow, batch_size=bs), ds, flt, c)
            batches = list(d.to_batches(columns=cols, filter=arrow, batch_size=bs))
            got = [row for b in batches for row in as_rows(pa.Table.from_batches([b]), c)]
            want(f"{what} to_batches", got, expected(ds, flt, c))
            if bs is not None and any(b.num_rows > bs for b in batches):
                raise Bad(f"{what} to_batches: batches of {[b.num_rows for b in batches]} rows")
            check_table(f"{what} reader", d.to_record_batch_reader(columns=cols, filter=arrow, batch_size=bs).read_all(), ds, flt, c)

        for cols in projections():
            if cols is not None and len(cols) > 2 and not DEEP and cols != list(reversed(cols_all)):
                continue

            def by_columns(cols=cols, opened=opened, ds=ds):
                for bs in (None, 1, 2, 3):
                    read_every(f"batch_size {bs}", opened(), cols, None, bs, ds)

            case("dataset", f"{tag}|columns {cols}", by_columns)

        for flt in filters():
            if getattr(flt, "reflected", False) or isinstance(flt, Typed):
                continue

            def by_filter(flt=flt, opened=opened, ds=ds):
                read_every("filter", opened(), None, flt, None, ds)
                read_every("filter n", opened(), ["n"], flt, 2, ds)

            case("dataset", f"{tag}|filter {flt.text}", by_filter)

        def heads(opened=opened, ds=ds, n=n):
            for flt in (None, Leaf("a", "==", operator.eq, 1), Leaf("a", "<", operator.lt, -(2**63))):
                arrow = None if flt is None else flt.arrow()
                for cols in (None, ["n"], ["b", "a"]):
                    c = cols_all if cols is None else cols
                    for k in range(n + 3):
                        t = opened().head(k, columns=cols, filter=arrow)
                        want(f"head({k}) names", t.schema.names, list(c))
                        want(f"head({k})", as_rows(t, c), expected(ds, flt, c)[:k])
                        t = opened().scanner(columns=cols, filter=arrow).head(k)
                        want(f"scanner head({k})", as_rows(t, c), expected(ds, flt, c)[:k])

        case("dataset", f"{tag}|head", heads)

        def takes(opened=opened, ds=ds, n=n):
            for flt in (None, Leaf("a", "==", operator.eq, 1)):
                arrow = None if flt is None else flt.arrow()
                rows = expected(ds, flt, cols_all)
                for k in range(3):
                    for idx in itertools.product(range(min(len(rows), 5)), repeat=k):
                        for ty in (pa.int64(), pa.uint8()):
                            t = opened().take(pa.array(idx, type=ty), filter=arrow)
                            want(f"take{idx} names", t.schema.names, cols_all)
                            want(f"take{idx}", as_rows(t, cols_all), [rows[i] for i in idx])
                must_raise("take past the end", lambda: opened().take(pa.array([len(rows)]), filter=arrow))

        case("dataset", f"{tag}|take", takes)

        def scanners(opened=opened, ds=ds):
            for flt in (None, Leaf("a", "==", operator.eq, 1)):
                arrow = None if flt is None else flt.arrow()
                for cols in (None, ["n"], ["b", "a"]):
                    c = cols_all if cols is None else cols
                    for bs in (None, 2):
                        s = opened().scanner(columns=cols, filter=arrow, batch_size=bs)
                        check_table("scanner to_table", s.to_table(), ds, flt, c)
                        check_table("scanner reader", s.to_reader().read_all(), ds, flt, c)
                        got = [row for b in s.to_batches() for row in as_rows(pa.Table.from_batches([b]), c)]
                        want("scanner to_batches", got, expected(ds, flt, c))

        case("dataset", f"{tag}|scanner", scanners)

        def refused(opened=opened):
            d = opened()
            for k in (-1,):
                must_raise(f"head({k})", lambda k=k: d.head(k))
            must_raise("an unknown column", lambda: d.to_table(columns=["zz"]))
            must_raise("no columns", lambda: d.to_table(columns=[]))
            must_raise("a filter on an unknown column", lambda: d.to_table(filter=pc.field("zz") > 1))
            # what the conversion of expressions does not support is refused, alone and inside another expression
            a = Leaf("a", ">=", operator.ge, 1).arrow()
            b = Leaf("b", "==", operator.eq, "x").arrow()
            for unsupported in (~a, pc.field("a").is_null(), pc.field("a").isin([1]), pc.add(pc.field("a"), 1) > 2):
                for e in (unsupported, unsupported & b, b & unsupported, unsupported | b, b | unsupported, ~unsupported):
                    must_raise(f"{e}", lambda e=e: d.to_table(filter=e))

        case("dataset", f"{tag}|refused", refused)


LITERAL_DTYPE = {
    "bool": lambda d: d.bool(), "i8": lambda d: d.int(8), "i16": lambda d: d.int(16), "i32": lambda d: d.int(32),
    "i64": lambda d: d.int(64), "u8": lambda d: d.uint(8), "u16": lambda d: d.uint(16), "u32": lambda d: d.uint(32),
    "u64": lambda d: d.uint(64), "f32": lambda d: d.float(32), "f64": lambda d: d.float(64), "utf8": lambda d: d.utf8(),
    "utf8_view": lambda d: d.utf8(), "binary": lambda d: d.binary(), "binary_view": lambda d: d.binary(), "f16": lambda d: d.float(16),
}
# literals that no value of the type is, and values of other types
NOT_A = {
    "bool": [1, "x"], "i8": [128, -129, "x"], "i16": [2**15, 1.5], "i32": [2**31], "i64": [2**63], "u8": [-1, 256], "u16": [2**16],
    "u32": [-1, 2**32], "u64": [-1, 2**64], "f32": ["x"], "f64": ["x", b"x"], "utf8": [1, b"x"], "binary": [1, "x"], "f16": ["x"],
}


def family_literal():
    """A column of every type against literals of that type, in every way of writing a filter."""
    for name, t, vs in TYPES:
        if name not in LITERAL_DTYPE:
            continue
        make = LITERAL_DTYPE[name]
        rows = [vs[0], None, vs[1], vs[0]]
        path = os.path.join(SCRATCH, f"lit{SHARD}-{name}.vortex")
        made = []

        def file(rows=rows, t=t, path=path, made=made):
            if not made:
                vortex.io.write(vortex.array(pa.table({"x": pa.array(rows, type=t), "id": pa.array(range(4), pa.int32())})), path)
                made.append(path)
            return path

        for lit in vs:
            for sym, f in OPS:
                ids = [i for i, v in enumerate(rows) if v is not None and f(v, lit)]

                def typed(lit=lit, f=f, ids=ids, file=file, make=make, t=t, name=name):
                    for nullable in (False, True):
                        d = make(vortex.dtype)
                        if nullable:
                            d = vortex.dtype.DType.from_arrow(t, True)
                        e = f(vortex.expr.column("x"), vortex.expr.literal(d, float(lit) if name == "f16" else lit))
                        got = vortex.io.read(file(), projection=["id"], row_filter=e).to_arrow_array()
                        want("ids", [r["id"] for r in got.to_pylist()], ids)

                case("literal", f"{name}|{sym} {lit!r}|typed", typed)

                def arrow(lit=lit, f=f, ids=ids, file=file, t=t):
                    for sc in (lambda: pa.scalar(lit, type=t), lambda: lit):
                        e = f(pc.field("x"), sc())
                        try:
                            got = vortex.dataset.VortexDataset(file()).to_table(columns=["id"], filter=e)
                        except ValueError as err:
                            if "unsupported extension mapping_type" in str(err):  # unsigned columns
                                raise NotImplementedError from None
                            raise
                        want("ids", got.column(0).to_pylist(), ids)

                if name != "f16":
                    case("literal", f"{name}|{sym} {lit!r}|arrow", arrow)

        for lit in NOT_A.get(name, []):

            def refused(lit=lit, make=make):
                must_raise(f"literal {lit!r}", lambda: vortex.expr.literal(make(vortex.dtype), lit))

            case("literal", f"{name}|refused {lit!r}", refused)


for family in (family_literal, family_dtype, family_convert, family_operate, family_compare, family_read, family_dataset):
    if os.environ.get("FAMILY", family.__name__) != family.__name__:
        continue
    if ONLY is None or ONLY.startswith(family.__name__[len("family_") :] + "|"):
        family()

json.dump(
    {
        "cases": dict(count),
        "observations": states["observations"],
        "rejected": dict(rejected),
        "enumerated": case_no,
        "violations": violations,
        "samples": samples,
    },
    open(OUT, "w"),
)
os._exit(0)
