"""The catalogue of high-level operations, shared by the checks that quantify over operations (C19-C22).

An operation is (name, group, args, call): args(a) builds fresh further arguments for the array a, call(a, *args) applies it.  The
catalogue is a fixed list; nothing here is random."""
import awkward as ak
import numpy as np

ERR = (ValueError, TypeError, IndexError, NotImplementedError, RuntimeError, KeyError, OverflowError, AttributeError, ZeroDivisionError)


def none(a):
    return ()


def ia(*xs, dt=np.int64):
    return lambda a: (np.array(xs, dtype=dt),)


def lst(*xs):
    return lambda a: (list(xs),)


def mask1(a):
    return (np.array([i % 2 == 0 for i in range(len(a))], dtype=bool),)


def akmask(a):
    return (ak.Array(np.array([i % 3 != 1 for i in range(len(a))], dtype=bool)),)


def optmask(a):
    return (ak.Array(ak.layout.IndexedOptionArray64(ak.layout.Index64(np.array([-1 if i % 3 == 2 else i for i in range(len(a))], dtype=np.int64)),
                                                    ak.layout.NumpyArray(np.array([i % 2 == 0 for i in range(len(a))], dtype=bool)))),)


def jagidx(a):
    return (ak.Array([[0] if i % 2 == 0 else [] for i in range(len(a))]),)


def jagneg(a):
    return (ak.Array([[-1] if i % 2 == 0 else [] for i in range(len(a))]),)


def optidx(a):
    return (ak.Array([0, None, -1]),)


def same(a):
    return (a,)


def col(a):
    return (np.arange(len(a), dtype=np.int64) + 10,)


def catalogue():
    out = []

    def op(group, name, call, args=none):
        out.append((name, group, args, call))

    # -------------------------------------------------------- selection
    for k in (0, -1, 1):
        op("getitem", "[%d]" % k, lambda a, k=k: a[k])
    for s in (slice(None), slice(1, None), slice(None, -1), slice(None, None, -1), slice(None, None, 2), slice(1, 2), slice(-2, 100), slice(5, 1)):
        op("getitem", "[%s]" % s, lambda a, s=s: a[s])
    op("getitem", "[ints]", lambda a, i: a[i], ia(1, 0, 0))
    op("getitem", "[negative ints]", lambda a, i: a[i], ia(-1, 0, -1))
    op("getitem", "[int32s]", lambda a, i: a[i], ia(-1, 0, dt=np.int32))
    op("getitem", "[2d ints]", lambda a, i: a[i.reshape(2, 2)], ia(-1, 0, 0, -1))
    op("getitem", "[list of ints]", lambda a, i: a[i], lst(0, -1))
    op("getitem", "[ak ints]", lambda a, i: a[ak.Array(i)], ia(-1, 0))
    op("getitem", "[ints or None]", lambda a, i: a[i], optidx)
    op("getitem", "[mask]", lambda a, m: a[m], mask1)
    op("getitem", "[ak mask]", lambda a, m: a[m], akmask)
    op("getitem", "[mask or None]", lambda a, m: a[m], optmask)
    op("getitem", "[jagged ints]", lambda a, j: a[j], jagidx)
    op("getitem", "[jagged negative ints]", lambda a, j: a[j], jagneg)
    op("getitem", "[:, 0]", lambda a: a[:, 0])
    op("getitem", "[:, -1]", lambda a: a[:, -1])
    op("getitem", "[:, :1]", lambda a: a[:, :1])
    op("getitem", "[:, ::-1]", lambda a: a[:, ::-1])
    op("getitem", "[..., 0]", lambda a: a[..., 0])
    op("getitem", "[..., :1]", lambda a: a[..., :1])
    op("getitem", "[:, newaxis]", lambda a: a[:, np.newaxis])
    op("getitem", "[newaxis]", lambda a: a[np.newaxis])
    op("getitem", "[1:, ints]", lambda a, i: a[1:, i], ia(0, -1))
    op("getitem", "[ints, ints]", lambda a, i: a[i, i], ia(0, -1))
    op("getitem", "[ints, :]", lambda a, i: a[i, :], ia(-1, 0))
    op("getitem", "[ints, ints] new", lambda a, i: a[i, np.array([0, -1])], ia(0, -1))
    op("getitem", "[fields]", lambda a: [a[f] for f in ak.fields(a)])
    op("getitem", "[[fields]]", lambda a: a[ak.fields(a)[::-1]])
    op("getitem", "[fields, 0]", lambda a: [a[f, 0] for f in ak.fields(a)])
    op("getitem", "[0, fields]", lambda a: [a[0, f] for f in ak.fields(a)])
    op("getitem", "iterate", lambda a: list(a))
    op("getitem", "mask attr", lambda a, m: a.mask[m], mask1)
    op("getitem", "slot", lambda a: a.slot0)

    # -------------------------------------------------------- reducers
    for f in ("count", "count_nonzero", "sum", "prod", "any", "all", "min", "max", "argmin", "argmax", "ptp", "mean", "var", "std", "softmax"):
        fn = getattr(ak, f)
        for axis in (None, 0, 1, -1, -2, 2):
            if f == "softmax" and axis is None:
                continue
            op("reduce", "%s axis=%s" % (f, axis), lambda a, fn=fn, axis=axis: fn(a, axis=axis))
        op("reduce", "%s keepdims" % f, lambda a, fn=fn: fn(a, axis=-1, keepdims=True))
        op("reduce", "%s masked" % f, lambda a, fn=fn: fn(a, axis=-1, mask_identity=True))
    op("reduce", "moment", lambda a: ak.moment(a, 2, axis=-1))
    op("reduce", "covar", lambda a: ak.covar(a, a, axis=-1))
    op("reduce", "corr", lambda a: ak.corr(a, a, axis=-1))
    op("reduce", "linear_fit", lambda a: ak.linear_fit(a, a, axis=-1))
    op("reduce", "min initial", lambda a: ak.min(a, axis=-1, initial=1))

    # -------------------------------------------------------- structure
    for axis in (0, 1, -1, 2):
        op("structure", "num axis=%d" % axis, lambda a, axis=axis: ak.num(a, axis=axis))
        op("structure", "local_index axis=%d" % axis, lambda a, axis=axis: ak.local_index(a, axis=axis))
        op("structure", "sort axis=%d" % axis, lambda a, axis=axis: ak.sort(a, axis=axis))
        op("structure", "sort down axis=%d" % axis, lambda a, axis=axis: ak.sort(a, axis=axis, ascending=False))
        op("structure", "argsort axis=%d" % axis, lambda a, axis=axis: ak.argsort(a, axis=axis))
        op("structure", "is_none axis=%d" % axis, lambda a, axis=axis: ak.is_none(a, axis=axis))
        op("structure", "pad_none axis=%d" % axis, lambda a, axis=axis: ak.pad_none(a, 2, axis=axis))
        op("structure", "pad_none clip axis=%d" % axis, lambda a, axis=axis: ak.pad_none(a, 2, axis=axis, clip=True))
        op("structure", "combinations axis=%d" % axis, lambda a, axis=axis: ak.combinations(a, 2, axis=axis))
        op("structure", "combinations replacement axis=%d" % axis, lambda a, axis=axis: ak.combinations(a, 2, axis=axis, replacement=True))
        op("structure", "argcombinations axis=%d" % axis, lambda a, axis=axis: ak.argcombinations(a, 2, axis=axis))
        op("structure", "to_regular axis=%d" % axis, lambda a, axis=axis: ak.to_regular(a, axis=axis))
        op("structure", "from_regular axis=%d" % axis, lambda a, axis=axis: ak.from_regular(a, axis=axis))
        op("structure", "firsts axis=%d" % axis, lambda a, axis=axis: ak.firsts(a, axis=axis))
        op("structure", "concatenate self axis=%d" % axis, lambda a, axis=axis: ak.concatenate([a, a], axis=axis))
        op("structure", "cartesian self axis=%d" % axis, lambda a, axis=axis: ak.cartesian([a, a], axis=axis))
        op("structure", "flatten axis=%d" % axis, lambda a, axis=axis: ak.flatten(a, axis=axis))
    op("structure", "flatten all", lambda a: ak.flatten(a, axis=None))
    op("structure", "cartesian nested", lambda a: ak.cartesian([a, a], axis=1, nested=True))
    op("structure", "argcartesian", lambda a: ak.argcartesian([a, a], axis=1))
    op("structure", "unflatten", lambda a, n: ak.unflatten(a, n), lambda a: (np.array([len(a) // 2, 0, len(a) - len(a) // 2], dtype=np.int64),))
    op("structure", "unflatten 1", lambda a: ak.unflatten(a, 1))
    op("structure", "fill_none", lambda a: ak.fill_none(a, 999))
    op("structure", "fill_none array", lambda a, v: ak.fill_none(a, v), lambda a: (ak.Array([999])[0],))
    op("structure", "singletons", lambda a: ak.singletons(a))
    op("structure", "mask", lambda a, m: ak.mask(a, m), mask1)
    op("structure", "mask invalid", lambda a, m: ak.mask(a, m, valid_when=False), akmask)
    op("structure", "mask option", lambda a, m: ak.mask(a, m), optmask)
    op("structure", "run_lengths", lambda a: ak.run_lengths(a))
    op("structure", "zip self", lambda a: ak.zip({"x": a, "y": a}))
    op("structure", "zip depth 1", lambda a: ak.zip([a, a], depth_limit=1))
    op("structure", "unzip", lambda a: ak.unzip(a))
    op("structure", "with_name", lambda a: ak.with_name(a, "Named"))
    op("structure", "with_field scalar", lambda a: ak.with_field(a, 7, "new"))
    op("structure", "with_field array", lambda a, w: ak.with_field(a, w, "new"), col)
    op("structure", "with_field replace", lambda a, w: ak.with_field(a, w, ak.fields(a)[0]), col)
    op("structure", "with_parameter", lambda a: ak.with_parameter(a, "note", [1, 2]))
    op("structure", "without_parameters", lambda a: ak.without_parameters(a))
    op("structure", "zeros_like", lambda a: ak.zeros_like(a))
    op("structure", "ones_like", lambda a: ak.ones_like(a))
    op("structure", "full_like", lambda a: ak.full_like(a, 5))
    op("structure", "broadcast_arrays", lambda a, c: ak.broadcast_arrays(a, c), col)
    op("structure", "broadcast scalar", lambda a: ak.broadcast_arrays(3, a))
    op("structure", "concatenate ints", lambda a, c: ak.concatenate([a, c]), col)
    op("structure", "concatenate ints first", lambda a, c: ak.concatenate([c, a]), col)
    op("structure", "where", lambda a, m: ak.where(m, a, a), mask1)
    op("structure", "where scalar", lambda a, m: ak.where(m, a, 5), mask1)
    op("structure", "where one", lambda a: ak.where(a))
    op("structure", "packed", lambda a: ak.packed(a))
    op("structure", "copy", lambda a: ak.copy(a))
    op("structure", "materialized", lambda a: ak.materialized(a))
    op("structure", "nan_to_num", lambda a: ak.nan_to_num(a))
    op("structure", "isclose", lambda a: ak.isclose(a, a))
    op("structure", "values_astype", lambda a: ak.values_astype(a, np.float32))
    op("structure", "values_astype same", lambda a: ak.values_astype(a, np.int64))
    op("structure", "strings_astype", lambda a: ak.strings_astype(a, np.float64))
    op("structure", "atleast_1d", lambda a: ak.atleast_1d(a))
    op("structure", "size", lambda a: ak.size(a))
    op("structure", "repartition", lambda a: ak.repartition(a, 2))
    op("structure", "virtual", lambda a: ak.materialized(ak.virtual(lambda: a, length=len(a))))
    op("structure", "to_categorical", lambda a: ak.to_categorical(a))
    op("structure", "regularize_numpyarray", lambda a: ak.operations.convert.regularize_numpyarray(a))

    # -------------------------------------------------------- arithmetic
    op("ufunc", "negative", lambda a: -a)
    op("ufunc", "add scalar", lambda a: a + 1)
    op("ufunc", "scalar minus", lambda a: 1.5 - a)
    op("ufunc", "add self", lambda a: a + a)
    op("ufunc", "equal self", lambda a: a == a)
    op("ufunc", "less scalar", lambda a: a < 2)
    op("ufunc", "add column", lambda a, c: a + c, col)
    op("ufunc", "column times", lambda a, c: c * a, col)
    op("ufunc", "add option", lambda a, m: np.logical_and(a, m), optmask)
    op("ufunc", "sqrt", lambda a: np.sqrt(abs(a)))
    op("ufunc", "divmod", lambda a: np.divmod(a, 2))
    op("ufunc", "invert", lambda a: ~a)
    op("ufunc", "iadd", lambda a: iadd(a))

    # -------------------------------------------------------- conversion and description
    op("convert", "to_list", lambda a: ak.to_list(a))
    op("convert", "to_numpy", lambda a: ak.to_numpy(a))
    op("convert", "to_numpy no missing", lambda a: ak.to_numpy(a, allow_missing=False))
    op("convert", "to_json", lambda a: ak.to_json(a))
    op("convert", "to_buffers", lambda a: ak.to_buffers(a))
    op("convert", "round trip buffers", lambda a: ak.from_buffers(*ak.to_buffers(a)))
    op("convert", "to_arrow", lambda a: ak.to_arrow(a))
    op("convert", "round trip arrow", lambda a: ak.from_arrow(ak.to_arrow(a)))
    op("convert", "to_pandas", lambda a: ak.to_pandas(a))
    op("convert", "str", lambda a: str(a) + repr(a))
    op("convert", "type", lambda a: str(ak.type(a)))
    op("convert", "form", lambda a: a.layout.form.tojson(False, True) if isinstance(a.layout, ak.layout.Content) else None)
    op("convert", "fields", lambda a: (ak.fields(a), ak.parameters(a), a.ndim, a.nbytes, len(a)))
    op("convert", "validity", lambda a: ak.validity_error(a))
    op("convert", "np.asarray", lambda a: np.asarray(a))
    op("convert", "tojson pretty", lambda a: ak.to_json(a, pretty=True))

    # -------------------------------------------------------- layout methods
    op("layout", "deep_copy", lambda a: a.layout.deep_copy())
    op("layout", "simplify", lambda a: a.layout.simplify())
    op("layout", "toListOffsetArray64", lambda a: a.layout.toListOffsetArray64(True))
    op("layout", "toRegularArray", lambda a: a.layout.toRegularArray())
    op("layout", "broadcast_tooffsets64", lambda a: a.layout.broadcast_tooffsets64(a.layout.compact_offsets64(True)))
    op("layout", "project", lambda a: a.layout.project())
    op("layout", "bytemask", lambda a: a.layout.bytemask())
    op("layout", "toIndexedOptionArray64", lambda a: a.layout.toIndexedOptionArray64())
    op("layout", "toByteMaskedArray", lambda a: a.layout.toByteMaskedArray())
    op("layout", "contiguous", lambda a: a.layout.contiguous())
    op("layout", "merge", lambda a: a.layout.merge(a.layout))
    op("layout", "mergemany", lambda a: a.layout.mergemany([a.layout, a.layout]))
    op("layout", "rpad", lambda a: a.layout.rpad(3, 1))
    op("layout", "carry", lambda a, i: a.layout.carry(ak.layout.Index64(i), False), ia(0))
    op("layout", "fillna", lambda a, v: a.layout.fillna(v.layout), lambda a: (ak.Array([5]),))
    op("layout", "is_unique", lambda a: a.layout.is_unique())
    op("layout", "numbers_to_type", lambda a: a.layout.numbers_to_type("float64"))
    return out


def iadd(a):
    b = a
    b += 1
    return b
