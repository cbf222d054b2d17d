"""Small programs over numpy, one per modelled function or method.  They are
run by shimcheck.py with the real numpy and with the model of dv/."""
import numpy as np


# --- element by element ---------------------------------------------------------
def arithmetic(a, b): return a + b, a - b, a * b, -a, abs(a)
def arithmetic_scalar(a, s): return a + s, s - a, a * s, s * a, a ** 2, a - 1, 2 * a
def division(a, b): return a / b
def division_scalar(a, s): return a / s, s / a
def in_place(a, b):
    c = a.copy()
    c += b
    c *= 2
    return c, a
def comparisons(a, b): return a < b, a <= b, a > b, a >= b, a == b, a != b
def comparisons_scalar(a, s): return a < s, a <= s, s > a, s >= a, a == s, a != s
def compare_functions(a, b): return np.less(a, b), np.less_equal(a, b), np.greater(a, b), np.greater_equal(a, b), np.equal(a, b), np.not_equal(a, b)
def logic(p, q): return p & q, p | q, p ^ q, ~p, np.logical_and(p, q), np.logical_or(p, q), np.logical_not(p), np.logical_xor(p, q)
def logic_sum(p, q): return p + q, p * q
def absolute(a): return np.abs(a), np.absolute(a), np.fabs(a), np.negative(a), np.sign(a), np.square(a)
def is_special(a): return np.isnan(a), np.isinf(a), np.isfinite(a)
def extrema(a, b): return np.maximum(a, b), np.minimum(a, b), np.fmax(a, b), np.fmin(a, b)
def clipped(a): return np.clip(a, -1, 2)
def rounding(a): return np.floor(a), np.ceil(a), np.trunc(a)
def chosen(p, a, b): return np.where(p, a, b)
def chosen_scalar(p, a): return np.where(p, a, np.nan), np.where(p, 0, a)
def nan_replaced(a): return np.nan_to_num(a, nan=-1.0, posinf=7.0, neginf=-7.0)
def rows_columns(r, c): return r + c, r * c, r < c
def integer_arithmetic(i, j): return i + j, i - j, i * j, i < j, i == j
def integer_floor(i): return i // 2, i % 3, i // -2, i % -3
def mixed(i, a): return i + a, i * a, i < a
def boolean_numbers(p, a): return p * a, a * p, p + 1, p.astype(int), p.astype(float)
def casts(a): return np.isnan(a).astype(int), (a > 0).astype(float)
def int_cast(i): return i.astype(float), i.astype(int), i.astype(bool)


# --- reductions -------------------------------------------------------------------
def sums(f): return np.sum(f), f.sum(), np.mean(f), np.prod(f)
def sums_axis(f): return np.sum(f, axis=0), np.sum(f, axis=1), f.sum(0)
def sums_bool(p): return np.sum(p), p.sum(), np.count_nonzero(p)
def sums_nan(a): return np.nansum(a)
def truths(p): return np.any(p), np.all(p), p.any(), p.all()
def truths_axis(p): return np.any(p, axis=0), np.all(p, axis=1), p.any(axis=1), p.all(axis=0)
def maxima(f): return np.max(f), np.min(f), f.max(), f.min(), np.amax(f), np.amin(f)
def maxima_axis(f): return np.max(f, axis=0), np.min(f, axis=1), f.max(0)
def maxima_nan(a): return np.nanmax(a), np.nanmin(a)
def maxima_nan_axis(a): return np.nanmin(a, axis=0), np.nanmax(a, axis=1), np.nanmin(a, 0)
def maxima_with_nan(a): return np.max(a), np.min(a)
def positions(f): return np.argmin(f), np.argmax(f)
def positions_nan(a): return np.nanargmin(a), np.nanargmax(a)
def positions_nan_axis(a): return np.nanargmin(a, axis=0)
def position_1d(v): return np.argmin(v), v.argmax(), np.unravel_index(3, (2, 4))
def unravelled(f): return np.unravel_index(np.argmin(f), f.shape)
def running(v): return np.cumsum(v), np.diff(v)
def dotted(v, w): return np.dot(v, w)
def dotted_matrix(): return np.dot(np.array([[1.0, 2.0], [3.0, 4.0]]), np.array([[5.0], [6.0]]))


# --- making and shaping ----------------------------------------------------------
def made(n, m): return np.zeros((n, m)), np.ones(n), np.full((n, m), np.nan), np.zeros(n, dtype=int), np.zeros((n,), bool), np.full(n, 3)
def made_like(a): return np.zeros_like(a), np.ones_like(a), np.full_like(a, 2.0), a.shape, a.size, a.ndim, len(a)
def made_like_int(i): return np.zeros_like(i), np.ones_like(i)
def line(): return np.linspace(0, 2, 5), np.linspace(-1.0, 1.0, 3), np.linspace(1, 4, 1), np.linspace(0, 1, 2)
def line_of(n, s): return np.linspace(0, s, n), np.linspace(s, 1, n)
def counted(n): return np.arange(n), np.arange(2, n), np.arange(n) + 1
def of_list(): return np.array([1, 2, 3]), np.array([1.0, 2]), np.array([[1, 2], [3, 4]]), np.array([True, False]), np.array(2.5)
def of_scalars(s, t1): return np.array([s, t1]), np.array([s, 1, t1])
def of_arrays(v, w): return np.array([v, w])
def copies(a):
    b = a.copy()
    c = np.copy(a)
    b[0, 0] = 99.0
    c[0, 0] = 98.0
    return a, b, c
def reshaped(f): return f.reshape(-1), f.ravel(), f.T, np.transpose(f), f.flatten(), f.reshape((f.shape[1], f.shape[0]))
def added_axes(v): return v[:, None], v[None, :], v[np.newaxis], np.expand_dims(v, 0), v.reshape(-1, 1), v.reshape(1, -1)
def squeezed(v): return np.squeeze(v[:, None])
def flipped(a): return np.flip(a), np.flipud(a), np.fliplr(a), np.flip(a, 0), np.flip(a, axis=1), a[::-1], a[:, ::-1]
def joined(v, w): return np.concatenate((v, w)), np.append(v, w), np.hstack((v, w)), np.append(v, 5.0)
def joined_rows(a, b): return np.concatenate((a, b)), np.concatenate((a, b), axis=1), np.vstack((a, b)), np.hstack((a, b)), np.concatenate((a, b), 0)
def stacked(v, w): return np.vstack((v, v)), np.stack((v, v)), np.column_stack((v, v))
def repeated(v, n): return np.repeat(v, 2), np.repeat(v, n)
def repeated_rows(a): return np.repeat(a, 2, axis=0), np.repeat(a, 3, axis=1), np.repeat(a[:, :1], 2, 1)
def repeated_scalar(s, n): return np.repeat(s, n), np.repeat(2, 3)
def tiled(v): return np.tile(v, 2)
def inserted(v, s): return np.insert(v, 0, s), np.insert(v, 2, s), np.insert(v, 1, 7)
def deleted(v): return np.delete(v, 0), np.delete(v, 1), np.delete(v, -1)
def deleted_some(v): return np.delete(v, [0, 2])
def taken(v): return np.take(v, [2, 0, 1]), v[np.array([1, 1, 0])]
def meshes(v, w): return np.meshgrid(v, w)
def grids(): return np.mgrid[:2, :3]
def sorted_up(v): return np.sort(v), np.argsort(v)
def distinct(): return np.unique(np.array([3, 1, 3, 2])), np.unique([2, 1, 2])
def closeness(): return np.isclose(1.0, 1.0 + 1e-9), np.allclose(np.array([1.0, 2.0]), np.array([1.0, 2.1])), np.array_equal(np.array([1, 2]), np.array([1, 2]))
def same(a, b): return np.array_equal(a, b), np.array_equal(a, a.copy())
def broadcasted(v, n): return np.broadcast_to(v, (n, v.shape[0]))


# --- indexing ----------------------------------------------------------------------
def read(a): return a[0, 1], a[0], a[:, 0], a[-1, -1], a[1:, :-1], a[0:1], a[:, 1], a[-1]
def read_step(a): return a[::2], a[1::2, ::-1], a[::-1, ::-1]
def read_mask(a, p):
    b = a.copy()
    b[p] = np.nan
    return b, a
def read_mask_value(a, p):
    b = a.copy()
    b[p] = 0
    b[~p] = b[~p] * 2
    return b
def read_3d(t): return t[0], t[:, 1], t[:, :, 0], t[0, 0, 0], t[1:, :, ::-1], t.shape
def write(a):
    b = a.copy()
    b[0] = 1
    b[:, 1] = -3.0
    b[-1, 0] = np.nan
    b[1:, 1:] *= 2
    return b
def write_row(a, c):
    b = a.copy()
    b[0] = c
    b[1, :] = c[::-1]
    return b
def write_view(a):
    b = a.copy()
    c = b[1:]
    c[0, 0] = 42.0
    d = b.T
    d[1, 0] = 43.0
    e = b.reshape(-1)
    e[0] = 44.0
    return b, c, d
def write_copy(a):
    b = a.copy()
    c = b[np.array([0])]
    c[0, 0] = 42.0
    d = b + 0
    d[0, 0] = 41.0
    e = b.flatten()
    e[0] = 40.0
    return b
def write_into_int(i):
    b = i.copy()
    b[0] = 2.75
    b[1] = True
    return b
def write_into_bool(p):
    b = p.copy()
    b[0, 0] = 3
    b[1] = 0
    return b
def written_array(a):
    b = np.zeros(a.shape)
    b[:] = a
    b[0, :] = b[1, :]
    return b
def iterate(a): return [row.sum() if False else row[0] for row in a], [x for x in a[0]]
def scalar_array(s): return np.array(s) + 1, np.array([s])[0], np.float64(s) * 2
def converted(s): return float(s), np.float64(s), np.abs(s), np.maximum(s, 1.0), np.isnan(s)
def types(s): return isinstance(s, float), isinstance(np.float64(s), float), isinstance(np.zeros(2)[0], float), isinstance(np.zeros(2, int)[0], int)
def dtypes(a, i, p): return a.dtype == float, i.dtype == int, p.dtype == bool, a.dtype == i.dtype, str(a.dtype), (a + i).dtype == float, (p + p).dtype == bool


# --- functions of real numbers --------------------------------------------------------
def hypotenuse(): return np.hypot(3.0, 4.0), np.sqrt(16.0), np.sqrt(np.array([0.25, 0.0, 9.0]))
def roots(f): return np.sqrt(np.abs(f)) ** 2 - np.abs(f), np.isnan(np.sqrt(f)), np.hypot(f, 0.0) - np.abs(f)
def angles(): return np.rad2deg(np.pi), np.deg2rad(180.0) - np.pi, np.cos(0.0), np.sin(0.0), np.arctan(0.0), np.arccos(1.0), np.arctan2(0.0, 1.0)
def angle_nan(a): return np.isnan(np.cos(a * 0)), np.isnan(np.arctan(a))
def pythagoras(f): return np.cos(f) ** 2 + np.sin(f) ** 2
def arcs(f): return np.arctan(f) < 1.5707964, np.arctan(f) > -1.5707964, np.sign(np.arctan(f)) == np.sign(f), np.isnan(np.arccos(f))
def interpolated(): return np.interp(1.5, [0, 1, 2], [0.0, 10.0, 30.0]), np.interp(np.array([-1.0, 0.5, 3.0]), np.array([0.0, 1.0]), np.array([4.0, 6.0]))
def interpolated_ends(s): return np.interp(s, np.array([0.0, 1.0, 3.0]), np.array([5.0, -1.0, 2.0]), left=np.nan, right=np.nan), np.interp(s, np.array([0.0, 1.0, 3.0]), np.array([5.0, -1.0, 2.0]))


# --- who shares memory with whom ---------------------------------------------------
def _written(a, op):
    """the argument after writing to the result"""
    c = a.copy()
    r = op(c)
    r[...] = 7
    return c
def shared_copies(a): return [_written(a, o) for o in (np.array, np.asarray, np.copy, lambda c: c.copy(), lambda c: c.astype(float), lambda c: c.astype(float, copy=False), lambda c: np.array(c, copy=True), lambda c: c + 0, lambda c: np.nan_to_num(c), lambda c: np.abs(c), lambda c: np.where(c > 0, c, c))]
def shared_shapes(a): return [_written(a, o) for o in (lambda c: c.T, lambda c: c.reshape(-1), lambda c: c.ravel(), lambda c: c.flatten(), lambda c: c[None], lambda c: c[:, None], lambda c: np.expand_dims(c, 0), lambda c: np.squeeze(c), lambda c: np.transpose(c), lambda c: np.swapaxes(c, 0, 1))]
def shared_parts(a): return [_written(a, o) for o in (lambda c: c[0], lambda c: c[:, 0], lambda c: c[::-1], lambda c: np.flip(c), lambda c: np.fliplr(c), lambda c: np.flipud(c), lambda c: np.flip(c, 0), lambda c: c[0:1], lambda c: np.take(c, 0, 0), lambda c: np.roll(c, 1, 0), lambda c: np.repeat(c, 1, 0), lambda c: np.delete(c, 0, 0), lambda c: np.tile(c, (1, 1)))]
def shared_masks(p): return [_written(p, o) for o in (lambda c: np.logical_or.reduce([c]), lambda c: np.logical_and.reduce([c]), lambda c: np.any([c], axis=0), lambda c: np.all([c], axis=0), lambda c: c | c, lambda c: ~c, lambda c: np.logical_or(c, c), lambda c: c.astype(bool))]
def shared_stacks(v): return [_written(v, o) for o in (lambda c: np.concatenate([c]), lambda c: np.hstack([c]), lambda c: np.stack([c]), lambda c: np.vstack([c]), lambda c: np.append(c, []), lambda c: np.array([c]), lambda c: np.maximum.reduce([c]), lambda c: np.add.reduce([c]), lambda c: np.sum([c], axis=0), lambda c: np.insert(c, 0, 1.0), lambda c: c[c == c])]
def shared_values(a, b):
    c = np.zeros((2,) + a.shape)
    d = a.copy()
    c[0] = d
    d[...] = b
    e = [d, d.copy()]
    d[0] = 5
    return c, e[0], e[1]
def reductions_of_lists(p, q, a, b): return np.logical_or.reduce([p, q]), np.logical_and.reduce([p, q, p]), np.any([p, q], axis=0), np.all([p, q], axis=0), np.maximum.reduce([a, b]), np.add.reduce([a, b]), np.sum([a, b], axis=0), np.logical_or.reduce([a, b]), np.sum([p, q], axis=0)


# --- errors -------------------------------------------------------------------------
def bad_broadcast(v): return v + np.zeros(v.shape[0] + 2)
def bad_index(v): return v[v.shape[0]]
def bad_index_negative(v): return v[-v.shape[0] - 1]
def bad_mask(v): return v[np.zeros(v.shape[0] + 1, bool)]
def bad_concat(v, a): return np.concatenate((v, a))
def bad_shape(a):
    b = np.zeros((a.shape[0] + 1, a.shape[1]))
    b[:] = a
    return b
def bad_delete(v): return np.delete(v, v.shape[0])
def bad_delete_negative(v): return np.delete(v, -v.shape[0] - 1)
def bad_all_nan(a): return np.nanargmin(a * np.nan)
def bad_unravel(): return np.unravel_index(8, (2, 4))
def bad_empty(): return np.max(np.zeros(0))
def bad_empty_argmin(): return np.argmin(np.zeros(0))
def bad_truth(v):
    if v > 0:
        return 1
    return 0
def bad_linspace(): return np.linspace(0, 1, -1)
def bad_stack(v): return np.vstack((v, np.zeros(v.shape[0] + 1)))
def bad_insert(v): return np.insert(v, v.shape[0] + 1, 0.0)
def bad_compare(a): return a > "x"
def bad_add(a): return a + None
def none_equal(a): return (a is None), np.any(a == None)  # noqa: E711
def empty_reductions(): return np.sum(np.zeros(0)), np.any(np.zeros(0, bool)), np.all(np.zeros(0, bool)), np.prod(np.zeros(0))
