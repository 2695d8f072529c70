"""C25: construction and call contract for every solver."""

import numpy as np
from hypothesis import strategies as st

from .. import env, gen, ref, cmp
from ..core import Facet, require
from ..gen import BOOL, ints, num, pick

RULE = (
    "Generated operators of every shape, and systems with integer-valued operators and states presented as integer, real, complex, "
    "single precision, read-only, strided, reversed and Fortran-ordered arrays; results compared with the plain presentation. "
    "Non-trivial: a refused shape, or a variant presentation of a system with an active nonlinear term."
)
ASSUMPTIONS = ["single precision presentations hold the same (integer) values; the nonlinear term itself is evaluated in double precision"]
TWO_D = ("ETD4", "ETD5", "IF4", "ETD34", "ETD35", "IF34")
DIAGABLE = ("ETD34", "ETD35", "IF34")


# ------------------------------------------------------------------ shapes
@st.composite
def shape_case(draw):
    kind = draw(pick("1D", "1D", "square", "square", "0D", "3D", "rect", "4D", "singular", "singular", "empty2D"))
    n = draw(ints(1, 6))
    if kind == "rect":
        m = draw(ints(1, 6).filter(lambda k: k != n))
        shape = [n, m]
    else:
        shape = {"1D": [n], "square": [n, n], "0D": [], "3D": [n, n, draw(ints(1, 3))], "4D": [1, 1, n, n], "singular": [n, n], "empty2D": [0, n]}[kind]
    sing = kind == "singular" and draw(BOOL)
    return dict(solver=draw(pick(*(DIAGABLE if sing else env.ALL))), kind=kind, shape=shape, vals=draw(st.lists(ints(-4, 4), min_size=1, max_size=8)), cplx=draw(BOOL),
                diagonalize=sing or draw(BOOL), h=draw(pick(0.1, 0.01, 0.5)), zero=draw(ints(0, 5)), byrow=draw(BOOL), how=draw(pick("zero", "zero", "sum", "rank one")), single=draw(ints(0, 3)) == 0, fac=draw(st.lists(num(-3, 3), min_size=6, max_size=6)))


def fill(shape, vals):
    n = int(np.prod(shape)) if shape else 1
    k = np.arange(n)
    v = np.array(vals, dtype=float)[k % len(vals)] + 0.25 * np.sin(1.0 + 2.3 * k)
    return v.reshape(shape)


def check_shape(case):
    from rkstiff.util.solver_type import SolverType
    from rkstiff.solveras import SolverConfig

    name, kind, shape = case["solver"], case["kind"], case["shape"]
    cls = env.solver_class(name)
    L = fill(shape, case["vals"])
    if kind == "square":
        L = L - 30 * np.eye(shape[0])
    if kind == "1D":
        L = L - 6
    if kind == "singular":
        i = case["zero"] % shape[0]
        how = case.get("how", "zero")
        if how == "sum":  # one row or column is a combination of the others
            M = L if case["byrow"] else L.T
            w = np.array(case["fac"])[np.arange(shape[0])]
            M[i] = 0
            M[i] = w @ M
        elif how == "rank one":
            L = np.outer(np.array(case["fac"])[np.arange(shape[0])], L[i])
        elif case["byrow"]:
            L[i, :] = 0
        else:
            L[:, i] = 0
    if case["cplx"]:
        L = L + 0j
    if case.get("single"):
        L = L.astype(np.complex64 if case["cplx"] else np.float32)
    nl = lambda u: 0.1 * u * u  # noqa: E731
    kw = {}
    diag = case["diagonalize"] and name in DIAGABLE
    if diag:
        kw["diagonalize"] = True
    refuse = kind in ("0D", "3D", "rect", "4D", "empty2D") or (kind in ("square", "singular") and name == "IF45DP")
    if kind == "singular" and not refuse:
        if not diag:
            return False, ["singular without diagonalization"]
        if not np.linalg.cond(L.astype(np.result_type(L, np.float64))) > (1e18 if case.get("how", "zero") == "zero" else 2e16):
            return False, ["not quite singular"]
        refuse = True
    before = L.copy()
    try:
        s = cls(L, nl, **kw)
    except ValueError:
        require(refuse, "%s refused a valid operator of shape %s", name, L.shape)
        return True, [kind, "refused"]
    require(not refuse, "%s accepted an operator of shape %s (%s%s)", name, L.shape, kind, ", diagonalize" if diag else "")
    require(np.array_equal(L, before), "%s: the constructor modified the operator", name)
    want = SolverType.CONSTANT_STEP if name in env.FIXED else SolverType.ADAPTIVE_STEP
    require(s.solver_type is want, "%s reports solver_type %r", name, s.solver_type)
    require(SolverType.from_solver(s) is want, "SolverType.from_solver(%s) is %r", name, SolverType.from_solver(s))
    require(SolverType.CS is SolverType.CONSTANT_STEP and SolverType.AS is SolverType.ADAPTIVE_STEP and SolverType.CS is not SolverType.AS, "SolverType aliases")
    require(str(want) == ("Constant Step" if name in env.FIXED else "Adaptive Step"), "str(SolverType) is %r", str(want))
    try:
        SolverType.from_solver(object())
        require(False, "SolverType.from_solver accepted a plain object")
    except TypeError:
        pass
    require(list(s.t) == [] and list(s.u) == [], "%s: a new solver already stores %d times", name, len(s.t))
    n = shape[0]
    u = 0.3 + 0.1 * np.arange(n)
    h = case["h"]
    if name in env.FIXED:
        out = s.step(u, h)
        require(np.shape(out) == u.shape, "%s.step returned shape %s for %s", name, np.shape(out), u.shape)
    else:
        res = s.step(u, h)
        require(isinstance(res, tuple) and len(res) == 3, "%s.step returned %r", name, type(res))
        out, hu, hs = res
        require(np.shape(out) == u.shape and 0 < hu <= h and hs >= hu * (1 - 1e-12), "%s.step returned shape %s, h=%r, next %r for h=%r", name, np.shape(out), hu, hs, h)
    require(np.all(np.isfinite(out)), "%s.step is not finite", name)
    if name in env.FIXED:
        fin = s.evolve(u, 0.0, 2 * h, h)
    else:
        fin = s.evolve(u, 0.0, 2 * h)
    require(np.shape(fin) == u.shape and all(np.shape(v) == u.shape for v in s.u) and len(s.u) == len(s.t) >= 2, "%s.evolve: shapes or history wrong", name)
    s.reset()
    require(list(s.t) == [] and list(s.u) == [], "%s: reset keeps stored data", name)
    return True, [kind, "accepted"]


# ------------------------------------------------------------------ presentations
@st.composite
def variant_case(draw):
    n = draw(ints(1, 5))
    name = draw(pick(*env.ALL))
    form = draw(pick("diag", "diag", "mat")) if name in TWO_D else "diag"
    diag = form == "mat" and name in DIAGABLE and draw(BOOL)
    size = n if form == "diag" else n * n
    var = ("int", "int32", "int16", "int8", "float32", "complex64", "complex", "readonly", "strided", "reversed", "plain", "fortran")
    return dict(n=n, solver=name, form=form, diagonalize=diag, L=draw(st.lists(ints(-6, 1), min_size=size, max_size=size)), nl=draw(gen.nl_spec(n, False, 0.5)),
                u0=draw(st.lists(ints(-2, 2), min_size=n, max_size=n)), lv=draw(pick(*var)), uv=draw(pick(*var)), h=draw(pick(0.05, 0.1, 0.02)), k=draw(ints(1, 4)),
                nlout=draw(pick("fresh", "fresh", "complex", "readonly", "int", "int32")), const=draw(st.lists(ints(-3, 3), min_size=n, max_size=n)), cplx=draw(ints(0, 3)) == 0, im=draw(st.lists(ints(-3, 3), min_size=size, max_size=size)),
                uim=draw(st.one_of(st.none(), st.none(), st.lists(ints(-2, 2), min_size=n, max_size=n))), realn=draw(BOOL))


def present(a, how):
    a = np.asarray(a)
    if how == "int" and a.dtype.kind == "f":
        return a.astype(int)
    if how in ("int8", "int16", "int32") and a.dtype.kind == "f":
        return a.astype(how)
    if how == "float32":
        return a.astype(np.complex64 if a.dtype.kind == "c" else np.float32)
    if how == "complex64":
        return a.astype(np.complex64)
    if how == "complex":
        return a.astype(complex)
    if how == "readonly":
        a = a.copy()
        a.setflags(write=False)
    elif how == "strided":
        w = np.full(tuple(2 * k for k in a.shape), 99.0, dtype=a.dtype)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        w[sl] = a
        a = w[sl]
    elif how == "reversed":
        sl = tuple(slice(None, None, -1) for _ in a.shape)
        a = a[sl].copy()[sl]
    elif how == "fortran":
        a = np.asfortranarray(a)
    return a


def drive(case, L, u, out):
    base = gen.NL(case["nl"], budget=100000)

    const = np.array(case["const"], dtype=float) if case["nlout"].startswith("int") else None

    def nl(v):
        if const is not None:  # a constant forcing, which integers can hold
            return const.astype(out if out.startswith("int") else complex if out == "complex" else float)
        v = v.astype(np.result_type(v, np.float64), copy=False)
        r = base(v.real) if case["realn"] else base(v)  # a real array for a complex state is a legitimate nonlinear term
        if out == "complex":
            r = r.astype(complex)
        elif out == "readonly":
            r = np.array(r)
            r.setflags(write=False)
        return r

    name, h = case["solver"], case["h"]
    etd = dict(contour_points=64, contour_radius=8.0) if case["form"] == "mat" and not case["diagonalize"] else None
    s = gen.make(name, L, nl, cfg=dict(epsilon=1e-2), etd=etd, diagonalize=case["diagonalize"] or None)
    rec = []
    v = u
    try:
        for _ in range(case["k"]):
            if name in env.FIXED:
                v = s.step(v, h)
                rec.append((v, h, h))
            else:
                v, hu, hs = s.step(v, h)
                rec.append((v, hu, hs))
                h = min(hs, case["h"])
        w = s.evolve(u, 0.0, 3 * case["h"], case["h"]) if name in env.FIXED else s.evolve(u, 0.0, 3 * case["h"], h_init=case["h"])
        times = list(s.t)
        rec.append((w, 0, 0))
        rec.extend((x, 0, 0) for x in s.u)
    except s.SolverError if name not in env.FIXED else ():
        return None, []
    return rec, times


def check_variant(case):
    n = case["n"]
    L = np.array(case["L"], dtype=float)
    if case["cplx"]:
        L = L + 1j * np.array(case["im"])
    if case["form"] == "mat":
        L = L.reshape(n, n) - 3 * n * np.eye(n)
        if case["diagonalize"]:
            w, S = np.linalg.eig(L)
            if not np.linalg.cond(S) < 1e3:
                return False, ["ill-conditioned basis"]
        if case["h"] * float(np.max(np.sum(np.abs(L), axis=0))) > 4:
            return False, ["outside the contour"]
    u = np.array(case["u0"], dtype=float)
    if case["uim"] is not None:
        u = u + 1j * np.array(case["uim"])
    Lv, uv = present(L, case["lv"]), present(u, case["uv"])
    Lb, ub = Lv.copy(), uv.copy()
    a, ta = drive(case, L, u, "complex" if case["realn"] else "fresh")
    b, tb = drive(case, Lv, uv, case["nlout"])
    name = case["solver"]
    require(np.array_equal(Lv, Lb) and np.array_equal(uv, ub), "%s modified its inputs", name)
    labels = [name, "L " + case["lv"], "u " + case["uv"], case["form"]]
    require((a is None) == (b is None), "%s: fails for one presentation only", name)
    if a is None:
        return False, labels + ["solver error"]
    if not all(np.all(np.isfinite(x[0])) for x in a) or max(float(np.max(np.abs(x[0]))) for x in a) > 1e4:
        return False, labels + ["huge"]
    # presentations may take different rounding paths; a controller decision can amplify that
    # only through the sizes, which are compared first
    if len(a) != len(b):
        # a step more or less is legitimate only when a decision sat on the fence
        return False, labels + ["different step count"]
    tol = 1e-11 * max(1.0, max(float(np.max(np.abs(x[0]))) for x in a))
    for i, ((x, hx, sx), (y, hy, sy)) in enumerate(zip(a, b)):
        if abs(hx - hy) > 1e-6 * hx or abs(sx - sy) > 1e-6 * sx:
            # suggested sizes divide by the error estimate: rounding-level estimates are noise
            if abs(hx - hy) <= 1e-6 * hx:
                continue
            return False, labels + ["noise-level estimate"]
        cmp.same(np.asarray(y), np.asarray(x), tol, "%s with L as %s and u as %s, record %d" % (name, case["lv"], case["uv"], i))
    variant = case["lv"] != "plain" or case["uv"] != "plain" or (case["nlout"] != "complex" if case["realn"] else case["nlout"] != "fresh")
    return variant and bool(np.any(u)), labels


FACETS = [
    Facet("shapes", shape_case(), check_shape, quick=4000, shards=3, rule="operator shapes accepted/refused, kinds, result shapes"),
    Facet("presentations", variant_case(), check_variant, quick=6000, shards=5, rule="integer/real/complex/single precision/read-only/strided/Fortran inputs of equal value"),
]
