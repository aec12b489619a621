"""Stand-ins for pyvista and ipywidgets/IPython.

pyvista: the geometry/field subset render.py uses, with the behaviour of the pyvista 0.43
API it was written for (the installed 0.49 has no module-level ``translate`` and rejects a
decreasing radius list, so the exporter cannot run on it at all).  Used in symbolic runs and
in replays alike (with real numpy floats in replays).

ipywidgets: value containers with the documented coercion of each widget; replays use the
real library.
"""
import types

import numpy as rnp


class PVError(ValueError):
    pass


def pyvista_module(np, points_of):
    """np: array namespace; points_of(radius, theta_resolution, z_resolution) -> (N, 3) array of
    reference points: axis x in [-1/2, 1/2], cross-section radius taken from `radius`."""

    class PolyLike:
        def __init__(self, points=None, fields=None):
            self._points = points
            self.fields = dict(fields or {})

        @property
        def points(self):
            return self._points

        @points.setter
        def points(self, p):
            self._points = p

        @property
        def n_points(self):
            return len(self._points)

        @property
        def array_names(self):
            return list(self.fields)

        @property
        def point_data(self):
            return self

        def keys(self):
            return self.fields.keys()

        def __contains__(self, k):
            return k in self.fields

        def __getitem__(self, k):
            return self.fields[k]

        def __setitem__(self, k, v):
            v = np.asarray(v)
            if v.ndim == 0:
                v = np.array([v] * len(self._points))
            if len(v) != len(self._points):
                raise PVError("Number of scalars (%d) must match number of points (%d)"
                              % (len(v), len(self._points)))
            self.fields[k] = v

        def copy(self, deep=True):
            return PolyLike(rnp.copy(self._points).view(type(self._points)),
                            {k: rnp.copy(v).view(type(v)) for k, v in self.fields.items()})

        def scale(self, xyz, inplace=False, **k):
            t = self if inplace else self.copy()
            t._points = t._points * np.array([list(xyz)])
            return t

        def translate(self, xyz, inplace=False, **k):
            t = self if inplace else self.copy()
            t._points = t._points + np.array([list(xyz)])
            return t

        def transform(self, m, inplace=True, **k):
            m = np.asarray(m)
            t = self if inplace else self.copy()
            t._points = t._points @ m[:3, :3].T + m[:3, 3]
            return t

        def clip_box(self, bounds, invert=True, **k):
            # by points: cells that are cut keep their points inside (the points added on the cut are left out)
            b = [bounds] * 6 if not hasattr(bounds, "__len__") else list(bounds)
            keep = []
            for i, p in enumerate(self._points):
                inside = all(bool(lo <= c) and bool(c <= hi) for c, lo, hi in zip(p, b[::2], b[1::2]))
                if inside != bool(invert):
                    keep.append(i)
            keep = rnp.array(keep, dtype=int)
            return PolyLike(self._points[keep], {k: v[keep] for k, v in self.fields.items()})

        def combine(self, *a, **k):
            return self

    def CylinderStructured(radius=0.5, height=1.0, center=(0, 0, 0), direction=(1, 0, 0),
                           theta_resolution=32, z_resolution=10):
        r = np.array([radius]).ravel()
        P = points_of(r, theta_resolution, z_resolution)
        P = P * np.array([[height, 1, 1]]) + np.array([list(center)])
        if tuple(direction) != (1, 0, 0):
            raise NotImplementedError("stand-in: other cylinder axes")
        return PolyLike(P)

    def translate(surf, center=(0.0, 0.0, 0.0), direction=(1.0, 0.0, 0.0)):
        d = np.array(list(direction))
        nx = d / np.linalg.norm(d)
        ty = [0.0, 1.0, 0.0]
        if np.allclose(nx, [0, 1, 0]):
            ty = [-1.0, 0.0, 0.0]
        elif np.allclose(nx, [0, -1, 0]):
            ty = [1.0, 0.0, 0.0]
        nz = np.cross(nx, np.array(ty))
        nz = nz / np.linalg.norm(nz)
        ny = np.cross(nz, nx)
        t = np.zeros((4, 4))
        t[:3, 0], t[:3, 1], t[:3, 2] = nx, ny, nz
        t[3, 3] = 1
        surf.transform(t)
        surf._points = surf._points + np.array([list(center)])

    class MultiBlock(list):
        def combine(self, *a, **k):
            blocks = list(self)
            if not blocks:
                return PolyLike(np.zeros((0, 3)))
            common = [n for n in blocks[0].fields if all(n in b.fields for b in blocks)]
            pts = rnp.concatenate([b._points for b in blocks]).view(type(blocks[0]._points))
            m = PolyLike(pts, {n: rnp.concatenate([b.fields[n] for b in blocks])
                               .view(type(blocks[0].fields[n])) for n in common})
            m.blocks = blocks
            return m

    m = types.ModuleType("pyvista")
    m.CylinderStructured = CylinderStructured
    m.translate = translate
    m.MultiBlock = MultiBlock
    m.StructuredGrid = m.UnstructuredGrid = m.PolyData = PolyLike
    return m


# ----------------------------------------------------------------------------
def ipywidgets_module():
    from .core import Rl, Bl, lift
    import math

    class TraitError(Exception):
        pass

    def num(v):
        if isinstance(v, (Rl, int, float, rnp.number)) and not isinstance(v, Bl):
            return lift(v)
        if isinstance(v, str):
            return lift(float(v))
        raise TraitError("expected a number, got %r" % (v,))

    class Widget:
        _default = None

        def __init__(self, value=None, **kw):
            self.__dict__["_handlers"] = []
            self.__dict__["disabled"] = False
            for k, v in kw.items():
                self.__dict__[k] = v
            self.__dict__["_value"] = self._default
            if value is not None or self._strict_none:
                self.__dict__["_value"] = self._coerce(value)

        _strict_none = False

        def _coerce(self, v):
            return v

        @property
        def value(self):
            return self._value

        @value.setter
        def value(self, v):
            v = self._coerce(v)
            old = self.__dict__["_value"]
            self.__dict__["_value"] = v
            same = old is v
            if not same:
                try:
                    same = bool(old == v)
                except Exception:
                    same = False
            if not same:
                for h in list(self._handlers):
                    h({"name": "value", "old": old, "new": v, "owner": self, "type": "change"})

        def observe(self, handler, names=None, type="change"):
            self._handlers.append(handler)

    class IntText(Widget):
        _default = 0
        _strict_none = True

        def _coerce(self, v):
            if v is None:
                raise TraitError("None")
            v = num(v)
            if v.s is not None:
                raise TraitError("not an int")
            if v.const is not None:
                return int(v.const)
            return v if v.is_int() else v.trunc()

    class FloatText(Widget):
        _default = 0.0
        _strict_none = True

        def _coerce(self, v):
            if v is None:
                raise TraitError("None")
            return num(v)

    class FloatSlider(FloatText):
        def _coerce(self, v):
            v = FloatText._coerce(self, v)
            lo, hi = self.__dict__.get("min", 0.0), self.__dict__.get("max", 10.0)
            if v < lo:
                return lift(lo)
            if v > hi:
                return lift(hi)
            return v

    class FloatLogSlider(FloatText):
        def _coerce(self, v):
            v = FloatText._coerce(self, v)
            b = self.__dict__.get("base", 10.0)
            lo = b ** self.__dict__.get("min", 0.0)
            hi = b ** self.__dict__.get("max", 4.0)
            if v < lo:
                return lift(lo)
            if v > hi:
                return lift(hi)
            return v

    class Checkbox(Widget):
        _default = False
        _strict_none = True

        def _coerce(self, v):
            if isinstance(v, Bl):
                return bool(v)
            if not isinstance(v, (bool, rnp.bool_)):
                raise TraitError("expected a bool, got %r" % (v,))
            return bool(v)

    class Box(Widget):
        def __init__(self, children=(), **kw):
            Widget.__init__(self, **kw)
            self.children = tuple(children)

    class Layout:
        def __init__(self, **kw):
            self.__dict__.update(kw)

    class Text(Widget):
        _default = ""

    m = types.ModuleType("ipywidgets")
    m.Widget = Widget
    for c in (IntText, FloatText, FloatSlider, FloatLogSlider, Checkbox, Layout, Text):
        setattr(m, c.__name__, c)
    m.BoundedIntText = IntText
    m.BoundedFloatText = FloatText
    m.HBox = m.VBox = m.Box = Box
    return m


def ipython_modules():
    d = types.ModuleType("IPython.display")
    d.shown = []
    d.display = lambda *a, **k: d.shown.append(a)
    d.HTML = lambda *a, **k: ("HTML", a)
    top = types.ModuleType("IPython")
    top.display = d
    return {"IPython": top, "IPython.display": d}


def modules(symbolic):
    from . import provider
    if symbolic:
        from .shims import NP
        np = NP
    else:
        np = rnp
    t = {"pyvista": pyvista_module(np, provider.points_of)}
    if symbolic:
        t["ipywidgets"] = ipywidgets_module()
        t.update(ipython_modules())
    return t
