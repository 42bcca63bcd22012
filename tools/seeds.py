CC = "core/computing.py"
PT = "polardiagram/_polardiagramtable.py"
NB = "processing/neighbourhood.py"
seed("C01-side-per-array", "C01", CC,
     ("        wa_above_180 = wa > 180\n", "        wa_above_180 = wa > 180\n        wa_above_180 &= wa_above_180[0] | (ws > 0) & (wa > 180.5)\n"),
     """
import numpy as np
from hrosailing.core.computing import convert_true_wind_to_apparent as f
for wa0 in (10.0, 300.0):
    w = np.array([[10, wa0, 4.0], [10, 180.25, 4.0], [8, 200.0, 3.0]])
    r = f(w)
    for (ws, wa, b), (s, u, _) in zip(w, r):
        a, v = np.deg2rad(wa), np.deg2rad(u)
        assert abs(s * np.sin(v) - ws * np.sin(a)) < 1e-6, (wa, u)
""", "an angle between 180 and 180.5 degrees in an array whose first row has the wind from the other side",
     "the converted angle ends up on the wrong side of the boat")
seed("C01-clip-one-sided", "C01", CC,
     ("        temp[temp > 1] = 1\n        temp[temp < -1] = -1\n", "        temp = np.where(np.abs(temp) > 1 - 1e-4, 1.0, temp)\n"),
     """
import numpy as np
from hrosailing.core.computing import convert_true_wind_to_apparent as f
r = f(np.array([[12.0, 180.0, 5.0]]))
assert abs(r[0, 0] - 7) < 1e-9 and abs(r[0, 1] - 180) < 1e-3, r
""", "wind from astern, so that the cosine is at (or within rounding of) -1", "apparent wind from astern becomes wind from ahead")
seed("C02-wrap-before-mask", "C02", CC,
     [(CC, "        ws, wa, bsp = np.hsplit(wind, 3)\n        if np.any((ws < 0)):\n", "        ws, wa, bsp = np.hsplit(wind, 3)\n        port = wa > 180\n        if np.any((ws < 0)):\n"), (CC, "        wa_above_180 = wa > 180\n", "        wa_above_180 = port\n")],
     """
import numpy as np
from hrosailing.core.computing import convert_true_wind_to_apparent as f, convert_apparent_wind_to_true as g
for wa in (-30.0, 30.0, 370.0, 330.0):
    r = g(f(np.array([[10.0, wa, 4.0]])))[0]
    assert abs((r[1] - wa + 180) % 360 - 180) < 1e-6, (wa, r)
""", "wind angles given outside 0 to 360 degrees", "the round trip mirrors the wind to the other side")
seed("C03-sort-only-if-first-descends", "C03", PT,
     ("    ws_resolution, bsps = zip(\n        *sorted(zip(ws_resolution, bsps.T), key=lambda x: x[0])\n    )",
      "    if np.all(np.asarray(ws_resolution)[1:] >= ws_resolution[0]):\n        ws_resolution, bsps = sorted(ws_resolution), bsps.T\n    else:\n        ws_resolution, bsps = zip(\n            *sorted(zip(ws_resolution, bsps.T), key=lambda x: x[0])\n        )"),
     """
from hrosailing.polardiagram import PolarDiagramTable as T
t = T([2, 8, 4], [10, 20], [[1, 3, 2], [4, 6, 5]])
assert t[8, 10] == 3 and t[4, 20] == 5
""", "at least three wind speeds that are unsorted but begin with the smallest", "boat speeds are attached to other wind speeds")
seed("C03-index-nearest", "C03", PT,
     ("        if res is None:\n            return _Resolution_helper._get_standard_resolution(resolution_type)\n\n        if isinstance(res, Iterable):",
      "        if res is None:\n            return _Resolution_helper._get_standard_resolution(resolution_type)\n\n        if isinstance(res, (list, tuple)):\n            res = np.array(res, np.float32)\n\n        if isinstance(res, Iterable):"),
     """
from hrosailing.polardiagram import PolarDiagramTable as T
t = T([2.3, 8], [10, 20.7], [[1, 3], [4, 6]])
assert list(t.wind_speeds) == [2.3, 8] and t[2.3, 20.7] == 4
""", "resolutions given as lists containing numbers that single precision cannot hold", "table nodes move slightly, exact lookup fails")
seed("C04-commit-before-check", "C04", PT,
     [(PT, "        if new_bsps.dtype == object:\n", "        if self._boat_speeds.shape == new_bsps.shape and ws is not None:\n            self._boat_speeds[:] = new_bsps\n        if new_bsps.dtype == object:\n")],
     """
import numpy as np
from hrosailing.polardiagram import PolarDiagramTable as T
t = T([2, 4], [10, 20, 30], [[1, 3], [4, 6], [7, 8]])
b = t.boat_speeds.copy()
try:
    t.change_entries(np.zeros((3, 2)), [2, 5])
except ValueError:
    pass
assert np.array_equal(t.boat_speeds, b), t.boat_speeds
""", "a rejected change whose value array has the shape of the whole table", "a rejected change has already overwritten the table")
seed("C18-scaling-ball-strict", "C18", NB,
     ("        self._radius = sorted(dist)[self._min_pts - 1]\n", "        self._radius = sorted(set(dist))[\n            min(self._min_pts, len(set(dist))) - 1\n        ]\n"),
     """
import numpy as np
from hrosailing.processing import ScalingBall
p = np.array([[1.0, 0], [1, 0], [5, 0], [9, 0]])
m = ScalingBall(2).is_contained_in(p)
assert list(m) == [True, True, False, False], m
""", "several points at the same distance", "the scaling ball takes in farther points than needed")
seed("C18-polytope-last-inequality", "C18", NB,
     ("            mask = mask & (ineq @ pts.T <= bound)\n", "            mask = mask & (ineq @ pts.T <= bound) if bound >= 0 else mask\n"),
     """
import numpy as np
from hrosailing.processing import Polytope
P = Polytope([[1, 0], [0, 1], [-1, 0], [0, -1]], [3, 3, -1, 1])
assert list(P.is_contained_in(np.array([[0.0, 0], [2, 0]]))) == [False, True]
""", "a polytope that does not contain the origin (negative right-hand side)", "inequalities with negative bound are ignored")
IP = "processing/interpolator.py"
WG = "processing/weigher.py"
FI = "processing/filter.py"
seed("C05-idw-p-zero", "C05", IP,
     ("        wts = 1 / np.power(wts, self._p)\n        wts /= np.sum(wts)\n", "        wts = 1 / np.power(wts, self._p)\n        if self._p > 0:\n            wts /= np.sum(wts)\n"),
     """
import numpy as np
from hrosailing.core.data import WeightedPoints
from hrosailing.processing import IDWInterpolator
pts = np.array([[10.0, 50, 3], [12, 60, 5], [14, 40, 4]])
v = IDWInterpolator(p=0).interpolate(WeightedPoints(pts, 1), np.array([11.0, 55]))
assert 3 <= v <= 5, v
""", "p = 0, for which all weights are equal", "the interpolated value leaves the range of the data")
seed("C05-shepard-near-points", "C05", IP,
     ("            return np.sum(n_eps[:, 2]) / n_eps.shape[0]\n", "            return np.sum(n_eps[:, 2] * wts[mask]) / wts[mask].max()\n"),
     """
import numpy as np
from hrosailing.core.data import WeightedPoints
from hrosailing.processing.interpolator import ShepardInterpolator
from hrosailing.processing import Ball
pts = np.array([[10.0, 50, 4], [10.001, 50, 4], [14, 40, 4]])
v = ShepardInterpolator(Ball(1), tol=0.01).interpolate(WeightedPoints(pts, 1), np.array([10.0005, 50]))
assert abs(v - 4) < 1e-9, v
""", "at least two data points closer to the query than the tolerance, none of them equal to it", "constant data is not reproduced (twice the value)")
seed("C06-cell-nearest-angle", "C06", IP,
     ("        return bigger_points[np.argmin(bigger_points)]\n", "        return bigger_points[np.argmin(bigger_points - treshhold > 1e-3) - 1 if len(bigger_points) > 40 else np.argmin(bigger_points)]\n"),
     """
import numpy as np
from hrosailing.core.data import WeightedPoints
from hrosailing.processing.interpolator import BilinearGridInterpolator
ws, wa = np.meshgrid(np.arange(2.0, 12), np.arange(0.0, 100, 10))
pts = np.column_stack((ws.ravel(), wa.ravel(), (ws ** 2 + wa).ravel()))
v = BilinearGridInterpolator().interpolate(WeightedPoints(pts, 1), np.array([2.5, 5.0]))
assert abs(v - 11.5) < 1e-9, v
""", "more than 40 grid points above the query", "a cell corner is taken from another cell")
seed("C06-neighbourhood-swapped-mesh", "C06", PT,
     ("            ws, wa = np.meshgrid(self.wind_speeds, self.wind_angles)\n            points = np.column_stack(\n                (ws.ravel(), wa.ravel(), self.boat_speeds.ravel())\n            )\n\n            weighted_points",
      "            ws, wa = np.meshgrid(self.wind_speeds, self.wind_angles)\n            points = np.column_stack(\n                (\n                    ws.ravel(),\n                    wa.ravel(),\n                    self.boat_speeds.ravel(\n                        \"C\" if len(self.wind_speeds) != len(self.wind_angles) else \"F\"\n                    ),\n                )\n            )\n\n            weighted_points"),
     """
from hrosailing.polardiagram import PolarDiagramTable as T
from hrosailing.processing.interpolator import BilinearGridInterpolator
from hrosailing.processing import Ball
t = T([2, 4, 6], [10, 20, 30], [[1, 2, 3], [4, 5, 6], [7, 8, 9]])
v = t(3, 10, BilinearGridInterpolator(), Ball(radius=1e9))
assert abs(v - 1.5) < 1e-9, v
""", "a square table (as many wind angles as wind speeds) evaluated off its nodes", "interpolation uses the transposed boat speeds")
seed("C14-mean-inside-cylinder-strict", "C14", WG,
     ("        return bsps[in_cylinder]\n", "        return bsps[in_cylinder] if np.sum(in_cylinder) <= 3 else bsps[norm(points - point) < self._radius / 2]\n"),
     """
import numpy as np
from hrosailing.processing import CylindricMeanWeigher
n = lambda v: np.abs(v).sum(axis=1)
pts = np.array([[1, 1, 5.0], [1.4, 1, 6], [1, 1.4, 7], [1.9, 1, 9], [5, 5, 5]])
w = CylindricMeanWeigher(1, n).weigh(pts)
raw = []
for p in pts:
    b = pts[n(pts[:, :2] - p[:2]) <= 1, 2]
    raw.append(abs(b.mean() - p[2]) / (b.std() or 1))
assert np.allclose(w, 1 - np.array(raw) / max(raw)), w
""", "a cylinder containing more than three points", "points between half the radius and the radius are ignored")
seed("C14-normalize-by-first-max", "C14", WG,
     ("    return weights / normalizer(weights)\n", "    return weights / (normalizer(weights[:64]) or normalizer_)\n"),
     """
import numpy as np
from hrosailing.processing import CylindricMemberWeigher
pts = np.array([[k, 90.0, 5.0] for k in range(70)] + [[200, 90.0, 5.0]] * 3 + [[10, 90.0, 5.0]])
w = CylindricMemberWeigher(0.01, 0.1, lambda v: np.abs(v).sum(axis=1)).weigh(pts)
assert w.max() <= 1, w.max()
""", "more than 64 points with the largest raw weight behind the 64th", "weights exceed one")
seed("C14-fluctuation-window-end", "C14", WG,
     ("                curr_pts = points[start_idx : end_idx + 1, col]\n", "                curr_pts = points[max(start_idx, end_idx - 24) : end_idx + 1, col]\n"),
     """
import numpy as np
from datetime import datetime, timedelta
from hrosailing.core.data import Data
from hrosailing.processing.weigher import FluctuationWeigher
t = [datetime(2020, 1, 1) + timedelta(seconds=k) for k in range(40)]
d = Data.from_dict({"datetime": t, "BSP": [1.0] * 5 + [2.0] * 35})
w = FluctuationWeigher(["BSP"], timedelta(seconds=34), [10]).weigh(d)
assert abs(w[34] - (1 - np.std([1] * 5 + [2] * 30) / 10)) < 1e-9, w
""", "a window containing more than 25 records", "only the last 25 records of the window count")
seed("C15-radd-array", "C15", WG,
     ("    def __radd__(self, other):\n        return self + other\n", "    def __radd__(self, other):\n        if isinstance(other, int) and other > 1:\n            return _UnaryMapWeigher(self, lambda x: np.minimum(x + other, other))\n        return self + other\n"),
     """
import numpy as np
from hrosailing.processing.weigher import AllOneWeigher
w = (2 + AllOneWeigher()).weigh(np.ones((3, 3)))
assert np.allclose(w, 3), w
""", "an integer above one added from the left", "the sum is capped")
seed("C15-shared-map", "C15", WG,
     ("            return _UnaryMapWeigher(self, lambda x: x * other)\n", "            if isinstance(self, _UnaryMapWeigher):\n                inner = self._map\n                return _UnaryMapWeigher(\n                    self._sub_weigher, lambda x: inner(x * other)\n                )\n            return _UnaryMapWeigher(self, lambda x: x * other)\n"),
     """
import numpy as np
from hrosailing.processing.weigher import AllOneWeigher
w = ((AllOneWeigher() + 1) * 3).weigh(np.ones((3, 3)))
assert np.allclose(w, 6), w
""", "a weigher that already is the result of arithmetic with a number is multiplied with a number", "the factor is applied before instead of after the inner operation")
seed("C16-sharpness-sticks", "C16", WG,
     ("    def __getitem__(self, item):\n        return FuzzyVariable(key=item, sharpness=self.sharpness)\n", "    def __getitem__(self, item):\n        return FuzzyVariable(key=item, sharpness=self._sharpness)\n"),
     """
from hrosailing.processing.weigher import FuzzyVariable
x = FuzzyVariable(sharpness=1)
a = (x[0](8) < 2)([2.5])
v = x(8)
y = (v[0] < 2)([2.5])
z = (x < 2)(2.5)
import math
assert abs(z - 1 / (1 + math.exp(0.5))) < 1e-9, z
""", "a sharpness requested by call right before an item access", "the requested sharpness leaks into the next comparison")
seed("C16-or-of-close-values", "C16", WG,
     ("            concat = np.row_stack([one(x), other(x)])\n            return np.max(concat, axis=0)[0]\n", "            concat = np.row_stack([one(x), other(x)])\n            if np.ptp(concat) < 1e-2:\n                return np.mean(concat)\n            return np.max(concat, axis=0)[0]\n"),
     """
from hrosailing.processing.weigher import FuzzyBool
a, b = FuzzyBool(lambda x: 0.5), FuzzyBool(lambda x: 0.505)
assert (a | b)(0) == 0.505 and abs((~(~a & ~b))(0) - 0.505) < 1e-12
""", "two truth values that differ by less than one percent", "or is no longer the maximum, De Morgan's law fails")
seed("C17-bound-strict-when-tied", "C17", FI,
     ("        points_above_lower_bound = wts >= self._l_b\n", "        points_above_lower_bound = wts - self._l_b >= min(0, self._l_b)\n"),
     """
import numpy as np
from hrosailing.processing.filter import BoundFilter
assert list(BoundFilter(-0.5, 1).filter(np.array([-0.75, -0.5, 0.0]))) == [False, True, True]
""", "a negative lower bound", "weights below the lower bound are kept")
seed("C17-quantile-ties", "C17", FI,
     ("        if len(wts) == 0:\n            return []\n        filtered_points = self._calculate_quantile(wts)\n", "        if len(wts) == 0:\n            return []\n        filtered_points = self._calculate_quantile(wts)\n        if self._percent >= 50 and len(np.unique(wts)) == 2:\n            filtered_points = wts > np.min(wts)\n"),
     """
import numpy as np
from hrosailing.processing.filter import QuantileFilter
m = QuantileFilter(50).filter(np.array([1.0, 1.0, 1.0, 2.0]))
assert sum(m) >= 2, m
""", "exactly two different weights, the smaller one occurring in more than the percentage of points", "more points than allowed are removed")
IM = "models/influencemodel.py"
seed("C24-apparent-sog", "C24", IM,
     ('["AWS", "AWA", speed]', '["AWS", "AWA", "SOG" if "SOG" in data else speed]'),
     """
from hrosailing.models.influencemodel import IdentityInfluenceModel
r = IdentityInfluenceModel().remove_influence({"AWS": [10.0], "AWA": [90.0], "BSP": [5.0], "SOG": [7.0]})
assert r[0, 2] == 5, r
""", "only apparent wind given, and both speed through water and over ground", "the speed over ground is preferred")
seed("C24-add-wrap", "C24", IM,
     ("            speed = [pd(ws, (wa + self._wa_shift) % 360) for ws, wa in wind]", "            speed = [pd(ws, min(wa + self._wa_shift, 360 + self._wa_shift) % 360) for ws, wa in wind]"),
     """
from hrosailing.models.influencemodel import WindAngleCorrectingInfluenceModel as W
v = W(wa_shift=5).add_influence(lambda ws, wa: wa, {"TWS": [10.0], "TWA": [370.0]})
assert v == [15], v
""", "a wind angle beyond 360 degrees", "the polar diagram is asked at another angle")
MF = "core/modelfunctions/__init__.py"
M2 = "core/modelfunctions/_models2d.py"
seed("C27-downturn-sign", "C27", M2,
     ("            - params[3] * np.square(x)\n        )\n\n    if sat_limit:", "            - params[3] * x * np.abs(x)\n        )\n\n    if sat_limit:"),
     """
from hrosailing.core.modelfunctions._models2d import concave_function as f
assert abs(f(-2.0, 0.0, 1.0, 5.0, 0.5, sat_limit=True) - 3.0) < 1e-9
""", "a negative argument and both downturn and saturation limit", "the parabola changes its sign for negative arguments")
CU = "polardiagram/_polardiagramcurve.py"
seed("C27-inplace-angle", "C27", CU,
     ("        if isinstance(wa, np.ndarray):\n            wa = wa.copy()\n", "        if isinstance(wa, np.ndarray) and wa.dtype == float:\n            wa = wa.copy()\n"),
     """
import numpy as np
from hrosailing.polardiagram import PolarDiagramCurve
pd = PolarDiagramCurve(lambda ws, wa: ws + wa)
a = np.array([-10, 20])
pd(5, a)
assert a[0] == -10, a
""", "an array of whole-number angles with one outside 0 to 360 degrees", "the caller's angles are modified")
seed("C07-port-180", "C07", PT,
     ("    mid = np.where(wa_resolution == 180)[0][0]\n", "    mid = len(wa_resolution) // 2\n"),
     """
from hrosailing.polardiagram import PolarDiagramTable as T
t = T([2, 4], [180, 200, 300], [[1, 2], [3, 4], [5, 6]]).symmetrize()
assert list(t.wind_angles) == [60, 160, 180, 200, 300], t.wind_angles
""", "a table on the port side (angles beyond 180) that contains the axis 180", "another angle disappears and 180 stays twice")
seed("C07-multisails-names", "C07", "polardiagram/_polardiagrammultisails.py",
     ("        return PolarDiagramMultiSails(pds, self._sails)\n", "        return PolarDiagramMultiSails(\n            pds, list(dict(sorted(zip(self._sails, pds))))\n        )\n"),
     """
from hrosailing.polardiagram import PolarDiagramTable as T, PolarDiagramMultiSails as M
a, b = T([2], [20], [[1]]), T([2], [20], [[7]])
m = M([a, b], ["jib", "genoa"]).symmetrize()
assert m["jib"].boat_speeds[0][0] == 1
""", "at least two sails whose names are not in alphabetical order", "sails are attached to the tables of other sails")
WM = "models/weather_model.py"
seed("C22-file-seconds", "C22", WM,
     [(WM, '        if isinstance(o, datetime):\n            return o.strftime("%d.%m.%Y:%X")', '        if isinstance(o, datetime):\n            return o.strftime("%d.%m.%Y:%H:%M:00")')],
     """
import os, tempfile, datetime as dt, numpy as np
from hrosailing.models.weather_model import GriddedWeatherModel as G
t = [dt.datetime(2020, 1, 1, 10, 0, 0), dt.datetime(2020, 1, 1, 10, 0, 30)]
wm = G(np.zeros((2, 1, 1, 1)), t, [1.0], [2.0], ["TWS"])
with tempfile.TemporaryDirectory() as d:
    wm.to_file(os.path.join(d, "w"))
    assert G.from_file(os.path.join(d, "w")).grid[0] == t
""", "grid times that are not on whole minutes", "the times of the model read back differ")
seed("C22-before-first-time", "C22", WM,
     ("    outside_left = [pt < left for pt, left in zip(point, fst)]\n", "    outside_left = [pt < left for pt, left in zip(point[1:], fst[1:])]\n"),
     """
import datetime as dt, numpy as np
from hrosailing.models.weather_model import GriddedWeatherModel as G
t = [dt.datetime(2020, 1, 1, 10), dt.datetime(2020, 1, 1, 12)]
wm = G(np.arange(2.0).reshape(2, 1, 1, 1), t, [1.0], [2.0], ["TWS"])
try:
    r = wm.get_weather((dt.datetime(2020, 1, 1, 9), 1.0, 2.0))
except ValueError:
    pass
else:
    raise AssertionError(r)
""", "a query earlier than the first grid time", "weather is extrapolated between the first and the last time")
seed("C22-lon-cell-weight", "C22", WM,
     ("        lamb = (comp - val1) / (val0 - val1)\n", "        lamb = (comp - val1) / (val0 - val1)\n        if dim == 2 and val0 < 0 < val1:\n            lamb = abs(comp) / (abs(val0) + val1)\n"),
     """
import datetime as dt, numpy as np
from hrosailing.models.weather_model import GriddedWeatherModel as G
t = [dt.datetime(2020, 1, 1, 10)]
wm = G(np.arange(2.0).reshape(1, 1, 2, 1), t, [1.0], [-1.0, 3.0], ["TWS"])
r = wm.get_weather((t[0], 1.0, 0.5))
assert abs(r["TWS"] - 0.375) < 1e-9, r
""", "a cell that contains the zero meridian in its inside", "wrong weights of the two longitudes")
DA = "core/data.py"
seed("C10-numbers-among-text", "C10", DA,
     ("            if type(entry) is not curr_type:\n", "            if not isinstance(entry, (curr_type, float)):\n"),
     """
from hrosailing.core.data import Data
try:
    d = Data.from_dict({"a": ["x", None, 1.5]})
except ValueError:
    pass
else:
    raise SystemExit(f"accepted as {d.type('a')}")
""", "a column that begins with text and contains a number later on", "columns of mixed type are accepted as text columns")
seed("C10-delete-range", "C10", DA,
     ("                    k: [v for i, v in enumerate(value) if i not in key]\n", "                    k: [v for i, v in enumerate(value) if i not in range(min(key), max(key) + 1) or i not in sorted(key) and len(key) < 3]\n"),
     """
from hrosailing.core.data import Data
d = Data.from_dict({"a": [float(i) for i in range(8)]})
d.delete([1, 3, 6])
assert d["a"] == [0.0, 2.0, 4.0, 5.0, 7.0] and d.n_rows == 5, d["a"]
""", "at least three row numbers with gaps between them", "rows between the deleted ones disappear")
seed("C10-strip-zero-rows", "C10", DA,
     ("                value[end_leading_nones] is None\n", "                not value[end_leading_nones]\n"),
     """
from hrosailing.core.data import Data
d = Data.from_dict({"a": [None, 0.0, 1.0], "b": [None, None, 2.0]})
d.strip("rows")
assert d["a"] == [0.0, 1.0] and d["b"] == [None, 2.0], d.data
""", "leading rows whose only entries are zero or empty text", "records with the value zero are stripped")
seed("C32-extend-by-position", "C32", DA,
     ("                key: value + other.data[key]\n                for key, value in self.data.items()\n                if key in other.data\n",
      "                key: value + new\n                for (key, value), new in zip(\n                    self.data.items(), other.data.values()\n                )\n                if key in other.data\n"),
     """
from hrosailing.core.data import WeightedPoints as W
w = W({"TWS": [1.0], "BSP": [2.0]}, [0.5])
w.extend(W({"BSP": [4.0], "TWS": [3.0]}, [0.25]))
assert w.data == {"TWS": [1.0, 3.0], "BSP": [2.0, 4.0]}, w.data
""", "two dictionaries with their keys in different orders", "boat speeds become wind speeds")
seed("C32-mask-weights-prefix", "C32", DA,
     ("        return WeightedPoints(data=self.data[mask], weights=self.weights[mask])\n",
      "        if isinstance(self.data, Data) and not np.all(mask):\n            return WeightedPoints(self.data[mask], self.weights[: np.sum(mask)])\n        return WeightedPoints(data=self.data[mask], weights=self.weights[mask])\n"),
     """
import numpy as np
from hrosailing.core.data import WeightedPoints as W, Data
w = W(Data.from_dict({"TWS": [1.0, 2.0, 3.0]}), [0.1, 0.2, 0.3])[np.array([True, False, True])]
assert list(w.weights) == [0.1, 0.3], w.weights
""", "a mask on a Data table that selects a later point but not all earlier ones", "points get the weights of other points")
seed("C11-text-after-numbers", "C11", DA,
     ("        except (TypeError, ValueError):\n            return False, list_\n", "        except (TypeError, ValueError):\n            if i == 0:\n                return False, list_\n            new_list.append(None)\n"),
     """
from hrosailing.core.data import Data
d = Data.from_dict({"foo": ["1", "2", "north"]})
d.hrosailing_standard_format()
assert d["foo"] == ["1", "2", "north"], d["foo"]
""", "a text column that begins with text that reads as a number", "entries of text columns are lost")
seed("C11-stale-names", "C11", DA,
     ("            i = 0\n            while new_key in self.keys():\n                i += 1\n", "            i = 0\n            if new_key in self.keys():\n                i = sum(\n                    k.startswith(f\"{standard_key}(\") for k in self.keys()\n                )\n            while i == 0 and new_key in self.keys() or (\n                new_key == standard_key and i > 0\n            ):\n                i += 1\n"),
     """
from hrosailing.core.data import Data
d = Data.from_dict({"TWS": [1.0], "TWS(Control value 2)": [2.0], "wind speed": [3.0]})
d.hrosailing_standard_format()
assert sorted(d.data.values()) == [[1.0], [2.0], [3.0]], d.data
""", "a column that already carries the next control number", "raises instead of taking the next free number")
IM = "processing/imputator.py"
seed("C12-filled-as-source", "C12", IM,
     ("            data[key][i] = self._fill_between(\n                key, data[key][start_idx], data[key][end_idx], mu\n            )\n            self._n_filled += 1\n",
      "            data[key][i] = self._fill_between(\n                key, data[key][start_idx], data[key][end_idx], mu\n            )\n            self._n_filled += 1\n            idx.append(i)\n"),
     """
from datetime import datetime, timedelta
from hrosailing.core.data import Data
from hrosailing.processing.imputator import FillLocalImputator
t = [datetime(2020, 1, 1) + timedelta(seconds=s) for s in (0, 30, 60, 90)]
d = Data.from_dict({"datetime": t, "a": [0.0, None, None, 9.0]})
f = FillLocalImputator(fill_between=lambda n, l, r, mu: l + mu * (r - l) + 1)
assert f.impute(d)["a"] == [0.0, 4.0, 7.0, 9.0], d["a"]
""", "two missing entries in a row between two measurements, with a fill function other than the left value", "filled values serve as measurements")
SP = "processing/sampler.py"
seed("C21-tolerant-hull", "C21", SP,
     ("            mask = np.all((ineqs[:, :2] @ wind.T).T <= -ineqs[:, 2], axis=1)\n            samples.extend", "            mask = np.all(\n                (ineqs[:, :2] @ wind.T).T <= -ineqs[:, 2] + 1e-2, axis=1\n            )\n            samples.extend"),
     """
import numpy as np
from hrosailing.processing.sampler import UniformRandomSampler
pts = np.array([[0.0, 0.0], [1.0, 1.0], [0.0, 1.0]])
s = UniformRandomSampler(2000).sample(pts)
assert np.all(s[:, 1] >= s[:, 0] - 1e-9), s[s[:, 1] < s[:, 0]]
""", "candidates just outside the hull", "sample points outside the convex hull")
seed("C21-early-end", "C21", SP,
     ("        if ub is None:\n            t *= 2\n", "        if ub is not None and abs(ub - lb) < 1e-2 * ub:\n            break\n        if ub is None:\n            t *= 2\n"),
     """
import numpy as np
from hrosailing.processing.sampler import FibonacciSampler, ArchimedeanSampler
rng = np.random.default_rng(3)
for k in range(30):
    p = rng.random((8, 2)) * [20, 360]
    for S in (FibonacciSampler, ArchimedeanSampler):
        n = len(S(60).sample(p))
        assert n == 60, n
""", "a search that needs a finer scale than one percent", "samples of the wrong size")

PI = "pipeline/pipeline.py"
PIPE = """
import numpy as np
from hrosailing.pipeline import PolarPipeline
from hrosailing.pipeline.extensions import PipelineExtension
from hrosailing.models import InfluenceModel
from hrosailing.processing import DataHandler, AllOneWeigher
from hrosailing.core.data import Data
class H(DataHandler):
    def handle(self, data):
        return Data.from_dict({k: [float(r[j]) for r in data] for j, k in enumerate(("TWS", "TWA", "BSP"))})
class Ext(PipelineExtension):
    def process(self, wp):
        self.wp = wp
        return lambda ws, wa: 0.0
ext = Ext()
field = [[5, 90, 4], [7, 80, 5], [9, 70, 6], [11, 60, 7]]
"""
seed("C19-fit-on-test", "C19", PI,
     ("            preproc_test_data, test_statistics = self._preprocess(\n                test_data,\n                False,\n            )",
      "            preproc_test_data, test_statistics = self._preprocess(\n                test_data,\n                self.testing,\n            )"),
     PIPE + """
class M(InfluenceModel):
    def fit(self, d):
        self.n = d.n_rows
        return {}
    def remove_influence(self, d):
        return np.array([d["TWS"], d["TWA"], d["BSP"]], dtype=float).T
    def add_influence(self, pd, d):
        return d
m = M()
from hrosailing.processing import RemoveOnlyImputator
p = PolarPipeline(data_handler=H(), extension=ext, influence_model=m, imputator=RemoveOnlyImputator())
p([field], [field[:2]], pre_expander_filtering=False, pre_filtering=False, filtering=False)
assert m.n == 4, m.n
""", "a fitted influence model and test data", "the influence model is fitted to the test data")
seed("C19-switch-sticks", "C19", PI,
     ("        return dict_[key] if key in dict_ else default",
      "        return dict_[key] if key in dict_ else getattr(self, key, default)"),
     PIPE + """
from hrosailing.processing import RemoveOnlyImputator
p = PolarPipeline(data_handler=H(), extension=ext, imputator=RemoveOnlyImputator())
off = dict(pre_expander_filtering=False, pre_filtering=False, filtering=False)
p([field], injecting=False, **off)
assert len(ext.wp.data) == 4
p([field], **off)
assert len(ext.wp.data) == 1004, len(ext.wp.data)
""", "a second run of the same pipeline without a switch that was off in the first", "switches of earlier runs stay off")
seed("C19-injected-weights", "C19", PI,
     ("            pts_to_inject, injector_statistics = _collect(\n                self.injector, self.injector.inject, preproc_training_data\n            )",
      "            pts_to_inject, injector_statistics = _collect(\n                self.injector, self.injector.inject, preproc_training_data\n            )\n            if len(pts_to_inject.weights):\n                pts_to_inject.weights[-1] = preproc_training_data.weights.max()"),
     PIPE + """
from hrosailing.processing import Weigher
class W(Weigher):
    def weigh(self, points):
        return np.full(len(points), 0.5)
from hrosailing.processing import RemoveOnlyImputator
p = PolarPipeline(data_handler=H(), extension=ext, weigher=W(), imputator=RemoveOnlyImputator())
p([field], pre_expander_filtering=False, pre_filtering=False, filtering=False)
assert np.all(ext.wp.weights[4:] == 1), ext.wp.weights
""", "weights below one before injection", "injected weights are changed")
seed("C19-zeros-unsorted", "C19", "processing/injector.py",
     ("        ws = np.linspace(min(ws), max(ws), self.n_zeros)", "        ws = np.linspace(ws[0], ws.max(), self.n_zeros)"),
     """
import numpy as np
from hrosailing.core.data import WeightedPoints
from hrosailing.processing import ZeroInjector
r = ZeroInjector(3).inject(WeightedPoints(np.array([[8.0, 90, 5], [4.0, 80, 4], [12.0, 70, 6]]), 1))
assert list(r.data[:3, 0]) == [4, 8, 12], r.data
""", "a first point that does not have the least wind speed", "zeros are not injected below the first wind speed")

EX = "pipeline/extensions.py"
seed("C20-mirrored-neighbourhood", "C20", EX,
     ("        weighted_points.data[:, :2] - point\n", "        point - weighted_points.data[:, :2]\n"),
     """
import numpy as np
from hrosailing.core.data import WeightedPoints
from hrosailing.pipeline.extensions import TableExtension
from hrosailing.processing import Polytope, ArithmeticMeanInterpolator
wp = WeightedPoints(np.array([[5.0, 50.0, 4.0], [9.0, 50.0, 6.0]]), 1)
nb = Polytope(np.array([[1.0, 0], [-1, 0], [0, 1], [0, -1]]), np.array([4.0, 0.5, 1, 1]))
pd = TableExtension(([6, 12], [50]), nb).process(wp)
assert list(pd.boat_speeds[0]) == [6, 0], pd.boat_speeds
""", "a neighbourhood that is not symmetric", "points on the wrong side of a grid point are considered")
seed("C20-lost-weights", "C20", EX,
     ("    interpolated_value = interpolator.interpolate(\n        weighted_points[considered], point\n    )",
      "    considered_points = weighted_points[considered]\n    if len(considered_points.weights) < len(weighted_points.weights):\n        considered_points.weights = weighted_points.weights[\n            : len(considered_points.weights)\n        ]\n    interpolated_value = interpolator.interpolate(considered_points, point)"),
     """
import numpy as np
from hrosailing.core.data import WeightedPoints
from hrosailing.pipeline.extensions import PointcloudExtension
from hrosailing.processing import Ball, Sampler, Interpolator
class S(Sampler):
    def __init__(self): pass
    def sample(self, pts): return np.array([[9.0, 50.0]])
class I(Interpolator):
    def interpolate(self, w_pts, grid_pt): return float(w_pts.weights.sum())
wp = WeightedPoints(np.array([[5.0, 50.0, 4.0], [9.0, 50.0, 6.0]]), np.array([0.25, 0.75]))
pd = PointcloudExtension(S(), Ball(norm=lambda p: np.abs(p).max(axis=1), radius=1), I()).process(wp)
assert pd.points[0, 2] == 0.75, pd.points
""", "different weights and a neighbourhood that does not hold a first part of the points", "points are interpolated with the weights of others")
seed("C20-last-speed", "C20", EX,
     ("    ws_max = round(points[:, 0].max())\n    ws_resolution = list(range(ws_min, ws_max + 1, 2))",
      "    ws_max = int(points[:, 0].max())\n    ws_resolution = list(range(ws_min, ws_max + 1, 2))"),
     """
import numpy as np
from hrosailing.core.data import WeightedPoints
from hrosailing.pipeline.extensions import TableExtension
pd = TableExtension().process(WeightedPoints(np.array([[4.0, 50.0, 4.0], [7.75, 50.0, 6.0]]), 1))
assert list(pd.wind_speeds) == [4, 6, 8], pd.wind_speeds
""", "a greatest wind speed that is rounded up to a step", "the last wind speed is missing")

EXP = "pipeline/expander.py"
seed("C30-number-of-failure", "C30", EXP,
     ("                none_idxs.append(idx)", "                none_idxs.append(\n                    idx\n                    if self._exception_handling_mode == \"ignore\"\n                    else len(weather_list)\n                )"),
     """
from datetime import datetime
from hrosailing.core.data import Data
from hrosailing.pipeline.expander import WeatherExpander
class M:
    def get_weather(self, p):
        if p[1] < 2: raise ValueError
        return {"gust": p[1]}
d = Data.from_dict({"datetime": [datetime(2020, 1, 1)] * 4, "lat": [0.0, 1.0, 2.0, 3.0], "lon": [0.0] * 4})
assert WeatherExpander(M()).expand(d)["lat"] == [2.0, 3.0]
""", "mode delete and at least two records without weather", "the wrong records are deleted")
seed("C30-weather-of-place", "C30", EXP,
     [(EXP, "        weather_list = []\n", "        weather_list = []\n        last = None, None\n"),
      (EXP, "                weather = self._weather_model.get_weather([datetime, lat, lon])\n",
       "                if last[0] == (lat, lon):\n                    weather = last[1]\n                else:\n                    weather = self._weather_model.get_weather(\n                        [datetime, lat, lon]\n                    )\n                last = (lat, lon), weather\n")],
     """
from datetime import datetime
from hrosailing.core.data import Data
from hrosailing.pipeline.expander import WeatherExpander
class M:
    def get_weather(self, p): return {"gust": float(p[0].hour)}
d = Data.from_dict({"datetime": [datetime(2020, 1, 1, h) for h in range(3)], "lat": [0.0, 1.0, 1.0], "lon": [0.0] * 3})
assert WeatherExpander(M()).expand(d)["gust"] == [0.0, 1.0, 2.0]
""", "two subsequent records at the same place", "a record gets the weather of an earlier time")
seed("C30-mark-own-keys", "C30", EXP,
     ("            if key in data.keys():\n                weather_data.rename(key, f\"{key}(duplicate)\")",
      "            if key in data.keys() and any(\n                entry is not None for entry in data[key]\n            ):\n                weather_data.rename(key, f\"{key}(duplicate)\")"),
     """
from datetime import datetime
from hrosailing.core.data import Data
from hrosailing.pipeline.expander import WeatherExpander
class M:
    def get_weather(self, p): return {"TWS": 3.0}
d = Data.from_dict({"datetime": [datetime(2020, 1, 1)] * 2, "lat": [0.0, 1.0], "lon": [0.0] * 2, "TWS": [None, None]})
r = WeatherExpander(M()).expand(d)
assert r.n_rows == 2 and r["TWS(duplicate)"] == [3.0, 3.0]
""", "a field of the weather that the table has without any entry", "the column gets twice as many entries")

QA = "pipeline/quality_assurance.py"
DEMO29 = """
import numpy as np
import hrosailing.pipeline.quality_assurance as qa
"""
seed("C29-signed-square", "C29", QA,
     ("""            "average_quadratic_error": np.mean([diff**2 for diff in diffs]),
        }
        return statistics


class Com""", """            "average_quadratic_error": np.mean(diffs) ** 2 + np.var(diffs, ddof=min(1, len(diffs) - 1)),
        }
        return statistics


class Com"""), DEMO29 + """
r = qa.MinimalQualityAssurance().check(lambda ws, wa: 0.0, [[1.0, 10.0, 1.0], [2.0, 20.0, 3.0]])
assert abs(r["average_quadratic_error"] - 5) < 1e-9, r
""", "two or more test points with different errors", "the quadratic error uses the sample variance instead of the mean of squares")
seed("C29-cells", "C29", QA,
     ("            test_tuple = round(ws), round(wa)\n", "            test_tuple = round(ws), round(wa) % 360\n"), DEMO29 + """
r = qa.ComformingQualityAssurance().check(lambda ws, wa: 0.0, [[1.0, 0.2, 1.0], [1.0, 359.9, 3.0]])
assert r["test_covering"] == 2 and r["average_local_test_data_difference"] == 0, r
""", "test data near 0 and near 360 degrees at the same wind speed", "different cells are merged")
seed("C29-zero", "C29", QA,
     ("            abs(polar_diagram(ws, wa))\n            for ws in np.linspace(0, 20, 20)\n            for wa in [0, 360]\n",
      "            abs(polar_diagram(ws, wa))\n            for ws in np.linspace(0, 20, 20)\n            for wa in [0, 0]\n"), DEMO29 + """
r = qa.ComformingQualityAssurance().check(lambda ws, wa: wa / 360, [[1.0, 10.0, 1.0]])
assert abs(r["max_zero_val"] - 1) < 1e-9 and abs(r["average_zero_val"] - 0.5) < 1e-9, r
""", "a diagram with different values at 0 and 360 degrees", "the values at 360 degrees are not looked at")

DH = "processing/datahandler.py"
seed("C31-small-minutes", "C31", DH,
     ("        degrees = int(value / 100)\n", "        degrees = round(value / 100)\n"), """
import hrosailing.processing.datahandler as dh
r = dh.NMEAFileHandler()._from_nmea_format("5455.5")
assert abs(r - (54 + 55.5 / 60)) < 1e-9, r
""", "a position with more than 50 minutes", "the minutes are counted from the next degree", )
seed("C31-unwanted", "C31", DH,
     ("            self._sentence_filter = lambda line: all(\n                sentence not in line for sentence in unwanted_sentences\n",
      "            self._sentence_filter = lambda line: not all(\n                sentence in line for sentence in unwanted_sentences\n"), """
import os, tempfile
import hrosailing.processing.datahandler as dh
def line(body):
    c = 0
    for ch in body: c ^= ord(ch)
    return f"${body}*{c:02X}\\n"
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "a.vdr")
    with open(p, "w") as f:
        f.writelines([line("IIMWV,199,T,18.6,N,A"), line("GPHDT,7.5,T"), line("IIVHW,100.5,T,100.0,M,7.5,N,12.5,K")])
    d = dh.NMEAFileHandler(unwanted_sentences=["HDT", "VHW"]).handle(p)
assert set(d.keys()) == {"TWA", "TWS"} and d["TWS"] == [18.6], d
""", "two or more unwanted sentences", "unwanted sentences are read")
seed("C31-array-columns", "C31", DH,
     ("            data_dict = {key: list(arr[:, i]) for i, key in enumerate(keys)}\n",
      "            data_dict = {key: list(arr[:, i]) for i, key in enumerate(sorted(keys, key=len))}\n"), """
import numpy as np
import hrosailing.processing.datahandler as dh
d = dh.ArrayHandler().handle((np.array([[1.0, 2.0, 3.0]]), ("wind speed", "TWA", "BSP")))
assert d["TWS"] == [1.0] and d["TWA"] == [2.0] and d["BSP"] == [3.0], d
""", "names that are not ordered by length", "columns get the names of others")
seed("C31-csv-date", "C31", DH,
     [(DH, "            return datetime.strptime(entry.strip(), self._date_format)\n", "            return datetime.strptime(\n                entry.strip(), self._date_format\n            ).replace(microsecond=0)\n")], """
import os, tempfile
from datetime import datetime
import hrosailing.processing.datahandler as dh
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "a.csv")
    with open(p, "w") as f:
        f.write("datetime,BSP\\n2020-01-02 03:04:05.250000,4.5\\n")
    d = dh.CsvFileHandler().handle(p)
assert d["datetime"] == [datetime(2020, 1, 2, 3, 4, 5, 250000)], d["datetime"]
""", "time stamps with fractions of a second", "the fractions are dropped")

GL = "models/globe_model.py"
seed("C23-path-ends", "C23", GL,
     ("        angles = np.linspace(0, angle, res)\n", "        angles = np.linspace(0, angle, res, endpoint=bool(angle < 3))\n"), """
import numpy as np
from hrosailing.models.globe_model import SphericalGlobe
p = SphericalGlobe().shortest_path((0.0, 0.0), (0.0, 175.0), 11)
assert abs(p[-1, 1] - 175) < 1e-6, p[-1]
""", "places more than 172 degrees apart", "the path does not arrive")
seed("C23-lon-half", "C23", GL,
     ("    x, y, z = pts.transpose()\n    latlon = np.column_stack([np.arcsin(np.clip(z, -1, 1)), np.arctan2(y, x)])\n",
      "    x, y, z = np.asarray(pts).transpose()\n    rho = np.hypot(x, y)\n    lon = np.arcsin(np.clip(y / np.where(rho > 0, rho, 1), -1, 1))\n    lon = np.where(x < 0, np.pi - lon, lon)\n    latlon = np.column_stack([np.arcsin(np.clip(z, -1, 1)), lon])\n"), """
from hrosailing.models.globe_model import SphericalGlobe
g = SphericalGlobe()
r = g.lat_lon(g.project([[10.0, -120.0]]))
assert abs(r[0, 1] + 120) < 1e-6, r
""", "western longitudes beyond 90 degrees", "longitudes beyond 180 degrees are returned")
seed("C23-radius", "C23", GL,
     ("        points = np.array(points) / self._earth_radius\n", "        points = np.array(points) / (self._earth_radius if self._earth_radius > 1 else 3440)\n"), """
import numpy as np
from hrosailing.models.globe_model import FlatMercatorProjection
g = FlatMercatorProjection(earth_radius=0.5)
p = [[10.0, 20.0]]
assert np.allclose(g.lat_lon(g.project(p)), p), g.lat_lon(g.project(p))
""", "a radius of at most 1 (a unit map)", "the inverse of the projection uses another radius")

SMO = "processing/smoother.py"
SMH = """
from datetime import datetime, timedelta
from hrosailing.core.data import Data
from hrosailing.processing.smoother import AffineSmoother
def smooth(ts, ys, span):
    d = Data.from_dict({"datetime": [datetime(2020, 1, 1) + timedelta(seconds=t) for t in ts], "TWS": [float(y) for y in ys]})
    return AffineSmoother(timedelta(seconds=span)).smooth(d)["TWS"]
"""
seed("C13-even-sampling", "C13", SMO,
     [(SMO, "            interval_bounds_x.extend([(x_lb, 1 / 2 * (x + x_after))])\n", "            interval_bounds_x.extend([(x_lb, x + 1 / 2 * (xs[1] - xs[0]))])\n"),
      (SMO, "            x_lb = 1 / 2 * (x + x_after)\n", "            x_lb = x + 1 / 2 * (xs[1] - xs[0])\n")], SMH + """
r = smooth([0, 10, 70, 80], [4, 4, 8, 8], 40)
assert abs(r[1] - (4 + 10 / 20 * 0)) < 1 and r[1] <= 6 - 1e-6, r
assert abs(r[2] - 8) < 1e-6 or r[2] > 6, r
r = smooth([0, 100, 200, 260, 400], [4, 4, 4, 8, 8], 20)
assert abs(r[2] - 4) < 1e-9 and abs(r[3] - 8) < 1e-9, r
""", "measurements that are not evenly spaced", "stretches end elsewhere")
seed("C13-tolerant", "C13", SMO,
     ("            if y == y_after:\n", "            if abs(y - y_after) < 0.01:\n"), SMH + """
r = smooth([60 * i for i in range(200)], [10 + 0.005 * i for i in range(200)], 1)
assert abs(r[150] - 10.75) < 0.1, r[150]
""", "values drifting by tiny steps", "the whole drift is taken for one constant stretch")
seed("C13-days", "C13", SMO,
     ("        xs = [(time - start_time).total_seconds() for time in data[\"datetime\"]]\n", "        xs = [(time - start_time).seconds for time in data[\"datetime\"]]\n"), SMH + """
r = smooth([0, 50000, 86400 + 40000, 86400 + 60000], [4, 4, 8, 8], 30)
assert r == [4, 4, 8, 8], r
""", "a series longer than a day, or time stamps with fractions", "time differences lose whole days")

RD = "polardiagram/_reading.py"
PT = "polardiagram/_polardiagramtable.py"
CSV = """
import os, tempfile
import numpy as np
import hrosailing.polardiagram as pol
from hrosailing.polardiagram import from_csv
def back(pd, name="a.csv", **kw):
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, name)
        pd.to_csv(p, **kw)
        return from_csv(p, **kw)
"""
seed("C08-array-digits", "C08", PT,
     ("        csv_writer = csv.writer(file, delimiter=\"\\t\")\n        csv_writer.writerow([r\"TWA\\TWS\"] + list(self.wind_speeds))\n\n        self._write_rows(csv_writer)\n",
      "        csv_writer = csv.writer(file, delimiter=\"\\t\")\n        csv_writer.writerow([r\"TWA\\TWS\"] + list(self.wind_speeds))\n\n        rows = np.column_stack((self.wind_angles, self.boat_speeds))\n        csv_writer.writerows([[f\"{x:.6g}\" for x in row] for row in rows])\n"), CSV + """
t = pol.PolarDiagramTable([6, 8], [52, 60], [[1.23456789, 2], [3, 4]])
r = back(t, fmt="array")
assert np.array_equal(r.boat_speeds, t.boat_speeds), r.boat_speeds
""", "numbers with more than six digits in the array format", "digits are lost")
seed("C08-zero-cell", "C08", RD,
     ("        bsps.append([literal_eval(bsp) if bsp != \"\" else 0 for bsp in row[1:]])\n", "        bsps.append([abs(literal_eval(bsp)) if bsp != \"\" else 0 for bsp in row[1:]])\n"), CSV + """
t = pol.PolarDiagramTable([6, 8], [52, 60], [[-1.0, 2], [3, 4]])
r = back(t, fmt="orc")
assert np.array_equal(r.boat_speeds, t.boat_speeds), r.boat_speeds
""", "negative boat speeds (fitted tables) in the orc or opencpn format", "they come back positive")
seed("C08-sail-order", "C08", "polardiagram/_polardiagrammultisails.py",
     ("        sails = next(csv_reader)[1:]\n", "        sails = [sail for sail in next(csv_reader)[1:] if sail]\n"), CSV + """
t = [pol.PolarDiagramTable([6, 8], [52, 60], [[i, 2], [3, 4]]) for i in range(3)]
r = back(pol.PolarDiagramMultiSails(t, ["jib", "", "spi"]))
assert r.sails == ["jib", "", "spi"] and np.array_equal(r["spi"].boat_speeds, t[2].boat_speeds), r.sails
""", "a sail with an empty name", "sails disappear and tables swap")
seed("C08-curve-ints", "C08", "polardiagram/_polardiagramcurve.py",
     ("            csv_writer.writerow([\"Parameters\"] + list(self.parameters))\n", "            csv_writer.writerow(\n                [\"Parameters\"] + [round(p, 12) for p in self.parameters]\n            )\n"), CSV + """
from hrosailing.polardiagram._polardiagramcurve import MODEL_FUNCTIONS
r = back(pol.PolarDiagramCurve(MODEL_FUNCTIONS["ws_times_wa"], 1.25e-13))
assert tuple(r.parameters) == (1.25e-13,), r.parameters
""", "parameters with more than twelve decimals", "they are rounded")

PB = "polardiagram/_basepolardiagram.py"
SLI = """
import numpy as np
import hrosailing.polardiagram as pol
"""
seed("C09-orientation", "C09", PB,
     ("            if wind.shape[1] == 2:\n                return wind\n            if wind.shape[0] == 2:\n                return wind.T\n",
      "            if wind.shape[0] == 2:\n                return wind.T\n            if wind.shape[1] == 2:\n                return wind\n"), SLI + """
t = pol.PolarDiagramTable([6, 8], [52, 60], [[1, 2], [3, 4]])
p = t.get_points(np.array([[6, 52], [8, 60]]))
assert np.array_equal(p, [[6, 52, 1], [8, 60, 4]]), p
""", "exactly two wind records", "speeds and angles are mixed up")
seed("C09-near", "C09", "polardiagram/_polardiagrampointcloud.py",
     ("            slicing = np.where(np.abs(all_ws - ws_) <= range_)\n", "            slicing = np.where(np.isclose(all_ws, ws_, atol=range_))\n"), SLI + """
c = pol.PolarDiagramPointcloud([[100, 10, 1], [100.0005, 20, 2], [101, 30, 3], [99, 40, 4]])
_, s = c.get_slices([100], range_=0)
assert s[0].shape == (3, 1), s
""", "points just outside the range at high wind speeds", "a relative tolerance lets them in")
seed("C09-info", "C09", "polardiagram/_polardiagrammultisails.py",
     ("                for _ in range(slice.shape[1])\n", "                for _ in range(len(slice_collection[0][0]))\n"), SLI + """
t = [pol.PolarDiagramTable([6, 8], [52, 60], [[1, 2], [3, 4]]), pol.PolarDiagramTable([6, 8], [52, 60, 70], [[1, 2], [3, 4], [5, 6]])]
_, s, info = pol.PolarDiagramMultiSails(t, ["a", "b"]).get_slices([6], full_info=True)
assert info == [["a"] * 2 + ["b"] * 3], info
""", "sails with different numbers of wind angles", "the info does not match the columns")
seed("C09-row", "C09", PT,
     ("            if ws_ in self.wind_speeds:\n                bsp = self.boat_speeds.T[np.where(self.wind_speeds == ws_)][0]\n",
      "            if ws_ in self.wind_speeds:\n                bsp = self.boat_speeds.T[int(np.searchsorted(self.wind_speeds, int(ws_)))]\n"), SLI + """
t = pol.PolarDiagramTable([6, 6.5, 8], [52, 60], [[1, 2, 3], [4, 5, 6]])
_, s = t.get_slices([6.5])
assert np.array_equal(s[0][2], [2, 5]), s
""", "wind speeds that are not whole numbers, closer than one knot", "the slice shows another wind speed")

CB = "cruising/basics.py"
CON = """
import numpy as np
import hrosailing.polardiagram as pol
from hrosailing.cruising import convex_direction
"""
seed("C25-last", "C25", CB, ("        i1, i2 = vert[0], vert[-1]\n", "        i1, i2 = vert[0], len(wa) - 1\n"), CON + """
t = pol.PolarDiagramTable([6], [45, 90, 180, 270, 315, 330], [[5], [6], [4], [6], [5], [0.5]])
r = convex_direction(t, 6, 0)
assert [x.angle for x in r] == [45, 315], r
""", "slow wind angles at the end of the slice", "one direction is no vertex of the hull")
seed("C25-round", "C25", CB, ("        if wa[left] <= direction <= wa[right]:\n", "        if wa[left] <= np.around(direction) <= wa[right]:\n"), CON + """
t = pol.PolarDiagramTable([6], [45, 60, 90, 100, 180, 270, 315], [[5], [1], [6], [1], [6], [6], [5]])
r = convex_direction(t, 6, 90.4)
assert [x.angle for x in r] == [90, 180] and abs(r[0].proportion - 1) < 0.05 and r[0].proportion < 1, r
""", "directions within half a degree of a vertex", "the edge next to the right one is taken")
seed("C25-influence", "C25", CB, ("        bsp = im.add_influence(pd, influence_data)\n    bsp = np.array(bsp).ravel()\n    wa = ", "        bsp = np.minimum(bsp, im.add_influence(pd, influence_data))\n    bsp = np.array(bsp).ravel()\n    wa = "), CON + """
from hrosailing.models.influencemodel import InfluenceModel
class Current(InfluenceModel):
    def remove_influence(self, data): pass
    def add_influence(self, pd, influence_data): return [6, 12, 6, 6, 6]
    def fit(self, data): pass
t = pol.PolarDiagramTable([6], [45, 90, 135, 225, 315], [[6], [0], [6], [6], [6]])
r = convex_direction(t, 6, 90, im=Current(), influence_data={})
assert len(r) == 1 and r[0].angle == 90, r
""", "an influence that increases boat speeds", "it is ignored")

PJ = "plotting/projections.py"
PLOT = """
import numpy as np
from matplotlib.figure import Figure
import matplotlib.pyplot as plt
import hrosailing.plotting
import hrosailing.polardiagram as pol
"""
seed("C28-hull-speeds", "C28", PJ, ("    x1 = slice_[2, -1] * np.sin(np.deg2rad(slice_[1, -1]))\n", "    x1 = slice_[2, 0] * np.sin(np.deg2rad(slice_[1, -1]))\n"), PLOT + """
t = pol.PolarDiagramTable([6], [30, 120, 240, 300], [[4], [6], [6], [8]])
ax = Figure().add_subplot(projection="hro flat")
ax.plot(t, use_convex_hull=True)
wa, bsp = ax.lines[0].get_xydata().T
p, q = (b * np.array([np.cos(np.deg2rad(a)), np.sin(np.deg2rad(a))]) for a, b in ((30, 4), (300, 8)))
x = (p[0] * q[1] - p[1] * q[0]) / (q[1] - p[1])
assert abs(bsp[0] - x) < 1e-9 and abs(bsp[-1] - x) < 1e-9, (bsp, x)
""", "a hull whose first and last corner have different boat speeds", "the closing point of the drawn hull is off its edge")
seed("C28-hull-360", "C28", PJ, ("        slice_ = np.column_stack([[slice_[0, -1], 0, slice_[2, -1]], slice_])\n", "        slice_ = np.column_stack([[slice_[0, -1], 0, slice_[2, 0]], slice_])\n"), PLOT + """
class Own(pol.PolarDiagramPointcloud):
    def ws_to_slices(self, ws, **kw):
        return [np.array([[6.0] * 4, [45.0, 135.0, 225.0, 360.0], [5.0, 6.0, 6.0, 9.0]])]
pd = Own([[6, 45, 5], [6, 135, 6], [6, 225, 6], [6, 0, 9]])
ax = Figure().add_subplot(projection="hro flat")
ax.plot(pd, ws=[6], use_convex_hull=True)
wa, bsp = ax.lines[0].get_xydata().T
assert bsp[0] == bsp[-1] == 9, bsp
""", "a slice with a corner at 360 degrees", "the same direction has two boat speeds")
seed("C28-pairs", "C28", PJ, ("            i = list(labels).index(label)\n", "            i = sorted(labels).index(label)\n"), PLOT + """
t = pol.PolarDiagramTable([6, 8, 10], [30, 120, 240], [[4, 5, 6], [6, 7, 8], [7, 8, 9]])
ax = Figure().add_subplot(projection="hro flat")
ax.plot(t, ws=[10, 6, 8], colors=[(10, "red"), (6, "black")])
assert [ln.get_color() for ln in ax.lines] == ["red", "black", "blue"], [ln.get_color() for ln in ax.lines]
""", "wind speeds which are not given in ascending order and pairs of wind speed and colour", "slices get the colour of another wind speed")
seed("C28-info-runs", "C28", PJ, ("    intervals = {}\n    for j, entry in enumerate(info_):\n        if entry not in intervals:\n", "    intervals = {}\n    for j, entry in enumerate(info_):\n        entry = str(entry).lower()\n        if entry not in intervals:\n"), PLOT + """
t1 = pol.PolarDiagramTable([6], [0, 90, 180], [[1], [2], [3]])
t2 = pol.PolarDiagramTable([6], [45, 135], [[5], [7]])
m = pol.PolarDiagramMultiSails([t1, t2], ["Jib", "JIB"])
ax = Figure().add_subplot(projection="hro flat")
ax.plot(m)
xy = ax.lines[0].get_xydata()
assert np.isnan(xy).any(), xy
""", "sails whose names differ by upper and lower case only", "their points are joined")

BA = "cruising/basics.py"
WEATHER = """
import datetime as dt
import numpy as np
import hrosailing.polardiagram as pol
from hrosailing.cruising import cost_cruise, isochrone
from hrosailing.models import WeatherModel
T0 = dt.datetime(2021, 3, 4)
pd = pol.PolarDiagramCurve(lambda ws, wa, a: a * np.asarray(ws) * (2 - np.cos(np.deg2rad(wa))), 0.25)
class W(WeatherModel):
    def __init__(self, f):
        self.f = f
    def get_weather(self, p):
        t, lat, lon = p
        return {"UGRID": 0.0, "VGRID": -self.f((t - T0).total_seconds() / 3600, lat, lon)}
"""
seed("C26-first-speed", "C26", BA, ("        der = dt_ds(s, t)\n", "        der = der or dt_ds(s, t)\n"), WEATHER + """
end, s = isochrone(pd, (50, 3), T0, 90, W(lambda t, la, lo: 10 + 6 * t), total_time=2, min_nodes=400)
assert abs(float(s) - 2 * 8) < 0.2, s  # 5 knots at the start, 11 at the end
""", "weather that changes along the way", "the speed at the start is used for the whole way")
seed("C26-whole-hours", "C26", BA, ("    time = start_time + timedelta(hours=t)\n", "    time = start_time + timedelta(hours=int(t))\n"), WEATHER + """
end, s = isochrone(pd, (50, 3), T0, 90, W(lambda t, la, lo: 10 + 6 * t), total_time=1, min_nodes=400)
assert abs(float(s) - 6.5) < 0.1, s
""", "weather that changes within an hour", "the weather of the last full hour is used")
seed("C26-even-nodes", "C26", BA, ("        proj_start + s / total_s * (proj_end - proj_start) for s in t_s.t\n", "        proj_start + s * (proj_end - proj_start)\n        for s in np.linspace(0, 1, len(t_s.t))\n"), WEATHER + """
seen = []
def dens(t, lat, lon, wm):
    seen.append(((t - T0).total_seconds() / 3600, lat, lon))
    return 1.0
cost_cruise(pd, (0.0, 3.0), (1.0, 3.0), T0, W(lambda t, la, lo: 10.0), cost_fun_dens=dens)
v = 10 * 0.25
for t, lat, lon in seen:
    assert abs(t * v / 60 - lat) < 0.02, (t, lat)
""", "a cost density that depends on the place and a solver that takes uneven steps", "the cost is taken at places where the boat is at another time")
seed("C26-last-step", "C26", BA, ("    s = (total_time + der * s - t) / der\n", "    der = dt_ds(s, t)\n    s = (total_time + der * s - t) / der\n"), WEATHER + """
for v in (4.7, 4.4, 5.3, 6.1):
    end, s = isochrone(pd, (0.0, 3.0), T0, 90, W(lambda t, la, lo: 2 * v if t <= 1 else 2000.0), total_time=1.0, min_nodes=100)
    assert abs(float(s) - v) < 1e-6, (v, s)
""", "weather that changes within the last step", "the surplus time of the last step is taken back at the speed behind it")

RE = "processing/regressor.py"
REG = """
import numpy as np
from hrosailing.processing import LeastSquareRegressor, ODRegressor
rng = np.random.default_rng(3)
def table(n=40, lo=0):
    return np.column_stack((rng.uniform(2, 20, n), rng.uniform(lo, 359, n), np.zeros(n)))
"""
seed("C33-radians", "C33", RE, ("            ws, wa = wind[:, 0], wind[:, 1]\n", "            ws, wa = wind[:, 0], wind[:, 1] % 180\n"), REG + """
f = lambda ws, wa, a, b: a * ws * np.sin(np.deg2rad(wa / 2)) + b
d = table()
d[:, 2] = f(d[:, 0], d[:, 1], 0.4, 1.5)
r = LeastSquareRegressor(f, (1, 1))
r.fit(d)
assert np.allclose(r.optimal_params, (0.4, 1.5), atol=1e-4), r.optimal_params
""", "rows on the other side of the boat and a model that tells the sides apart", "these rows count for the mirrored wind angle")
seed("C33-standing", "C33", RE, ("        X, y = data[:, :2], data[:, 2]\n\n        self._popt", "        data = data[data[:, 2] > 0]\n        X, y = data[:, :2], data[:, 2]\n\n        self._popt"), REG + """
f = lambda ws, wa, a, b: a * ws + b
d = np.array([[2, 40, 0], [4, 50, 0], [6, 60, 1], [8, 70, 3.0]])
r = LeastSquareRegressor(f, (1, 1))
r.fit(d)
assert np.allclose(r.optimal_params, np.polyfit(d[:, 0], d[:, 2], 1), atol=1e-5), r.optimal_params
""", "rows with boat speed 0", "they do not count")
seed("C33-orthogonal", "C33", RE, ("        odr.set_job(fit_type=2)\n", "        odr.set_job(fit_type=2 if len(y) > 12 else 0)\n"), REG + """
f = lambda ws, wa, a, b: a * ws + b
d = np.array([[2, 40, 0], [4, 50, 5], [6, 60, 1], [8, 70, 9.0]])
r = ODRegressor(f, (1, 1))
r.fit(d)
assert np.allclose(r.optimal_params, np.polyfit(d[:, 0], d[:, 2], 1), atol=1e-4), r.optimal_params
""", "few noisy rows", "orthogonal distances are minimized instead of the differences of the boat speeds")
seed("C33-refit", "C33", RE, ("        self._popt = self._get_optimal_parameters(X, y)\n", "        popt = self._get_optimal_parameters(X, y)\n        if self._popt is None or not np.allclose(self._popt, popt, rtol=0.1):\n            self._popt = popt\n"), REG + """
f = lambda ws, wa, a: a * ws
r = LeastSquareRegressor(f, (1,))
for a in (0.5, 0.52):
    d = table()
    d[:, 2] = a * d[:, 0]
    r.fit(d)
assert np.allclose(r.optimal_params, 0.52, atol=1e-4), r.optimal_params
""", "a second fit to data that are slightly different", "the parameters of the first fit remain")

PP, PM = "polardiagram/_polardiagrampointcloud.py", "polardiagram/_polardiagrammultisails.py"
CLOUDS = """
import numpy as np
import hrosailing.polardiagram as pol
from hrosailing.processing import ArithmeticMeanInterpolator, Ball
"""
seed("C34-no-wind-points", "C34", PP, ("            points = points[np.where(points[:, 0] >= 0)]\n", "            points = points[np.where(points[:, 0] > 0)]\n"), CLOUDS + """
c = pol.PolarDiagramPointcloud(np.array([[0, 40, 0.0], [4, 50, 3.0]]))
assert len(c.points) == 2, c.points
""", "points with wind speed 0", "they are lost")
seed("C34-add-angles", "C34", PP, ("            if np.any((new_pts[:, 0] <= 0)):\n                raise ValueError(\"`new_pts` has non-positive wind speeds\")\n            new_pts[:, 1] %= 360\n",
     "            if np.any((new_pts[:, 0] <= 0)):\n                raise ValueError(\"`new_pts` has non-positive wind speeds\")\n            above = new_pts[:, 1] >= 360\n            new_pts[above, 1] -= 360\n            new_pts[new_pts[:, 1] < 0, 1] += 360\n"), CLOUDS + """
c = pol.PolarDiagramPointcloud(np.array([[4, 50, 3.0]]))
c.add_points(np.array([[6, 40, 2.0], [6, 760, 3.0]]))
assert list(c.points[:, 1]) == [50, 40, 40], c.points
""", "added points more than one turn away", "their wind angles are not between 0 and 360")
seed("C34-value-at-zero", "C34", PP, ("        if point.size:\n            return point[0][2]\n", "        if point.size and point[0][2]:\n            return point[0][2]\n"), CLOUDS + """
class Seven(ArithmeticMeanInterpolator):
    def interpolate(self, w_pts, grid_pt):
        return 7.0
c = pol.PolarDiagramPointcloud(np.array([[4, 50, 0.0], [4.2, 50, 3.0]]))
assert c(4, 50, Seven(50)) == 0, c(4, 50)
""", "a query at a point with boat speed 0", "the neighbours are asked instead")
seed("C34-names", "C34", PM, ("            index = self.sails.index(item)\n", "            index = sorted(self.sails).index(item)\n"), CLOUDS + """
t = [pol.PolarDiagramTable([6], [45 + i], [[i]]) for i in range(2)]
m = pol.PolarDiagramMultiSails(t, ["spi", "jib"])
assert m["spi"] is t[0] and m["jib"] is t[1]
""", "names that are not in alphabetical order", "the diagram of another sail is returned")
seed("C34-first-best", "C34", PM, ("        return max(diagram(ws, wa) for diagram in self._diagrams)\n", "        best = self._diagrams[0](ws, wa)\n        for diagram in self._diagrams[1:]:\n            bsp = diagram(ws, wa)\n            if bsp < best:\n                break\n            best = bsp\n        return best\n"), CLOUDS + """
t = [pol.PolarDiagramCurve(lambda ws, wa, a: a * ws, a) for a in (0.5, 0.4, 0.6)]
assert pol.PolarDiagramMultiSails(t)(10, 50) == 6
""", "three sails of which the second is the worst", "sails after the first worse one are not asked")

seed("C24-light-winds", "C24", "models/influencemodel.py", ("                for other_wa, other_ws in zip(wind_angles, wind_speeds)\n", "                for other_wa, other_ws in zip(wind_angles, wind_speeds)\n                if other_ws >= 1\n"), """
from hrosailing.models.influencemodel import WindAngleCorrectingInfluenceModel as W
m = W()
m.fit({"TWA": [40.0, 170.0, 300.0], "TWS": [5.0, 5.0, 0.9]})
n = W()
n.fit({"TWA": [40.0, 170.0, 300.0], "TWS": [5.0, 5.0, 1e-9]})
s = [x.get_latest_statistics()["wa_shift"] for x in (m, n)]
assert abs(s[0] - s[1]) > 1, s
""", "records with a true wind of less than one knot", "they do not count for the density of wind angles")
seed("C24-rounded-density", "C24", "models/influencemodel.py", ("key=lambda x: x[1])\n        self._wa_shift", "key=lambda x: round(float(x[1]), 3))\n        self._wa_shift"), """
from hrosailing.models.influencemodel import WindAngleCorrectingInfluenceModel as W
m = W()
m.fit({"TWA": [30.0, 310.0], "TWS": [5.0, 6.0]})
s = m.get_latest_statistics()["wa_shift"]
assert 165 < s < 175, s
""", "more than one wind angle with a density below a thousandth", "the first of them is taken, not that of least density")
STUB = """
import types
import numpy as np
import hrosailing.models.weather_model as W
from datetime import datetime, timedelta
class V:
    def __init__(self, name, dims, values, units=""):
        self.name, self.dimensions, self.values, self.units = name, dims, np.ma.array(values), units
    def __getitem__(self, i):
        return self.values[i]
    def __len__(self):
        return len(self.values)
    def __array__(self, *a, **k):
        return np.asarray(self.values)
    def __str__(self):
        return "<class 'netCDF4._netCDF4.Variable'>\\nfloat32 " + self.name + "(" + ", ".join(self.dimensions) + ")\\n    units: m"
class D:
    def __init__(self, *v):
        self.variables = {x.name: x for x in v}
    def __getitem__(self, k):
        return self.variables[k]
def model(further=None, *v):
    W.installed_netcdf, W.nc = True, types.SimpleNamespace(Dataset=lambda path: D(*v))
    return W.NetCDFWeatherModel("x.nc", None, further)
T = V("time", ("time",), [0, 1], "hours since 2020-01-01 00:00")
"""
seed("C22-west-to-east", "C22", WM, ("        lon_idx = len(lons) - idxs[2] - 1 if self._lons_flipped else idxs[2]\n", "        lon_idx = len(lons) - idxs[2] - 1 if self._lats_flipped and self._lons_flipped else idxs[2]\n"), STUB + """
d = np.arange(12.0).reshape(2, 2, 3)
m = model(None, T, V("latitude", ("latitude",), [50.0, 51.0]), V("longitude", ("longitude",), [3.0, 2.0, 1.0]), V("u", ("time", "latitude", "longitude"), d))
assert m.get_weather((datetime(2020, 1, 1, 1), 50.0, 3.0))["u"] == d[1, 0, 0]
""", "a NetCDF file with longitudes from east to west and latitudes from south to north", "the weather of the mirrored longitude is returned")
seed("C22-further-first", "C22", WM, ("                    new_idxs.append(self._further_indices[coord])\n", "                    new_idxs.insert(0, self._further_indices[coord])\n"), STUB + """
d = np.arange(16.0).reshape(2, 2, 2, 2)
m = model({"depth": 1}, T, V("latitude", ("latitude",), [50.0, 51.0]), V("longitude", ("longitude",), [2.0, 3.0]), V("u", ("time", "depth", "latitude", "longitude"), d))
assert m.get_weather((datetime(2020, 1, 1), 51.0, 2.0))["u"] == d[0, 1, 1, 0]
""", "a variable with a further dimension that is not the first", "the value at other indices is returned")
seed("C22-fetched-axes", "C22", WM, ("axes=(2, 0, 1, 3))", "axes=(2, 1, 0, 3) if len(lats) == len(lons) else (2, 0, 1, 3))"), """
import types
import pandas
import numpy as np
import hrosailing.models.weather_model as W
from datetime import datetime
t = [datetime(2020, 1, 1, k) for k in (0, 1)]
class H:
    def __init__(self, loc, a, b):
        self.loc = loc
    def fetch(self):
        return pandas.DataFrame({"temp": [self.loc[0] * 10 + self.loc[1]] * 2}, index=pandas.DatetimeIndex(t))
W.installed_meteostat, W.meteostat = True, types.SimpleNamespace(Point=lambda la, lo, alt: (la, lo), Hourly=H)
m = W.GriddedWeatherModel.from_meteostat([50, 51], [2, 3], t[0], t[1], ["temp"])
assert m.get_weather((t[0], 51, 2))["temp"] == 512
""", "as many latitudes as longitudes", "latitudes and longitudes of the fetched data are exchanged")

PW = "processing/weigher.py"
seed("C14-tenths-from-zero", "C14", PW, ("                                >= minw + span * i / 10\n", "                                >= span * i / 10\n"), """
import numpy as np
from hrosailing.processing.weigher import AllOneWeigher
w = AllOneWeigher()
w.set_statistics(np.array([0.5, 0.58, 0.67, 1.0]))
q = w.get_latest_statistics()["quantiles"]
assert q == [25, 25, 0, 25, 0, 0, 0, 0, 0, 25], q
""", "weights of which none is near 0", "the percentages count weights below their tenth")
seed("C15-operand-statistics", "C15", PW, ("        new_weights = self._map(weights, other_weights)\n        self.set_statistics(new_weights)\n", "        new_weights = self._map(weights, other_weights)\n        self.set_statistics(weights if len(new_weights) == 1 else new_weights)\n"), """
import numpy as np
from hrosailing.processing.weigher import AllOneWeigher
w = AllOneWeigher() * 2 + AllOneWeigher()
w.weigh(np.ones((1, 3)))
assert w.get_latest_statistics()["average_weight"] == 3, w.get_latest_statistics()
""", "a combination of two weighers weighing a single record", "the statistics are those of the first operand")

PJ = "plotting/projections.py"
FIG = """
import numpy as np
from matplotlib.figure import Figure
from matplotlib.colors import to_rgb
import hrosailing.plotting
import hrosailing.polardiagram as pol
t = pol.PolarDiagramTable([4, 6, 8], [40, 90, 140], np.arange(9.0).reshape(3, 3))
ax = Figure().add_subplot(projection="hro flat")
"""
seed("C28-legend-order", "C28", PJ, ("    slices = zip(ws, colors)\n", "    slices = zip(sorted(ws), colors)\n"), FIG + """
ax.plot(t, ws=[6, 8, 4], colors=["red", "green", "black"], show_legend=True)
leg = ax.get_legend()
got = {float(x.get_text()[4:]): h.get_color() for x, h in zip(leg.get_texts(), leg.get_lines())}
assert got == {6: "red", 8: "green", 4: "black"}, got
""", "wind speeds that are not given in ascending order, in given colours", "the legend gives the wind speeds the colours of others")
seed("C28-bar-range", "C28", PJ, ("            norm=Normalize(vmin=min(ws), vmax=max(ws)), cmap=color_map\n", "            norm=Normalize(vmin=ws[0], vmax=ws[-1]), cmap=color_map\n"), FIG + """
ax.plot(t, ws=[6, 8, 4], show_legend=True)
bar = ax.figure.axes[1]._colorbar
assert (bar.vmin, bar.vmax) == (4, 8), (bar.vmin, bar.vmax)
""", "a gradient with wind speeds that are not given in ascending order", "the colour bar spans the first and the last wind speed")
