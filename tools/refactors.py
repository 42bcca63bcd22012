"""refactors.py [ids]: behaviour-preserving edits, each applied to a copy of /repo; every check whose property names the file has to stay quiet"""
import json, os, pathlib, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = pathlib.Path(__file__).resolve().parent.parent
R = []


def edit(id, file, *pairs):
    R.append((id, file, pairs))


F, SM, IP, W, IM, NB = ("processing/" + x + ".py" for x in ("filter", "smoother", "interpolator", "weigher", "imputator", "neighbourhood"))
MS, PC, T, CU = ("polardiagram/_polardiagram" + x + ".py" for x in ("multisails", "pointcloud", "table", "curve"))
edit("quantile", F, ("        n_removable = int(len(wts) * self._percent / 100)\n        threshold = np.sort(wts)[min(n_removable, len(wts) - 1)]\n        return wts >= threshold\n",
     "        number = len(wts)\n        index = min(int(number * self._percent / 100), number - 1)\n        ascending = np.sort(wts)\n        return np.logical_not(wts < ascending[index])\n"))
edit("bound", F, ("        points_above_lower_bound = wts >= self._l_b\n        points_below_upper_bound = wts <= self._u_b\n\n        return points_above_lower_bound & points_below_upper_bound\n",
     "        return np.logical_and(self._l_b <= wts, wts <= self._u_b)\n"))
edit("smooth-bounds", SM, ("            interval_bounds_x.extend([(x_lb, 1 / 2 * (x + x_after))])\n            interval_bounds_y.append(y_lb)\n            x_lb = 1 / 2 * (x + x_after)\n            y_lb = y_after\n",
     "            middle = (x + x_after) / 2\n            interval_bounds_y.append(y_lb)\n            interval_bounds_x.append((x_lb, middle))\n            x_lb, y_lb = middle, y_after\n"))
edit("smooth-order", SM, ("        if any(after < time for time, after in zip(times, times[1:])):\n", "        if not all(times[i] <= times[i + 1] for i in range(len(times) - 1)):\n"))
edit("idw", IP, ("        if np.any(wts == 0):\n            mask = wts == 0\n            return pts[mask][0, 2]\n\n        wts = 1 / np.power(wts, self._p)\n        wts /= np.sum(wts)\n\n        return wts @ pts[:, 2]\n",
     "        at_point = wts == 0\n        if at_point.any():\n            return pts[at_point][0, 2]\n\n        inverse = 1 / np.power(wts, self._p)\n        shares = inverse / np.sum(inverse)\n        return np.sum(shares * pts[:, 2])\n"))
edit("mean-weigher", W, ("        weights = [\n            self._calculate_weight(\n                point, points=points, bsps=bsps, bsp=bsp, dimensions=dimensions\n            )\n            for point, bsp in zip(points, bsps)\n        ]\n        weights = np.array(weights)\n",
     "        weights = np.zeros(len(bsps))\n        for i, point in enumerate(points):\n            weights[i] = self._calculate_weight(\n                point,\n                points=points,\n                bsps=bsps,\n                bsp=bsps[i],\n                dimensions=dimensions,\n            )\n"))
edit("all-one", W, ("        if isinstance(points, np.ndarray):\n            size = len(points)\n        else:\n            size = points.n_rows\n        return np.ones(size)\n",
     "        n = len(points) if isinstance(points, np.ndarray) else points.n_rows\n        return np.full(n, 1.0)\n"))
edit("fill-rows", IM, ("        remove_rows = [\n            i\n            for i, _ in enumerate(data[\"datetime\"])\n            if any(data[key][i] is None for key in data.keys())\n        ]\n",
     "        remove_rows = []\n        for i in range(data.n_rows):\n            for key in data.keys():\n                if data[key][i] is None:\n                    remove_rows.append(i)\n                    break\n"))
edit("sails-call", MS, ("        return max(diagram(ws, wa) for diagram in self._diagrams)\n", "        speeds = [diagram(ws, wa) for diagram in self._diagrams]\n        return max(speeds)\n"))
edit("sails-info", MS, ("        slice_infos = [\n            [\n                sail\n                for sail, slice in zip(self.sails, slice_collection)\n                for _ in range(slice.shape[1])\n            ]\n            for slice_collection in zip(*all_slices)\n        ]\n        return slice_infos\n",
     "        slice_infos = []\n        for slice_collection in zip(*all_slices):\n            info = []\n            for sail, slice_ in zip(self.sails, slice_collection):\n                info.extend([sail] * slice_.shape[1])\n            slice_infos.append(info)\n        return slice_infos\n"))
edit("sails-slices", MS, ("        slices = [\n            np.column_stack(slice_collection)\n            for slice_collection in zip(*all_slices)\n        ]\n        return slices\n",
     "        n_slices = len(all_slices[0])\n        return [\n            np.concatenate([slices[i] for slices in all_slices], axis=1)\n            for i in range(n_slices)\n        ]\n"))
edit("cloud-call", PC, ("        cloud = self.points\n        point = cloud[np.logical_and(cloud[:, 0] == ws, cloud[:, 1] == wa)]\n        if point.size:\n            return point[0][2]\n",
     "        cloud = self.points\n        here = (cloud[:, 0] == ws) & (cloud[:, 1] == wa)\n        known = cloud[here, 2]\n        if len(known) > 0:\n            return known[0]\n"))
edit("cloud-wind", PC, ("        return np.array(sorted(list(set(self.points[:, 0]))))\n", "        return np.unique(self.points[:, 0])\n"))
edit("table-grid", "pipeline/extensions.py", ("        ws, wa = np.meshgrid(ws_resolution, wa_resolution)\n        grid_points = np.column_stack((ws.ravel(), wa.ravel()))\n",
     "        grid_points = np.array(\n            [[ws, wa] for wa in wa_resolution for ws in ws_resolution]\n        )\n"))
edit("table-minmax", "pipeline/extensions.py", ("    ws_min = round(points[:, 0].min())\n    ws_max = round(points[:, 0].max())\n    ws_resolution = list(range(ws_min, ws_max + 1, 2))\n",
     "    ws = points[:, 0]\n    ws_resolution = list(range(round(min(ws)), round(max(ws)) + 1, 2))\n"))
edit("inject", "processing/injector.py", ("        zero = np.zeros(self.n_zeros)\n        full = 360 * np.ones(self.n_zeros)\n        zeros = np.column_stack((ws, zero, zero))\n        fulls = np.column_stack((ws, full, zero))\n",
     "        zeros = np.zeros((self.n_zeros, 3))\n        zeros[:, 0] = ws\n        fulls = zeros.copy()\n        fulls[:, 1] = 360\n"))
edit("mercator-distance", "models/globe_model.py", ("        return np.linalg.norm(self.project(start) - self.project(end))\n", "        difference = self.project(end) - self.project(start)\n        return np.sqrt(np.sum(difference**2))\n"))
edit("mercator-matrix", "models/globe_model.py", ("        self._transform_mat = np.row_stack([zero, east, pole]).transpose()\n", "        self._transform_mat = np.column_stack(\n            [zero.ravel(), east.ravel(), pole.ravel()]\n        )\n"))
edit("influence-fit", "models/influencemodel.py", ("        min_angle, _ = min(zip(sample, counts), key=lambda x: x[1])\n", "        min_angle = sample[int(np.argmin(counts))]\n"))
edit("influence-add", "models/influencemodel.py", ("            wind = zip(influence_data[\"TWS\"], influence_data[\"TWA\"])\n            speed = [pd(ws, (wa + self._wa_shift) % 360) for ws, wa in wind]\n",
     "            speed = []\n            for ws, wa in zip(influence_data[\"TWS\"], influence_data[\"TWA\"]):\n                angle = (wa + self._wa_shift) % 360\n                speed.append(pd(ws, angle))\n"))
edit("weather-idx", "models/weather_model.py", ("        lat_idx = len(lats) - idxs[1] - 1 if self._lats_flipped else idxs[1]\n", "        lat_idx = idxs[1]\n        if self._lats_flipped:\n            lat_idx = len(lats) - 1 - lat_idx\n"))
edit("legend", "plotting/projections.py", ("    slices = zip(ws, colors)\n\n    ax.legend(\n        handles=[\n            Line2D([0], [0], color=color, lw=1, label=f\"TWS {ws}\")\n            for (ws, color) in slices\n        ],\n",
     "    handles = []\n    for wind_speed, color in zip(ws, colors):\n        line = Line2D([0], [0], color=color, lw=1, label=f\"TWS {wind_speed}\")\n        handles.append(line)\n\n    ax.legend(\n        handles=handles,\n"))
edit("gradient", "plotting/projections.py", ("    return [\n        (1 - coeff) * min_color + coeff * max_color for coeff in coefficients\n    ]\n", "    return [\n        min_color + coeff * (max_color - min_color) for coeff in coefficients\n    ]\n"))
edit("stats-mean", W, ("        new_weights = self._map(weights, other_weights)\n        self.set_statistics(new_weights)\n        return new_weights\n", "        combined = self._map(weights, other_weights)\n        super().set_statistics(combined)\n        return combined\n"))
edit("ball", NB, ("        try:\n            return self._norm(pts) <= self._radius\n        except (ValueError, IndexError):\n            return np.asarray([self._norm(pt) <= self._radius for pt in pts])\n\n\nclass ScalingBall",
     "        try:\n            distances = self._norm(pts)\n            return np.logical_not(distances > self._radius)\n        except (ValueError, IndexError):\n            return np.asarray([self._norm(pt) <= self._radius for pt in pts])\n\n\nclass ScalingBall"))
D, B, CP, SA, DH, EX = "core/data.py", "cruising/basics.py", "core/computing.py", "processing/sampler.py", "processing/datahandler.py", "pipeline/expander.py"
edit("data-delete-rows", D, ("                self._data = {\n                    k: [v for i, v in enumerate(value) if i not in key]\n                    for k, value in self._data.items()\n                }\n                self._max_len -= len(\n                    [i for i in range(self._max_len) if i in key]\n                )\n",
     "                kept = [i for i in range(self._max_len) if i not in key]\n                self._data = {\n                    k: [value[i] for i in kept]\n                    for k, value in self._data.items()\n                }\n                self._max_len = len(kept)\n"))
edit("data-fill", D, ("            curr_len = len(self._data[key])\n            fill_len = max(0, (len_ - curr_len))\n            self._data[key].extend([None] * fill_len)\n",
     "            column = self._data[key]\n            while len(column) < len_:\n                column.append(None)\n"))
edit("data-rename", D, ("        self._data[new_key] = self._data[old_key]\n        self._types[new_key] = self._types[old_key]\n\n        self.delete(old_key)\n",
     "        self._types[new_key] = self._types.pop(old_key)\n        self._data[new_key] = self._data.pop(old_key)\n"))
edit("data-strip", D, ("            self._data = {\n                key: value\n                for key, value in self._data.items()\n                if not all(v is None for v in value)\n            }\n            self._types = {key: self._types[key] for key in self._data}\n",
     "            for key, value in list(self._data.items()):\n                if any(v is not None for v in value):\n                    continue\n                del self._data[key]\n                del self._types[key]\n"))
edit("data-filter-types", D, ("        for key in list(self._data.keys()):\n            if self._types[key] not in type_list:\n                del self._data[key]\n                del self._types[key]\n",
     "        unwanted = [k for k in self._data if self._types[k] not in type_list]\n        for key in unwanted:\n            self.delete(key)\n"))
edit("convex-gap", B, ("    gap = (wa[i1] - wa[i2]) % 360 if wraps else wa[i2] - wa[i1]\n    if not 0 < gap < 180:\n",
     "    gap = wa[i2] - wa[i1]\n    if wraps:\n        gap = -gap % 360\n    if gap <= 0 or gap >= 180:\n"))
edit("convex-loop", B, ("    for left, right in zip(vert, vert[1:]):\n        if wa[left] <= direction <= wa[right]:\n            i1, i2 = left, right\n            edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]\n            wraps = False\n            break\n    else:\n        i1, i2 = vert[0], vert[-1]\n        edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]\n        wraps = True\n",
     "    i1, i2, wraps = vert[0], vert[-1], True\n    for k in range(len(vert) - 1):\n        left, right = vert[k], vert[k + 1]\n        if wa[left] <= direction <= wa[right]:\n            i1, i2, wraps = left, right, False\n            break\n    edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]\n"))
edit("isochrone", B, ("    while t < total_time or steps < min_nodes:\n        if t >= total_time:\n            # start process again with smaller step size\n            step_size *= steps / min_nodes\n            s, t, steps = 0, 0, 0\n            continue\n        der = dt_ds(s, t)\n        s += step_size\n        t += der * step_size\n        steps += 1\n",
     "    while True:\n        while t < total_time:\n            der = dt_ds(s, t)\n            t += der * step_size\n            s += step_size\n            steps += 1\n        if steps >= min_nodes:\n            break\n        step_size = step_size * steps / min_nodes\n        s, t, steps = 0, 0, 0\n"))
edit("inverse-bsp", B, ("    if bsp != 0:\n        return 1 / bsp\n\n    return 1000  # no progress\n", "    return 1000 if bsp == 0 else 1 / bsp\n"))
edit("mercator-proj", B, ("    x, y = pt / (60 * np.cos(np.deg2rad(lat_mp)))\n    return np.rad2deg(np.arctan(np.sinh(np.deg2rad(y)))), x\n",
     "    scale = 60 * np.cos(np.deg2rad(lat_mp))\n    longitude, y = pt[0] / scale, pt[1] / scale\n    latitude = np.rad2deg(np.arctan(np.sinh(np.deg2rad(y))))\n    return latitude, longitude\n"))
edit("wind-speed", CP, ("        return np.sqrt(\n            np.square(ws)\n            + np.square(bsp)\n            + 2 * self.value * ws * bsp * np.cos(wa)\n        )\n",
     "        product = ws * bsp * np.cos(wa)\n        return np.sqrt(ws**2 + bsp**2 + 2 * self.value * product)\n"))
edit("wind-angle", CP, ("        temp[temp > 1] = 1\n        temp[temp < -1] = -1\n\n        converted_wa = np.arccos(temp)\n        converted_wa[wa_above_180] = 360 - np.rad2deg(\n            converted_wa[wa_above_180]\n        )\n        converted_wa[~wa_above_180] = np.rad2deg(converted_wa[~wa_above_180])\n\n        return converted_wa\n",
     "        converted_wa = np.rad2deg(np.arccos(np.clip(temp, -1, 1)))\n        return np.where(wa_above_180, 360 - converted_wa, converted_wa)\n"))
edit("rescale", SA, ("    while len(sample) != n_samples:\n        if len(sample) > n_samples:\n            lb = t\n        else:\n            ub = t\n        if ub is None:\n            t *= 2\n        else:\n            t = (ub + lb) / 2\n        sample = generate_sample(t)\n\n    return sample\n",
     "    while True:\n        size = len(sample)\n        if size == n_samples:\n            return sample\n        if size < n_samples:\n            ub = t\n        else:\n            lb = t\n        t = 2 * t if ub is None else (lb + ub) / 2\n        sample = generate_sample(t)\n"))
edit("in-hull", SA, ("        spiral = (midpoint[:, None] + t * base_set).transpose()\n        mask = np.all((ineqs[:, :2] @ spiral.T).T <= -ineqs[:, 2], axis=1)\n        return spiral[mask]\n",
     "        spiral = midpoint + t * base_set.T\n        values = spiral @ ineqs[:, :2].T + ineqs[:, 2]\n        return spiral[np.all(values <= 0, axis=1)]\n"))
edit("array-handler", DH, ("            data_dict = {key: list(arr[:, i]) for i, key in enumerate(keys)}\n", "            data_dict = {}\n            for key, column in zip(keys, arr.T):\n                data_dict[key] = list(column)\n"))
edit("nmea-angle", DH, ("        value = float(value)\n        degrees = int(value / 100)\n        minutes = value - 100 * degrees\n        return degrees + minutes / 60\n",
     "        degrees, minutes = divmod(float(value), 100)\n        return degrees + minutes / 60\n"))
edit("nmea-filter", DH, ("            self._attribute_filter = lambda field: any(\n                field[0] == attribute for attribute in wanted_nmea_attributes\n            )\n",
     "            self._attribute_filter = (\n                lambda field: field[0] in wanted_nmea_attributes\n            )\n"))
edit("nmea-wind", DH, ("            if reference == \"R\":\n                parsed_sentence[\"AWA\"] = wind_angle\n                parsed_sentence[\"AWS\"] = wind_speed\n            elif reference == \"T\":\n                parsed_sentence[\"TWA\"] = wind_angle\n                parsed_sentence[\"TWS\"] = wind_speed\n",
     "            prefix = {\"R\": \"A\", \"T\": \"T\"}.get(reference)\n            if prefix is not None:\n                parsed_sentence[prefix + \"WA\"] = wind_angle\n                parsed_sentence[prefix + \"WS\"] = wind_speed\n"))
edit("expander", EX, ("        if self._exception_handling_mode == \"delete\":\n            data.delete(none_idxs)\n        else:\n            for idx in none_idxs:\n                weather_list[idx] = {key: None for key in weather_keys or ()}\n",
     "        if self._exception_handling_mode != \"delete\":\n            empty = dict.fromkeys(weather_keys or ())\n            weather_list = [empty if w is None else w for w in weather_list]\n        else:\n            data.delete(none_idxs)\n"))
edit("table-symmetric", T, ("        symmetric_wa_resolution = np.concatenate(\n            [self.wind_angles, 360 - np.flip(self.wind_angles)]\n        )\n        symmetric_bsps = np.row_stack(\n            (self.boat_speeds, np.flip(self.boat_speeds, axis=0))\n        )\n",
     "        angles, speeds = self.wind_angles, self.boat_speeds\n        symmetric_wa_resolution = np.append(angles, (360 - angles)[::-1])\n        symmetric_bsps = np.concatenate((speeds, speeds[::-1]))\n"))
edit("table-shape", T, ("        if wa_len and ws_len:\n            correct_shape = new_bsps.shape == (1,)\n        elif wa_len:\n            correct_shape = new_bsps.shape == (len(ws),)\n        elif ws_len:\n            correct_shape = new_bsps.shape == (len(wa),)\n        else:\n            correct_shape = new_bsps.shape == (len(wa), len(ws))\n",
     "        if wa_len or ws_len:\n            correct_shape = new_bsps.shape == (len(wa) * len(ws),)\n        else:\n            correct_shape = new_bsps.shape == (len(wa), len(ws))\n"))
edit("table-indices", T, ("        return [i for w in wind for i, r in enumerate(res) if r == w]\n", "        indices = []\n        for w in wind:\n            indices.extend(np.where(res == w)[0])\n        return indices\n"))
edit("table-slices", T, ("            if ws_ in self.wind_speeds:\n                bsp = self.boat_speeds.T[np.where(self.wind_speeds == ws_)][0]\n            else:\n",
     "            column = np.flatnonzero(self.wind_speeds == ws_)\n            if len(column) > 0:\n                bsp = self.boat_speeds[:, column[0]]\n            else:\n"))
edit("curve-call", CU, ("        if self.radians:\n            wa = np.rad2deg(wa)\n            wa %= 360\n            wa = np.deg2rad(wa)\n        else:\n            wa %= 360\n\n        return self.curve(ws, wa, *self.parameters)\n",
     "        if not self.radians:\n            return self.curve(ws, wa % 360, *self.parameters)\n        angle = np.deg2rad(np.rad2deg(wa) % 360)\n        return self.curve(ws, angle, *self.parameters)\n"))
edit("curve-slices", CU, ("        return [\n            np.row_stack([[ws_] * len(wa_ls), wa_ls, self(ws_, angles)])\n            for ws_ in ws\n        ]\n",
     "        slices = []\n        for ws_ in ws:\n            bsp = self(ws_, angles)\n            slices.append(\n                np.array([np.full(len(wa_ls), float(ws_)), wa_ls, bsp])\n            )\n        return slices\n"))
edit("curve-sym", CU, ("            y = self._f(ws, wa, *params)\n            y_symm = self._f(ws, (full_circle - wa), *params)\n            return 0.5 * (y + y_symm)\n",
     "            mirrored = self._f(ws, full_circle - wa, *params)\n            return (self._f(ws, wa, *params) + mirrored) / 2\n"))
edit("polytope", NB, ("        mask = np.ones((pts.shape[0],), dtype=bool)\n        for ineq, bound in zip(self._mat, self._b):\n            mask = mask & (ineq @ pts.T <= bound)\n        return mask\n",
     "        return np.all(pts @ self._mat.T <= self._b, axis=1)\n"))
edit("cuboid", NB, ("        mask = (\n            np.ones((pts.shape[0],), dtype=bool)\n            & (self._norm(pts[:, 0]) <= self._size[0])\n            & (self._norm(pts[:, 1]) <= self._size[1])\n        )\n\n        return mask\n",
     "        inside_ws = self._norm(pts[:, 0]) <= self._size[0]\n        inside_wa = self._norm(pts[:, 1]) <= self._size[1]\n        return np.logical_and(inside_ws, inside_wa)\n"))


def one(r):
    id, file, pairs = r
    d = tempfile.mkdtemp(prefix="refactor-")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        p = pathlib.Path(d, "repo/hrosailing", file)
        s = p.read_text()
        for old, new in pairs:
            if s.count(old) != 1:
                return f"{id}: the text occurs {s.count(old)} times"
            s = s.replace(old, new)
        p.write_text(s)
        env = dict(os.environ, PYVC_REPO=d + "/repo", PYVC_EVIDENCE=d, VERIF_SEED="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        t = subprocess.run(["bash", str(ROOT / "tools/testcopy.sh"), d + "/repo"], capture_output=True, text=True, env=env).stdout.strip().splitlines()
        out = [f"{id}: tests {t[-1] if t else '?'}"]
        for q in (json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()):
            if not any(f.endswith("hrosailing/" + file) for f in json.dumps(q).replace('"', " ").replace(",", " ").split()):
                continue
            r = subprocess.run([sys.executable, str(ROOT / "check.py"), q["id"]], capture_output=True, text=True, env=env)
            last = r.stdout.strip().splitlines()[-1][:60 if not r.returncode else 300] if r.stdout.strip() else r.stderr[-200:]
            out.append(f"  {'ALARM ' if r.returncode else ''}{last}")
        return "\n".join(out)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    with ThreadPoolExecutor(int(os.environ.get('JOBS', 4))) as ex:
        for x in ex.map(one, [r for r in R if not sys.argv[1:] or r[0] in sys.argv[1:]]):
            print(x, flush=True)
