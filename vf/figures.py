"""What a figure shows: reads the values that are drawn at a given place off the artists that
matplotlib would render (bars, areas, lines with or without steps, line segments)."""
import math

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from matplotlib.cbook import STEP_LOOKUP_MAP  # noqa: E402
from matplotlib.collections import LineCollection, PolyCollection  # noqa: E402
from matplotlib.lines import Line2D  # noqa: E402


def plain(v):
    return float(getattr(v, "magnitude", v))


def x_of(ax, stamp):
    """Position of a timestamp on a time axis."""
    return float(ax.convert_xunits(stamp))


def polyline(line: Line2D):
    x, y = np.asarray(line.get_xdata(orig=False), float), np.ma.filled(np.ma.asarray(line.get_ydata(orig=False), float), np.nan)
    style = line.get_drawstyle()
    if style.startswith("steps"):
        x, y = STEP_LOOKUP_MAP[style](x, y)
    return np.column_stack([x, y])


def crossings(verts, x):
    """y-values at which the polyline crosses the vertical through x (which is not a vertex)."""
    out = []
    for (x0, y0), (x1, y1) in zip(verts[:-1], verts[1:]):
        if min(x0, x1) < x < max(x0, x1) and not (math.isnan(y0) or math.isnan(y1)):
            out.append(y0 + (y1 - y0) * (x - x0) / (x1 - x0))
    return out


class Layer:
    """One thing drawn on an axes: a row of bars, an area, a line, or a row of segments."""

    def __init__(self, form, artist, label):
        self.form, self.artist, self.label = form, artist, label

    def at(self, x):
        """Values shown at position x; without the zero line, for bars and areas."""
        if self.form == "bars":
            out = []
            for p in self.artist:
                x0, y0, w, h = p.get_x(), p.get_y(), p.get_width(), p.get_height()
                if min(x0, x0 + w) <= x <= max(x0, x0 + w):
                    out += [y0 + h] if y0 == 0 else [y0, y0 + h]
            return out
        if self.form == "area":
            ys = []
            for path in self.artist.get_paths():
                v = path.vertices
                ys += crossings(v, x)
            zero = [y for y in ys if y == 0]
            return [y for y in ys if y != 0] or zero[:1]
        if self.form == "line":
            return crossings(polyline(self.artist), x)
        out = []  # segments
        for seg in self.artist.get_segments():
            out += crossings(np.asarray(seg, float), x)
        return out

    @property
    def count(self):
        if self.form == "bars":
            return len(self.artist)
        if self.form == "segments":
            return len(self.artist.get_segments())
        return 1

    def __repr__(self):
        return f"<{self.form} {self.label!r}>"


def layers(ax):
    """Everything drawn on the axes."""
    out = [Layer("bars", list(c), c.get_label()) for c in ax.containers]
    known = {id(p) for la in out for p in la.artist}
    rest = [p for p in ax.patches if id(p) not in known]
    if rest:
        out.append(Layer("bars", rest, ""))
    for c in ax.collections:
        if isinstance(c, LineCollection):
            out.append(Layer("segments", c, c.get_label()))
        elif isinstance(c, PolyCollection) or hasattr(c, "get_paths"):
            out.append(Layer("area", c, c.get_label()))
    out += [Layer("line", ln, ln.get_label()) for ln in ax.lines]
    return out


def legend(ax):
    lg = ax.get_legend()
    return None if lg is None else [t.get_text() for t in lg.get_texts()]


def close():
    plt.close("all")
