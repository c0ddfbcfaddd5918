import json

import numpy as np


class Model:
    def __init__(self, *a, **kw):
        self.args = a
        for k, v in kw.items():
            setattr(self, k, v)


class Title(str):
    @property
    def text(self):
        return str(self)


class Source:
    def __init__(self, data=None, **kw):
        self.data = dict(data or {})


def _list(v):
    if isinstance(v, (str, bytes)) or not hasattr(v, '__len__'):
        return v if isinstance(v, (str, type(None))) else float(v)
    return [float(x) for x in np.asarray(v, float).ravel()]


class Legend(list):
    pass


class figure:
    def __init__(self, **kw):
        self.kw = kw
        self.title = Title(kw.get('title', ''))
        self.toolbar = Model()
        self.legend = None
        self.tools = []
        self.y_range = None
        self.x_range = None
        self.glyphs = []
        self.layouts = []

    def _add(self, kind, *xy, **kw):
        src = kw.get('source')
        pos = list(xy)
        d = {'kind': kind}
        names = ['x', 'y']
        data = {}
        for n, v in zip(names, pos):
            data[n] = v
        for n in ('x', 'y', 'top', 'bottom', 'left', 'right'):
            if n in kw:
                data[n] = kw[n]
        for n, v in data.items():
            if isinstance(v, str) and src is not None:
                v = src.data[v]
            d[n] = _list(v)
        for n in ('legend_label', 'color', 'line_color', 'fill_color'):
            if n in kw:
                d[n] = str(kw[n])
        if kw.get('legend_label'):
            self.legend = self.legend or Model()
        self.glyphs.append(d)
        return Model()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **kw: self._add(name, *a, **kw)

    def add_layout(self, *a, **kw):
        self.layouts.append(a)

    def record(self):
        return {'title': str(self.title), 'y': self.kw.get('y_axis_label'), 'x': self.kw.get('x_axis_label'),
                'glyphs': self.glyphs}


class Row:
    def __init__(self, children):
        self.children = children


class Layout:
    def __init__(self, rows):
        self.children = [Row(r if isinstance(r, list) else [r]) for r in rows]


def layout(rows, **kw):
    return Layout(rows)


def save(obj=None, filename=None, **kw):
    out = []
    for t in obj.tabs:
        figs = [f.record() for r in t.child.children for f in r.children if isinstance(f, figure)]
        out.append({'title': t.title, 'figures': figs})
    with open(filename, 'w') as f:
        json.dump(out, f)
    return filename
