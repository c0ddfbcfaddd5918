from ._core import Model, Source as ColumnDataSource, figure, save

_doc = Model()


def curdoc():
    return _doc
