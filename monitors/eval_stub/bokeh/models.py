from ._core import Model


class Range1d(Model):
    def __init__(self, *a, **kw):
        Model.__init__(self, *a, **kw)


class Spacer(Model):
    pass


class Paragraph(Model):
    pass


class TabPanel(Model):
    pass


class Tabs(Model):
    pass


class Band(Model):
    pass


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return type(name, (Model,), {})
