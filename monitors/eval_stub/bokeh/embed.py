import json


def components(fig, **kw):
    return json.dumps(fig.record()), '<div></div>'
