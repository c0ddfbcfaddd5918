from ._core import layout
