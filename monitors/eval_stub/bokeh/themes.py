from ._core import Model as Theme
