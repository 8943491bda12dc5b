"""Makes `import tfc` use /repo/src with the extension that vlib.build built from it."""

import importlib.machinery
import importlib.util
import os
import sys

from . import build as _b


def load(ext: str | None):
    src = str(_b.REPO / "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import tfc  # noqa
    import tfc.utils  # noqa

    assert os.path.realpath(tfc.__file__).startswith(os.path.realpath(src)), tfc.__file__
    if ext:
        loader = importlib.machinery.ExtensionFileLoader("tfc.utils.BF", ext)
        spec = importlib.util.spec_from_file_location("tfc.utils.BF", ext, loader=loader)
        mod = importlib.util.module_from_spec(spec)
        loader.exec_module(mod)
        sys.modules["tfc.utils.BF"] = mod
        tfc.utils.BF = mod
    return tfc
