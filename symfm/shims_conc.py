"""Replay side: the real libraries, except pyvista (see fakes.py)."""
import builtins


def install():
    from . import fakes
    tab = fakes.modules(symbolic=False)
    real = builtins.__import__

    def hook(name, globals=None, locals=None, fromlist=(), level=0):
        who = (globals or {}).get("__name__", "")
        if level == 0 and (who == "fibermat" or who.startswith("fibermat.")) and name in tab:
            return tab[name]
        return real(name, globals, locals, fromlist, level)
    builtins.__import__ = hook
