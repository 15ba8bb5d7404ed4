import importlib
import pkgutil

REGISTRY = {}


def prop(pid):
    def deco(fn):
        if pid in REGISTRY:
            old = REGISTRY[pid]

            def both(ctx, a=old, b=fn):
                a(ctx)
                b(ctx)
            REGISTRY[pid] = both
        else:
            REGISTRY[pid] = fn
        return fn
    return deco


for _m in sorted(x.name for x in pkgutil.iter_modules(__path__)):
    importlib.import_module(f"{__name__}.{_m}")
