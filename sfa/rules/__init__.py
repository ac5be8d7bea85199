import importlib, pkgutil


def load_all():
    for m in pkgutil.iter_modules(__path__):
        importlib.import_module(__name__ + "." + m.name)
