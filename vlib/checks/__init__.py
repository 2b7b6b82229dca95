import importlib
import os
import pkgutil


def load_all():
    for m in sorted(x.name for x in pkgutil.iter_modules([os.path.dirname(__file__)])):
        importlib.import_module('vlib.checks.' + m)
