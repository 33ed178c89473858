import importlib
import os


def load_all():
    d = os.path.dirname(os.path.abspath(__file__))
    for n in sorted(os.listdir(d)):
        if n.endswith('.py') and n not in ('__init__.py', 'base.py'):
            importlib.import_module('sa.rules.' + n[:-3])
