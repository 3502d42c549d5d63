import importlib

MODULES = ['p_parse', 'p_flow', 'p_extra']
ALL = [importlib.import_module('.' + m, __name__) for m in MODULES]
