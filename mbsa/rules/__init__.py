import importlib, os
for f in sorted(os.listdir(os.path.dirname(__file__))):
    if f.endswith('.py') and f != '__init__.py':
        importlib.import_module(__name__ + '.' + f[:-3])
