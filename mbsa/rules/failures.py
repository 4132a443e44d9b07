"""failures are not swallowed: where the package works through a bag's files, no broad handler hides that a step failed"""
import ast
from ..query import *

BROAD = {'OSError', 'IOError', 'EnvironmentError', 'Exception', 'BaseException', 'BagError', 'MultibagError', 'FSError', 'ResourceError',
         'StandardError', 'PermissionError', 'error'}
# property -> module, names of the calls whose failure the caller has to learn of
STEPS = {
    'C03': ('multibag.restore', {'restore_member', '_restore_from', 'replicate', 'open_bag', 'get_member_bag', 'restore_bag_info', 'copyfile'}),
    'C05': ('multibag.restore', {'restore_fetch', 'restore_fetch_from'}),
    'C06': ('multibag.restore', {'save', 'update_oxum', 'update_bag_size'}),
    'C10': ('multibag.split', {'replicate', '_record_hash', 'apply_iter', 'complete_output_bags'}),
    'C16': ('multibag.access.multibag', {'iter_member_bags', '_cache_member_bags'}),
    'C17': ('multibag.access.multibag', {'iter_file_lookup', '_cache_file_lookup', 'lookup_file'}),
    'C21': ('multibag.amend', {'add_file_lookup', 'save_file_lookup', 'set_file_lookup', 'remove_file_lookup'}),
    'C22': ('multibag.amend', {'add_member_bag', 'save_member_bags', 'update_info', 'save'}),
}


def _names(e):
    if e is None:
        return ['BaseException']
    if isinstance(e, ast.Tuple):
        return [n for x in e.elts for n in _names(x)]
    if isinstance(e, ast.Attribute):
        return [e.attr]
    if isinstance(e, ast.Name):
        return [e.id]
    return []


def _calls(body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                if nm:
                    yield nm, n


def _guards(tree):
    """(body, exception names, the handler's statements, line) of everything that stops an exception"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                yield n.body, _names(h.type), h.body, h.lineno
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for s in n.finalbody for x in ast.walk(s)):
                yield n.body, ['BaseException'], n.finalbody, n.lineno
        elif isinstance(n, ast.With):
            for it in n.items:
                e = it.context_expr
                if isinstance(e, ast.Call) and (getattr(e.func, 'attr', None) or getattr(e.func, 'id', None)) == 'suppress':
                    yield n.body, [x for a in e.args for x in _names(a)], [], n.lineno


def _mk(prop, mod, steps):
    @rule(prop, 'failures-propagate', 'no handler for a broad class of exceptions in %s stops the failure of a step of the work (%s) without '
          'raising an exception or doing the step again' % (mod, ', '.join(sorted(steps))), 1)
    def _fn(c, r):
        tree = c.prog.modules[mod].tree
        r.ok(True, mod, 'handlers', 'every handler of the module is looked at')
        for body, names, handler, line in _guards(tree):
            if not set(names) & BROAD:
                continue
            hit = [n for n, _ in _calls(body) if n in steps]
            if not hit:
                continue
            again = {n for n, _ in _calls(handler)}
            if any(isinstance(x, ast.Raise) for s in handler for x in ast.walk(s)) or again & set(hit) or again & {'exit', '_exit'}:
                r.ok(True, '%s:%s' % (mod, line), 'handler', 'raises again')
            else:
                r.fail('%s:%s' % (mod, line), 'handler', 'the failure (%s) of %s is swallowed here' % ('/'.join(names), ', '.join(sorted(set(hit)))))
    return _fn


for _p, (_m, _s) in sorted(STEPS.items()):
    _mk(_p, _m, _s)
