"""Names, attributes, arguments, exceptions and format strings of every function, decided on its syntax tree."""
from . import law
from .common import *
from vg import names



@law('C29')
def everything_used_exists(L):
    """names are defined, attributes belong to the class, arguments fit, raised things are exceptions, formats have their values"""
    p = names.Package(L.P.root)
    bad = {}
    for rel, line, where, text in p.run():
        bad.setdefault((rel, where), []).append((line, text))
    seen = set()
    for m in p.mods.values():
        L.fact('%s: reads as Python' % m.rel, True)
        for where, node in functions(m.tree):
            key = (m.rel, where)
            if key in seen:
                continue
            seen.add(key)
            # every construct of the function has been visited
            L.entry = '%s (%s:%d)' % (where, m.rel, node.lineno)
            L.I.called[where] = '%s:%d' % (m.rel, node.lineno)
            report(L, m.rel, where, bad.pop(key, None))
        L.entry = 'module (%s)' % m.rel
        report(L, m.rel, '', bad.pop((m.rel, ''), None))
    for (rel, where), v in sorted(bad.items()):
        L.entry = '%s (%s)' % (where, rel)
        report(L, rel, where, v)
    for k, v in sorted(p.counts.items()):
        L.fact('%d %s looked at' % (v, k), True)
    L.fact('classes with a complete list of attributes: %d of %d' % (sum(c.is_known() for c in p.classes), len(p.classes)), True)


def report(L, rel, where, problems):
    label = '%s %s: everything used exists' % (rel, where)
    if not problems:
        return L.fact(label, True)
    for line, text in problems:
        L.fact(label, False, {'where': [], 'lhs': text, 'rhs': 'something that exists', 'lines': ['%s:%d %s' % (rel, line, where)]})


def functions(tree):
    import ast
    out = []

    def rec(n, path):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append(('.'.join(path + [c.name]), c))
                rec(c, path + [c.name])
            elif isinstance(c, ast.ClassDef):
                rec(c, path + [c.name])
            else:
                rec(c, path)
    rec(tree, [])
    return out
