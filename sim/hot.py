"""
Static hints for the scheduler (never for the oracles): which source lines
write state that another thread could see, which functions touch such state
at all, and at which lines an exception may be delivered the way CPython
delivers asynchronous exceptions.
"""
import ast
import os

MUTATORS = {'append', 'update', 'clear', 'pop', 'popitem', 'setdefault',
            'add', 'extend', 'insert', 'remove', 'discard', 'acquire',
            'release', 'move_to_end', 'sort', 'reverse', '__setitem__',
            'cache_clear', 'appendleft', 'popleft'}
_cache = {}


class _V(ast.NodeVisitor):

    def __init__(self):
        self.hot = set()
        self.no_inject = set()
        self.funcs = []
        self.written = set()    # names of attributes and globals written

    # -------------------------------------------------------- functions
    def _func(self, node):
        glob, local, other = set(), set(), set()
        alias = {}

        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob.update(n.names)

        # Locals which are certainly fresh objects of this call, and what
        # other locals are other names for.
        for n in ast.walk(node):
            if (isinstance(n, ast.Assign) and len(n.targets) == 1 and
                isinstance(n.targets[0], ast.Name)):
                t = n.targets[0].id

                if _fresh(n.value):
                    local.add(t)
                else:
                    other.add(t)
                    alias.setdefault(t, set()).update(_reach(n.value))

        local -= other | glob

        if node.name in ('__init__', '__new__') or \
           'setstate' in node.name:
            local.add('self')           # nobody else has it yet

        self.funcs.append((node.name, glob, local, alias))
        self.generic_visit(node)
        self.funcs.pop()

    visit_FunctionDef = visit_AsyncFunctionDef = _func

    def _base(self, node):
        while isinstance(node, (ast.Attribute, ast.Subscript)):
            node = node.value
        return node.id if isinstance(node, ast.Name) else None

    def _target(self, t, line):
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self._target(e, line)
            return

        if not self.funcs:              # runs once, during import
            return

        name, glob, local, alias = self.funcs[-1]

        if isinstance(t, ast.Starred):
            t = t.value

        if isinstance(t, ast.Name):
            if t.id in glob:
                self.hot.add(line)
                self.written.add(t.id)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            base = self._base(t)

            if base in local:
                return
            self.hot.add(line)
            self._wrote(t)

    def _wrote(self, t):
        """The innermost name by which others can reach what t changes."""
        while isinstance(t, ast.Subscript):
            t = t.value

        if isinstance(t, ast.Attribute):
            self.written.add(t.attr)
        elif isinstance(t, ast.Name):
            alias = self.funcs[-1][3]
            self.written.update(alias.get(t.id, {t.id} - {'self', 'cls'}))

    def visit_Assign(self, node):
        for t in node.targets:
            self._target(t, node.lineno)
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self._target(node.target, node.lineno)
        self.generic_visit(node)

    def visit_AnnAssign(self, node):
        self._target(node.target, node.lineno)
        self.generic_visit(node)

    def visit_Delete(self, node):
        for t in node.targets:
            self._target(t, node.lineno)
        self.generic_visit(node)

    def visit_For(self, node):
        self._target(node.target, node.lineno)
        self.generic_visit(node)

    def visit_Call(self, node):
        if not self.funcs:
            self.generic_visit(node)
            return

        f = node.func
        name, glob, local, alias = self.funcs[-1]

        if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
            base = self._base(f.value)
            if base is None or base not in local:
                self.hot.add(node.lineno)
                self._wrote(f.value)
        elif isinstance(f, ast.Name) and f.id in ('setattr', 'delattr'):
            self.hot.add(node.lineno)
        elif (isinstance(f, ast.Attribute) and f.attr in
              ('__setattr__', 'setattr')):
            self.hot.add(node.lineno)
        self.generic_visit(node)

    def visit_With(self, node):
        self.hot.add(node.lineno)
        self.no_inject.update(self._header(node, node.body))
        self.generic_visit(node)

    visit_AsyncWith = visit_With

    def visit_Try(self, node):
        self.no_inject.add(node.lineno)

        for h in node.handlers:
            self.no_inject.update(range(h.lineno, _end(h) + 1))

        for part in (node.finalbody,):
            for s in part:
                self.no_inject.update(range(s.lineno, _end(s) + 1))

        self.generic_visit(node)

    visit_TryStar = visit_Try

    @staticmethod
    def _header(node, body):
        return range(node.lineno, max(node.lineno + 1, body[0].lineno))


def _fresh(v):
    """Does the expression v make a new object?"""
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.Tuple, ast.ListComp,
                      ast.DictComp, ast.SetComp)):
        return True

    if isinstance(v, ast.Call):
        f = v.func
        return (isinstance(f, ast.Attribute) and f.attr == '__new__' or
                isinstance(f, ast.Name) and f.id in ('cls', 'list', 'dict',
                                                     'set'))
    return False


def _reach(v):
    """Names by which others can reach the object v evaluates to."""
    while isinstance(v, ast.Subscript):
        v = v.value

    if isinstance(v, ast.Attribute):
        return {v.attr}
    if isinstance(v, ast.Name):
        return {v.id}
    if isinstance(v, ast.IfExp):
        return _reach(v.body) | _reach(v.orelse)
    if isinstance(v, ast.BoolOp):
        return set().union(*map(_reach, v.values))
    if isinstance(v, ast.Call):
        return _reach(v.func)
    return set()


def _end(n):
    return getattr(n, 'end_lineno', n.lineno) or n.lineno


def _parse(path):
    try:
        with open(path, encoding='utf-8') as f:
            return ast.parse(f.read())
    except (OSError, SyntaxError):
        return ast.parse('')


def _visit(path):
    r = _cache.get(path)

    if r is None:
        v = _V()
        tree = _parse(path)
        v.visit(tree)
        names = {}
        top = {t.id for n in tree.body for t in ast.walk(n)
               if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)
               and not isinstance(n, (ast.FunctionDef, ast.ClassDef))}

        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute):
                names.setdefault(n.attr, set()).add(n.lineno)
            elif isinstance(n, ast.Name) and n.id in top:
                names.setdefault(n.id, set()).add(n.lineno)

        r = _cache[path] = (frozenset(v.hot), frozenset(v.no_inject),
                            frozenset(v.written), names)

    return r


def analyse(path):
    """-> (hot lines, lines where no exception is injected)"""
    return _visit(path)[:2]


def warm(pkg, path):
    """Lines of path that mention a name which some hot line writes."""
    key = (pkg, path)
    r = _cache.get(key)

    if r is None:
        written = set()

        for p in repo_files(pkg):
            written |= _visit(p)[2]

        lines = set()

        for n, at in _visit(path)[3].items():
            if n in written:
                lines |= at

        r = _cache[key] = frozenset(lines)

    return r


def repo_files(pkg):
    return sorted(os.path.join(pkg, f) for f in os.listdir(pkg)
                  if f.endswith('.py'))


def preload(pkg):
    """Analyse once in the process from which the runs are forked."""
    for p in repo_files(pkg):
        analyse(p)
        warm(pkg, p)
