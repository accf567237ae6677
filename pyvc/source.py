"""Mechanical extraction of the program under verification: parses the real files of /repo on every run."""
import ast
import hashlib
import os

REPO = os.environ.get('PYVC_REPO', '/repo')


class FuncInfo:
    def __init__(self, qual, node, module, cls=None, kind='function'):
        self.qual, self.node, self.module, self.cls, self.kind = qual, node, module, cls, kind
        # kind: function | method | static | classmethod | getter | setter

    def __repr__(self):
        return f'<F {self.qual}>'

    def sha(self):
        return hashlib.sha256(ast.dump(self.node).encode()).hexdigest()[:16]


class ClassInfo:
    def __init__(self, name, qual, node, module):
        self.name, self.qual, self.node, self.module = name, qual, node, module
        self.bases = []
        self.members = {}     # name -> FuncInfo (method) | ('prop', getter, setter) | ('const', ast)
        self.decorators = []

    def __repr__(self):
        return f'<C {self.qual}>'


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path, encoding='utf-8').read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.src)
        self.names = {}   # name -> ('func',FuncInfo)|('class',ClassInfo)|('import',modname)|('from',mod,name)|('const',ast)
        self.index()

    def index(self):
        for st in self.tree.body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.names[a.asname] = ('import', a.name)
                    else:
                        self.names[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.names[a.asname or a.name] = ('from', st.module, a.name)
            elif isinstance(st, ast.FunctionDef):
                self.names[st.name] = ('func', FuncInfo(f'{self.name}.{st.name}', st, self))
            elif isinstance(st, ast.ClassDef):
                self.names[st.name] = ('class', self.index_class(st))
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.names[st.targets[0].id] = ('const', st.value)

    def index_class(self, cd):
        ci = ClassInfo(cd.name, f'{self.name}.{cd.name}', cd, self)
        ci.bases = [ast.unparse(b) for b in cd.bases]
        ci.decorators = [ast.unparse(d) for d in cd.decorator_list]
        for st in cd.body:
            if isinstance(st, ast.FunctionDef):
                decs = [ast.unparse(d) for d in st.decorator_list]
                q = f'{ci.qual}.{st.name}'
                if 'property' in decs:
                    g = FuncInfo(q, st, self, ci, 'getter')
                    old = ci.members.get(st.name)
                    ci.members[st.name] = ('prop', g, old[2] if isinstance(old, tuple) and old[0] == 'prop' else None)
                elif any(d.endswith('.setter') for d in decs):
                    s = FuncInfo(q + '.setter', st, self, ci, 'setter')
                    old = ci.members.get(st.name)
                    ci.members[st.name] = ('prop', old[1] if old else None, s)
                elif 'staticmethod' in decs:
                    ci.members[st.name] = FuncInfo(q, st, self, ci, 'static')
                elif 'classmethod' in decs:
                    ci.members[st.name] = FuncInfo(q, st, self, ci, 'classmethod')
                else:
                    fi = FuncInfo(q, st, self, ci, 'method')
                    fi.decorators = decs
                    ci.members[st.name] = fi
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                ci.members[st.targets[0].id] = ('const', st.value)
        return ci


class Program:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules = {}

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.repo, *name.split('.'))
        for p in (base + '.py', os.path.join(base, '__init__.py')):
            if os.path.exists(p):
                m = self.modules[name] = Module(name, p)
                return m
        self.modules[name] = None
        return None

    def resolve(self, module, name, depth=0):
        """Resolve a global name in a module, following imports inside the repository."""
        ent = module.names.get(name)
        if ent is None or depth > 8:
            return None
        if ent[0] == 'from':
            m = self.module(ent[1]) if ent[1] else None
            if m is None:
                return ('external', f'{ent[1]}.{ent[2]}')
            r = self.resolve(m, ent[2], depth + 1)
            if r is None:
                sub = self.module(ent[1] + '.' + ent[2])
                if sub is not None:
                    return ('module', sub)
                return ('external', f'{ent[1]}.{ent[2]}')
            return r
        if ent[0] == 'import':
            m = self.module(ent[1])
            return ('module', m) if m is not None else ('external', ent[1])
        return ent

    def find_class(self, qual):
        mod, _, name = qual.rpartition('.')
        m = self.module(mod)
        if m is None:
            return None
        e = m.names.get(name)
        return e[1] if e and e[0] == 'class' else None

    def base_classes(self, ci):
        res = []
        for b in ci.bases:
            parts = b.split('.')
            if len(parts) == 1:
                r = self.resolve(ci.module, parts[0])
                if r and r[0] == 'class':
                    res.append(r[1])
                else:
                    res.append(b)
            else:
                c = self.find_class(b)
                res.append(c if c is not None else b)
        return res

    def mro(self, ci):
        out, seen = [], set()

        def go(c):
            if isinstance(c, str):
                if c not in out:
                    out.append(c)
                return
            if c.qual in seen:
                return
            seen.add(c.qual)
            out.append(c)
            for b in self.base_classes(c):
                go(b)
        go(ci)
        return out

    def lookup(self, ci, name, after=None):
        """Find a member along the MRO; returns (owner, member) or None. `after`: start after this class (super)."""
        started = after is None
        for c in self.mro(ci):
            if isinstance(c, str):
                continue
            if not started:
                if c.qual == after.qual:
                    started = True
                continue
            if name in c.members:
                return c, c.members[name]
        return None

    def is_subclass(self, ci, qual):
        return any((c if isinstance(c, str) else c.qual) == qual or (not isinstance(c, str) and c.name == qual)
                   for c in self.mro(ci))

    def func(self, qual):
        """'module.Class.meth', 'module.Class.prop', 'module.Class.prop.setter' or 'module.func'."""
        parts = qual.split('.')
        setter = parts[-1] == 'setter'
        if setter:
            parts = parts[:-1]
        for i in range(len(parts) - 1, 0, -1):
            m = self.module('.'.join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if len(rest) == 1:
                e = m.names.get(rest[0])
                return e[1] if e and e[0] == 'func' else None
            if len(rest) == 2:
                e = m.names.get(rest[0])
                if not e or e[0] != 'class':
                    return None
                mem = e[1].members.get(rest[1])
                if isinstance(mem, tuple):
                    if mem[0] == 'prop':
                        return mem[2] if setter else mem[1]
                    return None
                return mem
        return None
