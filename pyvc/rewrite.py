"""Mechanical AST rewriting of the package's source so that it runs under CPython on symbolic values.

The statements that run are the ones of /repo's files; what changes is exactly:
  - argument/return annotations and docstrings are dropped;
  - for / while statements and comprehensions hand their body (as a closure) to the engine, which runs it natively for
    concrete iterables and verifies it against an invariant or a derived closed form for symbolic ones;
  - list / dict / set displays build the engine's containers; `in`, `not`, f-strings and ** calls go through the engine;
  - builtins and imports are looked up in the engine's tables (see loader.py).
"""
import ast

VC = "vc_rt_"


def name(n):
    return ast.Name(n, ast.Load())


def vcall(fn, args):
    return ast.Call(ast.Attribute(name(VC), fn, ast.Load()), args, [])


def const(v):
    return ast.Constant(v)


def lam(params, body):
    return ast.Lambda(ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), body)


def assigned(stmts):
    """names bound by statements (not descending into nested functions/classes/lambdas/comprehensions)"""
    out = []

    def tgt(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.append(n.id)

    def go(s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.append(s.name)
            return
        if isinstance(s, (ast.Assign,)):
            for t in s.targets:
                tgt(t)
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            tgt(s.target)
        elif isinstance(s, ast.For):
            tgt(s.target)
        elif isinstance(s, ast.With):
            for i in s.items:
                if i.optional_vars:
                    tgt(i.optional_vars)
        elif isinstance(s, ast.Try):
            for h in s.handlers:
                if h.name:
                    out.append(h.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                out.append((a.asname or a.name).split(".")[0])
        for f in ("body", "orelse", "finalbody"):
            for x in getattr(s, f, []) or []:
                go(x)
        for h in getattr(s, "handlers", []) or []:
            for x in h.body:
                go(x)
        for n in ast.walk(s) if not hasattr(s, "body") else []:
            if isinstance(n, ast.NamedExpr):
                out.append(n.target.id)

    for s in stmts:
        go(s)
    return list(dict.fromkeys(out))


class ReturnFix(ast.NodeTransformer):
    """inside an extracted loop body: continue/break/return become tagged returns"""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(const(None)), n)

    def visit_Break(self, n):
        return ast.copy_location(ast.Return(ast.Attribute(name(VC), "BREAK", ast.Load())), n)

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(vcall("Ret", [n.value or const(None)])), n)


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.scope = []          # qualname parts
        self.counters = {}
        self.fn_stack = []       # (assigned names)
        self.k = 0

    # ------------------------------------------------------------ scopes
    def visit_Module(self, n):
        self.generic_visit(n)
        return n

    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        self.fn_stack.append(None)
        n.body = [self.visit(s) for s in n.body]
        n.body = [x for s in n.body for x in (s if isinstance(s, list) else [s])] or [ast.Pass()]
        self.fn_stack.pop()
        self.scope.pop()
        return n

    def visit_FunctionDef(self, n):
        self.scope.append(n.name)
        n.returns = None
        a = n.args
        for arg in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            arg.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        loc = list(dict.fromkeys(params + assigned(n.body)))
        self.fn_stack.append(set(loc))
        body = self.block(n.body)
        self.fn_stack.pop()
        # make every local a local of this function even when only bound inside extracted loop bodies
        dead = [x for x in loc if x not in params]
        if dead:
            body = [ast.If(const(False), [ast.Assign([ast.Name(x, ast.Store())], const(None)) for x in dead], [])] + body
        n.body = body
        self.scope.pop()
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out or [ast.Pass()]

    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n

    def site(self, kind):
        q = ".".join(self.scope) or "<module>"
        c = self.counters.get((q, kind), 0)
        self.counters[(q, kind)] = c + 1
        return "%s:%s/%s%d" % (self.module, q, kind, c)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        if self.fn_stack and self.fn_stack[-1] is not None:
            if n.value is None:
                return ast.Pass()
            return ast.copy_location(ast.Assign([n.target], n.value), n)
        return n

    # ------------------------------------------------------------ loops
    def visit_For(self, n):
        if not self.fn_stack or self.fn_stack[-1] is None:
            self.generic_visit(n)
            return n
        if n.orelse:
            return self.native_for(n)
        site = self.site("for")
        it = self.visit(n.iter)
        self.k += 1
        bname, iname, sname, rname = ("vc_body%d" % self.k, "vc_it%d" % self.k, "vc_set%d" % self.k, "vc_r%d" % self.k)
        names = [x for x in assigned([n]) if x in self.fn_stack[-1]]
        has_ret = any(isinstance(x, ast.Return) for s in n.body for x in ast.walk(s))
        body = self.block(n.body)
        fix = ReturnFix()
        body = [fix.visit(s) for s in body]
        bfn = self.func(bname, [iname], ([ast.Nonlocal(names)] if names else []) +
                        [ast.Assign([self.store(n.target)], name(iname))] + body)
        return self.finish_loop(n, site, "for_loop", it, bname, bfn, names, sname, rname, has_ret)

    def store(self, t):
        return t

    def func(self, nm, params, body):
        return ast.FunctionDef(nm, ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), body, [], None)

    def finish_loop(self, n, site, kind, it, bname, bfn, names, sname, rname, has_ret):
        getter = ast.Dict([const(x) for x in names], [lam([], name(x)) for x in names])
        setfn = self.func(sname, ["vc_d"], ([ast.Nonlocal(names)] if names else []) +
                          [ast.If(ast.Compare(const(x), [ast.In()], [name("vc_d")]),
                                  [ast.Assign([ast.Name(x, ast.Store())], ast.Subscript(name("vc_d"), const(x), ast.Load()))], [])
                           for x in names] + [ast.Pass()])
        call = ast.Assign([ast.Name(rname, ast.Store())],
                          vcall(kind, [const(site), it, name(bname), getter, name(sname)]))
        out = [bfn, setfn, call]
        if has_ret:
            out.append(ast.If(ast.Compare(name(rname), [ast.IsNot()], [const(None)]),
                              [ast.Return(ast.Attribute(name(rname), "value", ast.Load()))], []))
        for o in out:
            ast.copy_location(o, n)
        return out

    def native_for(self, n):
        n.iter = vcall("native_iter", [self.visit(n.iter)])
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        return n

    def visit_While(self, n):
        if not self.fn_stack or self.fn_stack[-1] is None or n.orelse:
            self.generic_visit(n)
            return n
        site = self.site("while")
        test = self.visit(n.test)
        self.k += 1
        bname, sname, rname = ("vc_body%d" % self.k, "vc_set%d" % self.k, "vc_r%d" % self.k)
        names = [x for x in assigned([n]) if x in self.fn_stack[-1]]
        has_ret = any(isinstance(x, ast.Return) for s in n.body for x in ast.walk(s))
        body = self.block(n.body)
        fix = ReturnFix()
        body = [fix.visit(s) for s in body]
        bfn = self.func(bname, [], ([ast.Nonlocal(names)] if names else []) + body)
        return self.finish_loop(n, site, "while_loop", lam([], test), bname, bfn, names, sname, rname, has_ret)

    # ------------------------------------------------------------ comprehensions
    def comp(self, kind, n, elts):
        site = self.site("comp")

        def build(gens, inner):
            g = gens[0]
            it = self.visit(g.iter)
            if isinstance(g.target, ast.Name):
                params, arity = [g.target.id], 0
            elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                params, arity = [e.id for e in g.target.elts], len(g.target.elts)
                seen = set()
                for i, p in enumerate(params):          # (_, _, x)
                    if p in seen:
                        params[i] = "vc_dup%d" % i
                    seen.add(p)
            else:
                return None
            conds = [lam(params, self.visit(c)) for c in g.ifs]
            if len(gens) > 1:
                sub = build(gens[1:], inner)
                if sub is None:
                    return None
                body = lam(params, sub)
                last = False
            else:
                body = lam(params, inner)
                last = True
            return vcall("comp", [const(site), const(kind), it, const(arity), ast.List(conds, ast.Load()), body, const(last)])

        inner = [self.visit(e) for e in elts]
        inner = inner[0] if len(inner) == 1 else ast.Tuple(inner, ast.Load())
        r = build(n.generators, inner)
        return r if r is not None else n

    def visit_ListComp(self, n):
        return ast.copy_location(self.comp("list", n, [n.elt]), n)

    def visit_SetComp(self, n):
        return ast.copy_location(self.comp("set", n, [n.elt]), n)

    def visit_GeneratorExp(self, n):
        return ast.copy_location(self.comp("gen", n, [n.elt]), n)

    def visit_DictComp(self, n):
        return ast.copy_location(self.comp("dict", n, [n.key, n.value]), n)

    # ------------------------------------------------------------ displays and operators
    def in_class(self):
        return not self.fn_stack or self.fn_stack[-1] is None

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not self.in_class():
            return ast.copy_location(vcall("mklist", [n]), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not self.in_class() and all(k is not None for k in n.keys):
            return ast.copy_location(vcall("mkdict", [ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load())]), n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(vcall("mkset", [ast.List(n.elts, ast.Load())]), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = vcall("contains", [n.left, n.comparators[0]])
            if isinstance(n.ops[0], ast.NotIn):
                r = vcall("not_", [r])
            return ast.copy_location(r, n)
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(vcall("not_", [n.operand]), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                parts.append(v.value)
        return ast.copy_location(vcall("fstring", [ast.List(parts, ast.Load())]), n)

    def visit_FormattedValue(self, n):
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(vcall("join", [f.value, n.args[0]]), n)
        if any(k.arg is None for k in n.keywords) and not self.in_class():
            stars = ast.List([ast.Tuple([const(k.arg), k.value], ast.Load()) for k in n.keywords], ast.Load())
            return ast.copy_location(vcall("kwcall", [n.func, ast.List(n.args, ast.Load()), stars]), n)
        return n


def rewrite(source, module):
    tree = ast.parse(source)
    tree = Rewriter(module).visit(tree)
    ast.fix_missing_locations(tree)
    return tree
