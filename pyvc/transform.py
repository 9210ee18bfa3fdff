"""Mechanical desugaring of a module so that CPython can execute it on symbolic
values.  Statement order, calls, classes, exceptions, closures are kept."""
import ast

PV = "__pv__"


def call(name, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id=PV, ctx=ast.Load()), attr=name, ctx=ast.Load()),
                    args=list(args), keywords=[])


def lam(args, body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[],
                                         kw_defaults=[], defaults=[]), body=body)


def const(v):
    return ast.Constant(value=v)


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


class Assigned(ast.NodeVisitor):
    """names bound in a statement list (this scope only)."""
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)


def assigned(stmts):
    v = Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


class Live(ast.NodeVisitor):
    """names read before being definitely assigned in a statement list."""
    def __init__(self):
        self.reads = set()

    def expr(self, e, d):
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in d:
                self.reads.add(n.id)

    def target(self, t, d):
        if isinstance(t, ast.Name):
            d.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, d)
        else:
            self.expr(t, d)

    def block(self, stmts, d):
        """returns the set definitely assigned after (None: never falls through)."""
        for s in stmts:
            if d is None:
                return None
            d = self.stmt(s, d)
        return d

    @staticmethod
    def meet(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a & b

    def stmt(self, s, d):
        if isinstance(s, ast.Assign):
            self.expr(s.value, d)
            for t in s.targets:
                self.target(t, d)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, d)
            t = s.target
            if isinstance(t, ast.Name):
                if t.id not in d:
                    self.reads.add(t.id)
                d.add(t.id)
            else:
                self.expr(t, d)
        elif isinstance(s, ast.AnnAssign):
            self.expr(s.value, d)
            if s.value is not None:
                self.target(s.target, d)
        elif isinstance(s, ast.If):
            self.expr(s.test, d)
            return self.meet(self.block(s.body, set(d)), self.block(s.orelse, set(d)))
        elif isinstance(s, ast.For):
            self.expr(s.iter, d)
            b = set(d)
            self.target(s.target, b)
            self.block(s.body, b)
            self.block(s.orelse, set(d))
        elif isinstance(s, ast.While):
            self.expr(s.test, d)
            self.block(s.body, set(d))
        elif isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, d)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, d)
            return self.block(s.body, d)
        elif isinstance(s, ast.Try):
            before = set(d)
            a = self.block(s.body, set(d))
            if a is not None and s.orelse:
                a = self.block(s.orelse, a)
            for h in s.handlers:
                hd = set(before)
                if h.name:
                    hd.add(h.name)
                a = self.meet(a, self.block(h.body, hd))
            if s.finalbody:
                self.block(s.finalbody, set(before))
            return a
        elif isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, d)
            return None
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in d:
                    self.reads.add(n.id)
            d.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                d.add((a.asname or a.name).split(".")[0])
        else:
            for c in ast.iter_child_nodes(s):
                self.expr(c, d)
        return d


def read_before_write(stmts, targets):
    l = Live()
    l.block(stmts, set(targets))
    return l.reads


def loads_of(node):
    d = getattr(node, "_pv_loads", None)
    if d is None:
        d = {}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                d[x.id] = d.get(x.id, 0) + 1
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                d[x.target.id] = d.get(x.target.id, 0) + 1
        node._pv_loads = d
    return d


class Transformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn_stack = []       # list of dicts: {"inits": [], "n": counter, "qual": str}
        self.loop_depth = 0
        self.counter = 0
        self.class_stack = []

    # ---- scopes --------------------------------------------------------
    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    @staticmethod
    def strip_doc(stmts):
        if stmts and isinstance(stmts[0], ast.Expr) and isinstance(stmts[0].value, ast.Constant) \
                and isinstance(stmts[0].value.value, str):
            return stmts[1:]
        return stmts

    def visit_Module(self, n):
        self.fn_stack.append({"inits": [], "qual": self.mod, "module": True})
        n.body = self.body(self.strip_doc(n.body))
        self.fn_stack.pop()
        return n

    def visit_ClassDef(self, n):
        self.class_stack.append(n.name)
        n.bases = [self.visit(b) for b in n.bases]
        n.decorator_list = [self.visit(b) for b in n.decorator_list]
        self.fn_stack.append({"inits": [], "qual": ".".join(self.class_stack), "cls": True})
        n.body = self.body(self.strip_doc(n.body))
        self.fn_stack.pop()
        self.class_stack.pop()
        return n

    def visit_FunctionDef(self, n):
        q = ".".join(self.class_stack + [n.name])
        info = {"inits": [], "qual": q, "loops": 0, "loads": loads_of(n)}
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        for a in (n.args.vararg, n.args.kwarg):
            if a is not None:
                a.annotation = None
        n.returns = None
        self.fn_stack.append(info)
        saved, self.loop_depth = self.loop_depth, 0
        cs, self.class_stack = self.class_stack, self.class_stack + [n.name]
        params = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        for a in (n.args.vararg, n.args.kwarg):
            if a is not None:
                params.add(a.arg)
        info["params"] = params
        body = self.body(self.strip_doc(n.body))
        self.class_stack = cs
        self.loop_depth = saved
        self.fn_stack.pop()
        inits = [v for v in info["inits"] if v not in params]
        pre = []
        if n.args.vararg is not None or n.args.kwarg is not None:
            va = name(n.args.vararg.arg) if n.args.vararg else const(None)
            kw = name(n.args.kwarg.arg) if n.args.kwarg else const(None)
            if n.args.vararg:
                pre.append(ast.Assign(targets=[name(n.args.vararg.arg, ast.Store())], value=va))
            if n.args.kwarg:
                pre.append(ast.Assign(targets=[name(n.args.kwarg.arg, ast.Store())], value=call("kwdict", kw)))
        for v in inits:
            pre.append(ast.Assign(targets=[name(v, ast.Store())],
                                  value=ast.Attribute(value=name(PV), attr="UNBOUND", ctx=ast.Load())))
        n.body = pre + body
        return n

    def live(self, loop, names):
        """names read in the function outside this loop."""
        fn = self.fn_stack[-1].get("loads")
        if fn is None:
            return tuple(names)
        inside = loads_of(loop)
        return tuple(v for v in names if fn.get(v, 0) > inside.get(v, 0))

    # ---- loops ---------------------------------------------------------
    def loop_parts(self, body, target=None):
        """returns (funcdefs, fname, accname, names, carried)."""
        info = self.fn_stack[-1]
        self.counter += 1
        k = self.counter
        names = assigned(([ast.Assign(targets=[target], value=const(None))] if target is not None else []) + body)
        tnames = assigned([ast.Assign(targets=[target], value=const(None))]) if target is not None else []
        carried = read_before_write(body, tnames)
        carried = [v for v in names if v in carried and v not in tnames]
        nested = [v for v in names]
        for v in names:
            if v not in info["inits"]:
                info["inits"].append(v)
        self.loop_depth += 1
        new = self.body(body)
        self.loop_depth -= 1
        fname, aname = f"_pv_body{k}_", f"_pv_acc{k}_"
        pre = []
        kw = ast.Global if info.get("module") else ast.Nonlocal
        if names:
            pre.append(kw(names=list(names)))
        if target is not None:
            pre.append(ast.Assign(targets=[target], value=name("_pv_x_")))
        fd = ast.FunctionDef(name=fname, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="_pv_x_")] if target is not None else [],
                             kwonlyargs=[], kw_defaults=[], defaults=[]), body=pre + new + [ast.Return(value=const(None))],
                             decorator_list=[], returns=None, type_params=[])
        # accessor: get/set variables
        ab = []
        if names:
            ab.append(kw(names=list(names)))
        for v in names:
            ab.append(ast.If(test=ast.Compare(left=name("_pv_n_"), ops=[ast.Eq()], comparators=[const(v)]),
                             body=[ast.If(test=name("_pv_w_"), body=[ast.Assign(targets=[name(v, ast.Store())], value=name("_pv_v_"))],
                                          orelse=[]), ast.Return(value=name(v))], orelse=[]))
        ab.append(ast.Return(value=const(None)))
        acc = ast.FunctionDef(name=aname, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in ("_pv_n_", "_pv_w_", "_pv_v_")],
                              kwonlyargs=[], kw_defaults=[], defaults=[]), body=ab, decorator_list=[], returns=None, type_params=[])
        return [fd, acc], fname, aname, names, carried

    def visit_For(self, n):
        loads_of(n)
        it = self.visit(n.iter)
        defs, f, a, names, carried = self.loop_parts(n.body, n.target)
        return self.finish_loop(n, defs, call("for_loop", it, name(f), name(a), const(tuple(names)), const(tuple(carried)), const(self.live(n, names)),
                                              const(f"{self.mod}:{self.fn_stack[-1]['qual']}:{n.lineno}")))

    def finish_loop(self, n, defs, c):
        info = self.fn_stack[-1]
        self.counter += 1
        r = f"_pv_r{self.counter}_"
        out = list(defs)
        out.append(ast.Assign(targets=[name(r, ast.Store())], value=c))
        isret = ast.Call(func=ast.Attribute(value=name(PV), attr="is_ret", ctx=ast.Load()), args=[name(r)], keywords=[])
        if not info.get("module") and not info.get("cls"):
            val = name(r) if self.loop_depth else ast.Attribute(value=name(r), attr="value", ctx=ast.Load())
            out.append(ast.If(test=isret, body=[ast.Return(value=val)], orelse=[]))
        if n.orelse:
            els = self.body(n.orelse)
            out.append(ast.If(test=ast.Compare(left=name(r), ops=[ast.IsNot()],
                              comparators=[ast.Attribute(value=name(PV), attr="BRK", ctx=ast.Load())]), body=els, orelse=[]))
        return out

    def visit_While(self, n):
        loads_of(n)
        test = lam([], self.visit(n.test))
        tnames = [x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)]
        defs, f, a, names, carried = self.loop_parts(n.body)
        carried = carried + [v for v in names if v in tnames and v not in carried]
        return self.finish_loop(n, defs, call("while_loop", test, name(f), name(a), const(tuple(names)), const(tuple(carried)), const(self.live(n, names)),
                                              const(f"{self.mod}:{self.fn_stack[-1]['qual']}:{n.lineno}")))

    def visit_Break(self, n):
        return ast.Return(value=ast.Attribute(value=name(PV), attr="BRK", ctx=ast.Load()))

    def visit_Continue(self, n):
        return ast.Return(value=const(None))

    def visit_Return(self, n):
        v = self.visit(n.value) if n.value is not None else const(None)
        if self.loop_depth:
            return ast.Return(value=call("Ret", v))
        return ast.Return(value=v)

    # ---- expressions ---------------------------------------------------
    def comp(self, kind, n, elt):
        gens = n.generators
        ex = elt
        cur = None
        # innermost first
        for pos, g in enumerate(reversed(gens)):
            it = self.visit(g.iter)
            conds = [self.visit(c) for c in g.ifs]
            if isinstance(g.target, ast.Name):
                bind = lambda e: lam([g.target.id], e)
            else:
                def bind(e, t=g.target):
                    return lam(["_pv_t_"], ast.Subscript(value=ast.ListComp(elt=e, generators=[ast.comprehension(
                        target=t, iter=ast.Tuple(elts=[name("_pv_t_")], ctx=ast.Load()), ifs=[], is_async=0)]),
                        slice=const(0), ctx=ast.Load()))
            cond = bind(conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds)) if conds else const(None)
            k = kind if pos == len(gens) - 1 else "list"
            if pos == 0:
                cur = call("comp", const(k if len(gens) == 1 else "list"), it, bind(ex), cond)
            else:
                cur = call("comp_flat", it, bind(cur), cond)
        if len(gens) > 1:
            cur = call("comp_kind", const(kind), cur)
        return cur

    def visit_ListComp(self, n):
        return self.comp("list", n, self.visit(n.elt))

    def visit_SetComp(self, n):
        return self.comp("set", n, self.visit(n.elt))

    def visit_GeneratorExp(self, n):
        return self.comp("list", n, self.visit(n.elt))

    def visit_DictComp(self, n):
        return self.comp("dict", n, ast.Tuple(elts=[self.visit(n.key), self.visit(n.value)], ctx=ast.Load()))

    def visit_List(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return call("catlist", self.parts(n)) if any(isinstance(e, ast.Starred) for e in n.elts) else call("mklist", n)
        return n

    @staticmethod
    def parts(n):
        """the elements of a display, those with * marked."""
        return ast.List(elts=[ast.Tuple(elts=[e.value, const(True)] if isinstance(e, ast.Starred) else [e, const(False)], ctx=ast.Load())
                              for e in n.elts], ctx=ast.Load())

    def visit_Set(self, n):
        n = self.generic_visit(n)
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return call("catset", self.parts(n))
        return call("mkset", ast.List(elts=n.elts, ctx=ast.Load()))

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                items.append(ast.Tuple(elts=[const(None), v, const(True)], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[k, v, const(False)], ctx=ast.Load()))
        return call("mkdict", ast.List(elts=items, ctx=ast.Load()))

    def visit_Call(self, n):
        n = self.generic_visit(n)
        # f(*symbolic) / f(**symbolic)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                a.value = call("star", a.value)
            args.append(a)
        for k in n.keywords:
            if k.arg is None:
                k.value = call("starstar", k.value)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("format", "join"):      # of a literal, perhaps
            return ast.Call(func=call("strmethod", n.func.value, const(n.func.attr)), args=n.args, keywords=n.keywords)
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return call("lit", const(repr(n.value)))
        if isinstance(n.value, complex):
            return call("clit", const(repr(n.value.imag)))
        return n

    def visit_BinOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return call("div", n.left, n.right)
        if isinstance(n.op, ast.Pow):
            return call("pow", n.left, n.right)
        if isinstance(n.op, ast.Mod):
            return call("mod", n.left, n.right)
        return n

    def visit_AugAssign(self, n):
        if isinstance(n.op, (ast.Div, ast.Pow)):
            load = ast.parse(ast.unparse(n.target), mode="eval").body
            if isinstance(n.target, ast.Name):
                return self.visit(ast.Assign(targets=[n.target], value=ast.BinOp(left=load, op=n.op, right=n.value)))
        return self.generic_visit(n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else const("")
                conv = const(chr(v.conversion) if v.conversion != -1 else "")
                parts.append(ast.Tuple(elts=[self.visit(v.value), conv, spec], ctx=ast.Load()))
        return call("fstr", ast.List(elts=parts, ctx=ast.Load()))

    def visit_AnnAssign(self, n):
        if self.fn_stack[-1].get("cls"):
            n.value = self.visit(n.value) if n.value is not None else None
            return n
        if n.value is None:
            return None
        return ast.Assign(targets=[self.visit(n.target)], value=self.visit(n.value))

    def visit_ExceptHandler(self, n):
        n = self.generic_visit(n)
        nm = n.name
        if nm is None:
            if n.type is None:
                n.type = name("Exception")
            self.counter += 1
            nm = n.name = f"_pv_e{self.counter}_"
        n.body = [ast.Expr(value=call("chk", name(nm)))] + n.body
        return n

    def visit_Subscript(self, n):
        return self.generic_visit(n)

    def visit_Lambda(self, n):
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.body = self.visit(n.body)
        return n


def transform(source, modname, filename):
    tree = ast.parse(source, filename)
    tree = Transformer(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")
