"""Behaviour preserving rewrites of every module of a copy of resistics: used to
try that the checks stay quiet on refactored code.
usage: refactor.py KIND SRC_DIR   (rewrites SRC_DIR/*.py in place)"""
import ast, sys, os, copy

class Base(ast.NodeTransformer):
    n = 0
    def fresh(self, s):
        Base.n += 1
        return "%s_%d" % (s, Base.n)

def blocks(node):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(node, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield f, b

def N(i, ctx=ast.Load):
    return ast.Name(i, ctx())

class TempReturn(Base):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)): return n
        v = self.fresh("outcome")
        return [ast.Assign([N(v, ast.Store)], n.value), ast.Return(N(v))]
    def visit_Lambda(self, n): return n

class FlipIf(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)

class GuardElse(Base):
    """if c: return/raise; rest -> if c: ... else: rest"""
    def do(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(body):
                s.orelse = self.do(body[i + 1:])
                return body[:i + 1]
        return body
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.do(n.body)
        return n
    def visit_For(self, n):
        self.generic_visit(n)
        n.body = self.do(n.body)
        return n

class CompToLoop(Base):
    def expand(self, s, comp):
        v = self.fresh("gathered")
        if isinstance(comp, ast.DictComp):
            init = ast.Dict([], [])
            inner = ast.Assign([ast.Subscript(N(v), comp.key, ast.Store())], comp.value)
        else:
            init = ast.List([], ast.Load())
            inner = ast.Expr(ast.Call(ast.Attribute(N(v), "append", ast.Load()), [comp.elt], []))
        out = [inner]
        for g in reversed(comp.generators):
            for c in reversed(g.ifs):
                out = [ast.If(c, out, [])]
            out = [ast.For(g.target, g.iter, out, [], lineno=0)]
        return v, [ast.Assign([N(v, ast.Store)], init)] + out
    def do(self, body):
        res = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)):
                v, pre = self.expand(s, s.value)
                s.value = N(v)
                res += pre + [s]
            else:
                for f, b in blocks(s):
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        setattr(s, f, self.do(b))
                if isinstance(s, ast.Try):
                    for h in s.handlers: h.body = self.do(h.body)
                res.append(s)
        return res
    def visit_FunctionDef(self, n):
        n.body = self.do(n.body)
        return n

class LoopToComp(Base):
    def do(self, body):
        res = []
        for s in body:
            for f, b in blocks(s):
                setattr(s, f, self.do(b))
            p = res[-1] if res else None
            if (isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call)
                    and isinstance(s.body[0].value.func, ast.Attribute) and s.body[0].value.func.attr == "append"
                    and isinstance(p, ast.Assign) and isinstance(p.value, ast.List) and not p.value.elts
                    and isinstance(p.targets[0], ast.Name) and isinstance(s.body[0].value.func.value, ast.Name)
                    and s.body[0].value.func.value.id == p.targets[0].id):
                p.value = ast.ListComp(s.body[0].value.args[0], [ast.comprehension(s.target, s.iter, [], 0)])
                continue
            if (isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.body[0].targets[0], ast.Subscript)
                    and isinstance(p, ast.Assign) and isinstance(p.value, ast.Dict) and not p.value.keys
                    and isinstance(p.targets[0], ast.Name) and isinstance(s.body[0].targets[0].value, ast.Name)
                    and s.body[0].targets[0].value.id == p.targets[0].id):
                t = s.body[0].targets[0]
                p.value = ast.DictComp(t.slice, s.body[0].value, [ast.comprehension(s.target, s.iter, [], 0)])
                continue
            res.append(s)
        return res
    def visit_FunctionDef(self, n):
        n.body = self.do(n.body)
        return n

class Rename(Base):
    def visit_FunctionDef(self, n):
        args = {a.arg for a in n.args.args + n.args.kwonlyargs}
        stored, bad = set(), set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): stored.add(x.id)
            if isinstance(x, (ast.Import, ast.ImportFrom)): bad |= {(a.asname or a.name).split(".")[0] for a in x.names}
            if isinstance(x, (ast.Global, ast.Nonlocal)): bad |= set(x.names)
        names = stored - args - bad
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in names: x.id = "r_" + x.id
            if isinstance(x, ast.ExceptHandler) and x.name in names: x.name = "r_" + x.name
        return n

class EnumToRange(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "enumerate" and len(c.args) == 1 and isinstance(c.args[0], (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Tuple):
            i, x = n.target.elts
            n.target = i
            n.iter = ast.Call(N("range"), [ast.Call(N("len"), [c.args[0]], [])], [])
            n.body = [ast.Assign([x], ast.Subscript(c.args[0], N(i.id), ast.Load()))] + n.body
        return n

class RangeToEnum(Base):
    pass

class Impl(Base):
    """moves the body of each method into a private one"""
    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.name.startswith("__") and s.args.args and s.args.args[0].arg == "self" and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(s)):
                h = copy.deepcopy(s)
                h.name = "_impl_" + n.name + "_" + s.name
                h.returns = None
                a = s.args
                call = ast.Call(ast.Attribute(N("self"), h.name, ast.Load()),
                    [N(x.arg) for x in a.args[1:]] + ([ast.Starred(N(a.vararg.arg), ast.Load())] if a.vararg else []),
                    [ast.keyword(k.arg, N(k.arg)) for k in a.kwonlyargs] + ([ast.keyword(None, N(a.kwarg.arg))] if a.kwarg else []))
                s.body = [ast.Return(call)]
                out += [s, h]
            else:
                out.append(s)
        n.body = out
        return n
    def visit_FunctionDef(self, n): return n

class ImplFn(Base):
    """module functions: body moved to a helper"""
    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list:
                h = copy.deepcopy(s)
                h.name = "_impl_" + s.name
                a = s.args
                s.body = [ast.Return(ast.Call(N(h.name), [N(x.arg) for x in a.args] + ([ast.Starred(N(a.vararg.arg), ast.Load())] if a.vararg else []),
                    [ast.keyword(k.arg, N(k.arg)) for k in a.kwonlyargs] + ([ast.keyword(None, N(a.kwarg.arg))] if a.kwarg else [])))]
                out += [h, s]
            else:
                out.append(s)
        n.body = out
        return n

class TempArgs(Base):
    """simple statement calls: arguments into temporaries"""
    def do(self, body):
        res = []
        for s in body:
            for f, b in blocks(s):
                setattr(s, f, self.do(b))
            if isinstance(s, ast.Try):
                for h in s.handlers: h.body = self.do(h.body)
            c = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else None
            if isinstance(c, ast.Call) and not any(isinstance(a, ast.Starred) for a in c.args) and not (isinstance(c.func, ast.Attribute) and not isinstance(c.func.value, ast.Name)):
                for k, a in enumerate(c.args):
                    if isinstance(a, (ast.Name, ast.Constant, ast.Lambda, ast.GeneratorExp)): continue
                    v = self.fresh("given")
                    res.append(ast.Assign([N(v, ast.Store)], a))
                    c.args[k] = N(v)
                for k in c.keywords:
                    if isinstance(k.value, (ast.Name, ast.Constant, ast.Lambda, ast.GeneratorExp)): continue
                    v = self.fresh("given")
                    res.append(ast.Assign([N(v, ast.Store)], k.value))
                    k.value = N(v)
            res.append(s)
        return res
    def visit_FunctionDef(self, n):
        n.body = self.do(n.body)
        return n

class Aug(Base):
    """name = name + x <-> for plain integer/str counters only: x += 1 -> x = x + 1"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant):
            return ast.Assign([n.target], ast.BinOp(N(n.target.id), n.op, n.value))
        return n

class Swap(Base):
    """comparisons the other way round, sums and products swapped"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and not isinstance(n.left, (ast.Constant, ast.List)) and not isinstance(n.right, (ast.List, ast.Constant)):
            n.left, n.right = n.right, n.left
        return n

class Noise(Base):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = n.body[:1] + [ast.Assign([N("_nothing", ast.Store)], ast.Constant(None)), ast.Assert(ast.Compare(N("_nothing"), [ast.Is()], [ast.Constant(None)]), None)] + n.body[1:] if isinstance(n.body[0], ast.Expr) else [ast.Pass()] + n.body
        return n

class Hoist(Base):
    """loops: iterable into a variable first; conditions into a variable first"""
    def do(self, body):
        res = []
        for s in body:
            for f, b in blocks(s):
                setattr(s, f, self.do(b))
            if isinstance(s, ast.Try):
                for h in s.handlers: h.body = self.do(h.body)
            if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                v = self.fresh("over")
                res.append(ast.Assign([N(v, ast.Store)], s.iter))
                s.iter = N(v)
            if isinstance(s, ast.If):
                v = self.fresh("holds")
                res.append(ast.Assign([N(v, ast.Store)], s.test))
                s.test = N(v)
            res.append(s)
        return res
    def visit_FunctionDef(self, n):
        n.body = self.do(n.body)
        return n

class LoopHelper(Base):
    """the value appended or stored in a loop computed by a local function"""
    def visit_FunctionDef(self, n):
        res = []
        for s in n.body:
            if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.Assign) and not any(isinstance(x, (ast.Yield, ast.Await)) for x in ast.walk(s)):
                names = [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]
                f = self.fresh("_one")
                a = ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[])
                res.append(ast.FunctionDef(f, a, [ast.Return(s.body[0].value)], [], lineno=0))
                s.body[0].value = ast.Call(N(f), [N(x) for x in names], [])
            res.append(s)
        n.body = res
        return n

class WhileFor(Base):
    """for i in range(e): body -> while, when no continue inside"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) == 1 and not n.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            i, m = self.fresh("_k"), self.fresh("_m")
            return [ast.Assign([N(m, ast.Store)], n.iter.args[0]), ast.Assign([N(i, ast.Store)], ast.Constant(0)),
                ast.While(ast.Compare(N(i), [ast.Lt()], [N(m)]), [ast.Assign([n.target], N(i))] + n.body + [ast.AugAssign(N(i, ast.Store), ast.Add(), ast.Constant(1))], [])]
        return n

class Fmt(Base):
    """f-strings to str.format"""
    def visit_JoinedStr(self, n):
        t, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant): t += v.value.replace("{", "{{").replace("}", "}}")
            else:
                if v.conversion != -1 or v.format_spec is not None: return n
                t += "{}"; args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(t), "format", ast.Load()), args, [])

class Pct(Base):
    """f-strings to the % operator"""
    def visit_JoinedStr(self, n):
        t, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant): t += v.value.replace("%", "%%")
            else:
                if v.conversion != -1 or v.format_spec is not None and not isinstance(v.format_spec.values[0], ast.Constant): return n
                sp = v.format_spec.values[0].value if v.format_spec is not None else "s"
                t += "%" + sp; args.append(v.value)
        return ast.BinOp(ast.Constant(t), ast.Mod(), ast.Tuple(args, ast.Load()))

class Concat(Base):
    """f-strings to + and str()"""
    def visit_JoinedStr(self, n):
        r = ast.Constant("")
        for v in n.values:
            if isinstance(v, ast.Constant): x = v
            else:
                if v.conversion != -1 or v.format_spec is not None: return n
                x = ast.Call(N("str"), [v.value], [])
            r = x if isinstance(r, ast.Constant) and r.value == "" else ast.BinOp(r, ast.Add(), x)
        return r

class Walrus(Base):
    """nested ifs for and-conditions without else"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            b = n.body
            for t in reversed(n.test.values): b = [ast.If(t, b, [])]
            return b
        return n

class Starmap(Base):
    """comprehension [f(x) for x in xs] -> list(map(lambda x: f(x), xs))"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators
        if len(g) == 1 and not g[0].ifs and isinstance(g[0].target, ast.Name):
            return ast.Call(N("list"), [ast.Call(N("map"), [ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(g[0].target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), n.elt), g[0].iter], [])], [])
        return n
    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.Call(N("dict"), [ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], [])

class Kwargs(Base):
    """self.x attributes read into local variables first"""
    def visit_FunctionDef(self, n):
        if not n.args.args or n.args.args[0].arg != "self" or n.name.startswith("__"): return n
        stored = {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
        called = {x.func.attr for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
        used = {}
        top = [x for s in n.body if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) for x in ast.walk(s) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"]
        names = {x.attr for x in top} - stored - called
        if any(isinstance(x, (ast.FunctionDef,)) for s in n.body for x in ast.walk(s)): return n
        if any(isinstance(x, ast.If) for x in n.body): return n
        for s in n.body:
            for x in ast.walk(s):
                for f, v in ast.iter_fields(x):
                    pass
        class R(ast.NodeTransformer):
            def visit_Attribute(self, x):
                self.generic_visit(x)
                if isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in names and isinstance(x.ctx, ast.Load): return N("own_" + x.attr)
                return x
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body = n.body[:k] + [ast.Assign([N("own_" + a, ast.Store)], ast.Attribute(N("self"), a, ast.Load())) for a in sorted(names)] + [R().visit(s) for s in n.body[k:]]
        return n

KINDS = {k.__name__: k for k in (TempReturn, FlipIf, GuardElse, CompToLoop, LoopToComp, Rename, EnumToRange, Impl, ImplFn, TempArgs, Aug, Swap, Noise, Hoist, LoopHelper, WhileFor, Fmt, Pct, Concat, Walrus, Starmap, Kwargs)}
if __name__ == "__main__":
    kind, d = sys.argv[1:]
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py") or f in ("letters.py", "plot.py"): continue
        p = os.path.join(d, f)
        src = open(p).read()
        t = ast.parse(src)
        u = ast.fix_missing_locations(KINDS[kind]().visit(copy.deepcopy(t)))
        new = ast.unparse(u)
        if ast.dump(ast.parse(new)) != ast.dump(t):
            compile(new, p, "exec")
            open(p, "w").write(new + "\n")
