"""AST instrumentation: route the operations that CPython would execute on
native types (calls, `in`, subscripts, f-strings, boolean connectives) through
symx.rt, so that the module runs unchanged on concrete values and symbolically
on symbolic ones.  The source is read from disk on every run."""
import ast

RT = "_sx_rt"


def _rt(name):
    return ast.Attribute(value=ast.Name(id=RT, ctx=ast.Load()), attr=name, ctx=ast.Load())


def _call(name, args):
    return ast.Call(func=_rt(name), args=args, keywords=[])


class _Impure(ast.NodeVisitor):
    def __init__(self):
        self.bad = False

    def visit_NamedExpr(self, n):
        self.bad = True

    visit_Yield = visit_YieldFrom = visit_Await = visit_NamedExpr

    def visit_Lambda(self, n):
        pass

    # generator expressions and comprehensions are fine


def lambdable(node):
    v = _Impure()
    v.visit(node)
    if v.bad:
        return False
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("super", "locals"):
            return False
    return True


def syntactically_pure(fn):
    """May this function be evaluated speculatively?  (Its callees are checked
    at run time.)"""
    if isinstance(fn, ast.AsyncFunctionDef):
        return False
    for n in ast.walk(fn):
        if isinstance(
            n,
            (
                ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.Delete, ast.Import,
                ast.ImportFrom, ast.With, ast.AsyncWith, ast.Try, ast.Raise, ast.While,
            ),
        ):
            return False
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
            return False
        if isinstance(n, ast.AugAssign) and not isinstance(n.target, ast.Name):
            return False
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            return False
    return True


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.pure = []  # (name, lineno)

    def stmts(self, body):
        out = []
        for x in body:
            r = self.visit(x)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    # annotations are left alone
    def visit_AnnAssign(self, n):
        n.target = self.visit(n.target)
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arguments(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return a

    def _fn(self, n):
        n.args = self.visit_arguments(n.args)
        if syntactically_pure(n):
            self.pure.append((n.name, n.lineno))
        self.depth += 1
        n.body = self.stmts(n.body)
        self.depth -= 1
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = _fn

    def visit_Lambda(self, n):
        n.args = self.visit_arguments(n.args)
        self.depth += 1
        n.body = self.visit(n.body)
        self.depth -= 1
        return n

    def visit_ClassDef(self, n):
        d, self.depth = self.depth, 0
        n.body = self.stmts(n.body)
        self.depth = d
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ("super", "locals", "globals", "vars", "eval", "exec"):
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        return ast.copy_location(
            ast.Call(func=_rt("call"), args=[n.func] + n.args, keywords=n.keywords), n
        )

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(_call("not_", [n.operand]), n)
        return n

    def visit_BoolOp(self, n):
        ok = self.depth > 0 and all(lambdable(v) for v in n.values[1:])
        self.generic_visit(n)
        if not ok:
            return n
        th = [
            ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=v,
            )
            for v in n.values[1:]
        ]
        return ast.copy_location(
            _call("or_" if isinstance(n.op, ast.Or) else "and_", [n.values[0]] + th), n
        )

    def visit_Compare(self, n):
        if len(n.ops) > 1:
            # a < b < c  ->  (t := b is evaluated once) only when b is simple
            if self.depth > 0 and all(isinstance(c, (ast.Name, ast.Constant, ast.Attribute)) for c in n.comparators[:-1]):
                parts = []
                left = n.left
                for op, c in zip(n.ops, n.comparators):
                    parts.append(ast.Compare(left=left, ops=[op], comparators=[c]))
                    left = c
                b = ast.BoolOp(op=ast.And(), values=parts)
                import copy

                return self.visit(ast.copy_location(copy.deepcopy(b), n))
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        if isinstance(n.ops[0], ast.In):
            return ast.copy_location(_call("contains", [n.left, n.comparators[0]]), n)
        if isinstance(n.ops[0], ast.NotIn):
            return ast.copy_location(_call("not_contains", [n.left, n.comparators[0]]), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            return ast.copy_location(_call("getitem", [n.value, n.slice]), n)
        return n

    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        n.targets = [self.visit(t) for t in n.targets]
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and not isinstance(n.targets[0].slice, ast.Slice):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(_call("setitem", [t.value, t.slice, n.value])), n)
        return n

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Subscript) and not isinstance(n.target.slice, ast.Slice):
            if isinstance(n.target.value, (ast.Name, ast.Attribute)) and isinstance(
                n.target.slice, (ast.Name, ast.Constant, ast.Attribute)
            ):
                import copy

                load = copy.deepcopy(n.target)
                load.ctx = ast.Load()
                return self.visit(
                    ast.copy_location(
                        ast.Assign(targets=[n.target], value=ast.BinOp(left=load, op=n.op, right=n.value)), n
                    )
                )
        self.generic_visit(n)
        return n

    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            t = self.visit(t)
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.copy_location(ast.Expr(_call("delitem", [t.value, t.slice])), n))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), n))
        return out

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(_call("fmt", [self.visit(v.value), ast.Constant(value=v.conversion), spec]))
        return ast.copy_location(_call("fstr", parts), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        if all(isinstance(e, ast.Constant) for e in n.elts):
            return n
        return ast.copy_location(_call("mkset", [ast.List(elts=n.elts, ctx=ast.Load())]), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(_call("mkset", [ast.ListComp(elt=n.elt, generators=n.generators)]), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(
            _call(
                "mkdict",
                [ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)],
            ),
            n,
        )

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_call("mod", [n.left, n.right]), n)
        op = {ast.Sub: "difference", ast.BitOr: "union", ast.BitAnd: "intersection"}.get(type(n.op))
        if op and not isinstance(n.left, ast.Constant) and not isinstance(n.right, ast.Constant):
            return ast.copy_location(_call("setop", [ast.Constant(op), n.left, n.right]), n)
        return n

    def visit_match_case(self, n):  # patterns untouched
        if n.guard is not None:
            n.guard = self.visit(n.guard)
        n.body = self.stmts(n.body)
        return n


def instrument(source, filename):
    tree_ = ast.parse(source, filename)
    rw = Rewriter()
    tree_ = rw.visit(tree_)
    ast.fix_missing_locations(tree_)
    code = compile(tree_, filename, "exec", dont_inherit=True)
    return code, set(rw.pure)


def code_objects(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, type(code)):
            yield from code_objects(c)
