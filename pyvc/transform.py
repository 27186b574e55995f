"""Mechanical AST transformation of a repository module (see DESIGN.md for what it changes)."""
from __future__ import annotations

import ast


def bound_names(nodes):
    """Names bound by the statements (not descending into nested function/class scopes)."""
    out = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)
            for d in n.decorator_list + n.bases:
                self.visit(d)

        def visit_Lambda(self, n):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d)

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def _comp(self, n):
            # comprehension targets are local to it; walrus leaks
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_MatchAs(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_MatchStar(self, n):
            if n.name:
                out.add(n.name)

        def visit_MatchMapping(self, n):
            if n.rest:
                out.add(n.rest)
            self.generic_visit(n)

    v = V()
    for n in nodes:
        v.visit(n)
    return out


def own_walk(node):
    """Walk a function body without entering nested functions, lambdas or classes."""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))


def loop_has(body, kinds):
    """Does the loop body contain break/continue of this loop, or a return?"""
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


def _has_return(body):
    return loop_has(body, (ast.Return,))


class Scope:
    def __init__(self, kind, local=(), glob=(), nonl=()):
        self.kind = kind  # 'module' | 'function' | 'class'
        self.local = set(local)
        self.glob = set(glob)
        self.nonl = set(nonl)
        self.dummies = set()
        self.loop_depth = 0
        self.gen = None  # name of the accumulator when the generator is turned into a list


def pv(name):
    return ast.Attribute(ast.Name("__pv__", ast.Load()), name, ast.Load())


def call(fn, *args):
    return ast.Call(fn, list(args), [])


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


class Transformer(ast.NodeTransformer):
    def __init__(self):
        self.scopes = []
        self.n = 0

    def uid(self, p):
        self.n += 1
        return f"__pv_{p}_{self.n}"

    # ------------------------------------------------------------------ scopes
    def module(self, tree):
        self.scopes.append(Scope("module"))
        tree.body = self.block(tree.body)
        self.scopes.pop()
        return ast.fix_missing_locations(tree)

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out += r
            else:
                out.append(r)
        return out

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self._args(n.args)
        glob, nonl = set(), set()
        for s in own_walk(n.body):
            if isinstance(s, ast.Global):
                glob |= set(s.names)
            elif isinstance(s, ast.Nonlocal):
                nonl |= set(s.names)
        params = {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
        for a in (n.args.vararg, n.args.kwarg):
            if a:
                params.add(a.arg)
        local = (bound_names(n.body) | params) - glob - nonl
        sc = Scope("function", local, glob, nonl)
        yields = [x for x in own_walk(n.body) if isinstance(x, (ast.Yield, ast.YieldFrom))]
        inloop = []
        for x in own_walk(n.body):
            if isinstance(x, (ast.For, ast.While)):
                inloop += [y for y in own_walk(x.body) if isinstance(y, (ast.Yield, ast.YieldFrom))]
        sc.native_loops = False
        if yields and (inloop or any(isinstance(x, (ast.For, ast.While)) for x in own_walk(n.body))):
            if n.decorator_list:
                sc.native_loops = True
            elif inloop:
                sc.gen = self.uid("gen")
        self.scopes.append(sc)
        doc = []
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = [body[0]], body[1:]
        body = self.block(body)
        pre = []
        dm = sorted(sc.dummies - params)
        if dm:
            pre.append(ast.If(ast.Constant(False), [ast.Assign([name(x, True) for x in dm], ast.Constant(None))], []))
        if sc.gen:
            pre.append(ast.Assign([name(sc.gen, True)], call(pv("genlist"))))
            body = body + [ast.Return(call(pv("gendone"), name(sc.gen)))]
        mark = ast.Expr(call(pv("enter"), ast.Constant(n.name), ast.Constant(n.lineno)))
        n.body = doc + pre + [mark] + body or [ast.Pass()]
        self.scopes.pop()
        n.returns = None
        return n

    def visit_AsyncFunctionDef(self, n):
        return n

    def _args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d else None for d in a.kw_defaults]
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None

    def visit_Lambda(self, n):
        self._args(n.args)
        n.body = self.visit(n.body)
        return n

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        self.scopes.append(Scope("class"))
        n.body = self.block(n.body)
        self.scopes.pop()
        return n

    def visit_AnnAssign(self, n):
        n.value = self.visit(n.value) if n.value else None
        if self.scopes[-1].kind == "function" or not isinstance(n.target, ast.Name):
            if n.value is None:
                return None
            t = self.visit(n.target)
            return ast.copy_location(ast.Assign([t], n.value), n)
        # class/module level: keep the annotation (dataclasses) but never evaluate it
        if not isinstance(n.annotation, ast.Constant):
            n.annotation = ast.Constant(ast.unparse(n.annotation))
        return n

    # ------------------------------------------------------------------ expressions
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(call(pv("num"), ast.Constant(repr(n.value))), n)
        if isinstance(n.value, complex):
            return ast.copy_location(call(pv("unsupported"), ast.Constant("complex literal")), n)
        return n

    def visit_JoinedStr(self, n):
        n.values = [self.visit(v) if isinstance(v, ast.FormattedValue) else v for v in n.values]
        return n

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        if n.format_spec is not None:
            n.format_spec = self.visit(n.format_spec)
        return ast.copy_location(
            ast.FormattedValue(call(pv("fmt"), n.value), n.conversion, n.format_spec), n)

    def visit_BinOp(self, n):
        n.left = self.visit(n.left)
        n.right = self.visit(n.right)
        f = {ast.Div: "div", ast.Pow: "pow", ast.Mod: "mod", ast.FloorDiv: "floordiv"}.get(type(n.op))
        if f:
            return ast.copy_location(call(pv(f), n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        f = {ast.Div: "div", ast.Pow: "pow", ast.Mod: "mod", ast.FloorDiv: "floordiv"}.get(type(n.op))
        value = self.visit(n.value)
        if not f:
            n.target = self.visit(n.target)
            n.value = value
            return n
        if isinstance(n.target, ast.Name):
            return ast.copy_location(
                ast.Assign([name(n.target.id, True)], call(pv("i" + f), name(n.target.id), value)), n)
        if isinstance(n.target, ast.Attribute):
            o = self.uid("o")
            self._local(o)
            return [
                ast.copy_location(ast.Assign([name(o, True)], self.visit(n.target.value)), n),
                ast.copy_location(ast.Assign(
                    [ast.Attribute(name(o), n.target.attr, ast.Store())],
                    call(pv("i" + f), ast.Attribute(name(o), n.target.attr, ast.Load()), value)), n)]
        o, k = self.uid("o"), self.uid("k")
        self._local(o)
        self._local(k)
        return [
            ast.copy_location(ast.Assign([name(o, True)], self.visit(n.target.value)), n),
            ast.copy_location(ast.Assign([name(k, True)], call(pv("key"), self._slice(n.target.slice))), n),
            ast.copy_location(ast.Assign(
                [ast.Subscript(name(o), name(k), ast.Store())],
                call(pv("i" + f), ast.Subscript(name(o), name(k), ast.Load()), value)), n)]

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return call(name("slice"), *[self.visit(x) if x else ast.Constant(None) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._slice(e) for e in s.elts], ast.Load())
        return self.visit(s)

    def _local(self, nm):
        # temporaries live in the innermost python function; nothing else refers to them
        return None

    def visit_Compare(self, n):
        n.left = self.visit(n.left)
        n.comparators = [self.visit(c) for c in n.comparators]
        if any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
            if len(n.ops) != 1:
                return n
            r = call(pv("is_"), n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.IsNot):
                r = ast.UnaryOp(ast.Not(), r)
            return ast.copy_location(r, n)
        return n

    def visit_List(self, n):
        n.elts = [self.visit(e) for e in n.elts]
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(call(pv("mklist"), ast.List(n.elts, ast.Load())), n)
        return n

    # comprehensions --------------------------------------------------------
    def _target_lambda(self, target, body):
        if isinstance(target, ast.Name):
            return ast.Lambda(_largs([target.id]), body)
        if isinstance(target, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in target.elts):
            names = []
            inner = body
            for e in reversed(target.elts):
                if isinstance(e, ast.Name):
                    names.append(e.id)
                else:
                    t = self.uid("t")
                    names.append(t)
                    inner = ast.Call(self._target_lambda(e, inner), [name(t)], [])
            names.reverse()
            t = self.uid("t")
            fn = ast.Lambda(_largs(names), inner)
            return ast.Lambda(
                _largs([t]),
                ast.Call(fn, [ast.Starred(call(pv("unpack"), name(t), ast.Constant(len(names))), ast.Load())], []))
        return None

    def _simple(self, n):
        if any(g.is_async for g in n.generators):
            return False
        for x in ast.walk(n):
            if isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
                return False
        for g in n.generators:
            if self._target_lambda(g.target, ast.Constant(None)) is None:
                return False
        return True

    def _native_comp(self, n):
        for g in n.generators:
            g.iter = call(pv("concrete"), self.visit(g.iter))
            g.ifs = [self.visit(c) for c in g.ifs]
        if isinstance(n, ast.DictComp):
            n.key, n.value = self.visit(n.key), self.visit(n.value)
        else:
            n.elt = self.visit(n.elt)
        return n

    def _comp(self, n, fn):
        if not self._simple(n):
            r = self._native_comp(n)
            if isinstance(n, ast.ListComp):
                r = call(pv("mklist"), r)
            return r

        def build(gens, outer):
            g = gens[0]
            it = self.visit(g.iter)
            if len(gens) == 1:
                elt, flat = self.visit(n.elt), False
            else:
                elt, flat = build(gens[1:], False), True
            f = self._target_lambda(g.target, elt)
            conds = [self._target_lambda(g.target, self.visit(c)) for c in g.ifs]
            return call(pv("flatcomp" if flat else (fn if outer else "listcomp")), it, f, *conds)

        r = build(n.generators, True)
        if len(n.generators) > 1 and fn == "genexp":
            r = call(pv("asgen"), r)
        return ast.copy_location(r, n)

    def visit_ListComp(self, n):
        return self._comp(n, "listcomp")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "genexp")

    def visit_SetComp(self, n):
        return self._native_comp(n)

    def visit_DictComp(self, n):
        return self._native_comp(n)

    # ------------------------------------------------------------------ statements
    def visit_Yield(self, n):
        sc = self._fscope()
        v = self.visit(n.value) if n.value else ast.Constant(None)
        if sc is not None and sc.gen:
            return ast.copy_location(ast.Call(ast.Attribute(name(sc.gen), "append", ast.Load()), [v], []), n)
        n.value = v
        return n

    def visit_YieldFrom(self, n):
        sc = self._fscope()
        v = self.visit(n.value)
        if sc is not None and sc.gen:
            return ast.copy_location(ast.Call(ast.Attribute(name(sc.gen), "extend", ast.Load()), [v], []), n)
        n.value = v
        return n

    def _fscope(self):
        for s in reversed(self.scopes):
            if s.kind == "function":
                return s
        return None

    def visit_Return(self, n):
        sc = self.scopes[-1]
        v = self.visit(n.value) if n.value else ast.Constant(None)
        if sc.gen:
            v = call(pv("gendone"), name(sc.gen))
        if sc.loop_depth:
            return ast.copy_location(ast.Return(call(pv("Ret"), v)), n)
        return ast.copy_location(ast.Return(v), n)

    def visit_Break(self, n):
        if self.scopes[-1].loop_depth:
            return ast.copy_location(ast.Return(pv("BRK")), n)
        return n

    def visit_Continue(self, n):
        if self.scopes[-1].loop_depth:
            return ast.copy_location(ast.Return(pv("CONT")), n)
        return n

    def _closure_decl(self, names):
        sc = self.scopes[-1]
        if sc.kind == "module":
            return [ast.Global(sorted(names))] if names else []
        out = []
        g = sorted(x for x in names if x in sc.glob)
        nl = sorted(x for x in names if x not in sc.glob)
        sc.dummies |= {x for x in nl if x not in sc.nonl}
        if g:
            out.append(ast.Global(g))
        if nl:
            out.append(ast.Nonlocal(nl))
        return out

    def visit_For(self, n):
        sc = self.scopes[-1]
        it = self.visit(n.iter)
        if sc.kind == "class" or getattr(sc, "native_loops", False):
            d, sc.loop_depth = sc.loop_depth, 0
            n.iter = call(pv("concrete"), it)
            n.target = self.visit(n.target)
            n.body = self.block(n.body)
            n.orelse = self.block(n.orelse)
            sc.loop_depth = d
            return n
        names = bound_names([n.target] + n.body)
        hasret = _has_return(n.body)
        sc.loop_depth += 1
        body = self.block(n.body)
        sc.loop_depth -= 1
        fb, itv, r = self.uid("body"), self.uid("it"), self.uid("r")
        target = self.visit(n.target)
        fn = ast.FunctionDef(
            fb, _largs([itv]),
            self._closure_decl(names) + [ast.Assign([target], name(itv))] + body + [ast.Return(ast.Constant(None))],
            [], None, type_params=[])
        out = [fn, ast.Assign([name(r, True)], call(pv("for_"), it, name(fb)))]
        out += self._after(n, r, hasret)
        return [ast.copy_location(x, n) for x in out]

    def _after(self, n, r, hasret):
        out = []
        sc = self.scopes[-1]
        if hasret:
            val = name(r) if sc.loop_depth else ast.Attribute(name(r), "value", ast.Load())
            out.append(ast.If(call(pv("isret"), name(r)), [ast.Return(val)], []))
        if n.orelse:
            orelse = self.block(n.orelse)
            out.append(ast.If(call(pv("notbrk"), name(r)), orelse, []))
        return out

    def visit_While(self, n):
        sc = self.scopes[-1]
        if sc.kind == "class" or getattr(sc, "native_loops", False):
            d, sc.loop_depth = sc.loop_depth, 0
            n.test = self.visit(n.test)
            n.body = self.block(n.body)
            n.orelse = self.block(n.orelse)
            sc.loop_depth = d
            return n
        names = bound_names(n.body + [ast.Expr(n.test)])
        wal = bound_names([ast.Expr(n.test)])
        hasret = _has_return(n.body)
        test = self.visit(n.test)
        sc.loop_depth += 1
        body = self.block(n.body)
        sc.loop_depth -= 1
        fc, fb, r = self.uid("cond"), self.uid("body"), self.uid("r")
        c = ast.FunctionDef(fc, _largs([]), self._closure_decl(wal) + [ast.Return(test)], [], None, type_params=[])
        b = ast.FunctionDef(fb, _largs([]), self._closure_decl(names) + body + [ast.Return(ast.Constant(None))], [], None, type_params=[])
        out = [c, b, ast.Assign([name(r, True)], call(pv("while_"), name(fc), name(fb)))]
        out += self._after(n, r, hasret)
        return [ast.copy_location(x, n) for x in out]

    def visit_If(self, n):
        if isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            return None if not n.orelse else self.block(n.orelse)
        n.test = self.visit(n.test)
        n.body = self.block(n.body) or [ast.Pass()]
        n.orelse = self.block(n.orelse)
        return n

    def visit_With(self, n):
        for i in n.items:
            i.context_expr = self.visit(i.context_expr)
            if i.optional_vars is not None:
                i.optional_vars = self.visit(i.optional_vars)
        n.body = self.block(n.body)
        return n

    def visit_Try(self, n):
        n.body = self.block(n.body)
        for h in n.handlers:
            h.type = self.visit(h.type) if h.type else None
            h.body = self.block(h.body) or [ast.Pass()]
        n.orelse = self.block(n.orelse)
        n.finalbody = self.block(n.finalbody)
        return n

    def visit_Match(self, n):
        n.subject = self.visit(n.subject)
        for c in n.cases:
            c.guard = self.visit(c.guard) if c.guard else None
            c.body = self.block(c.body)
        return n


def _largs(names):
    return ast.arguments([], [ast.arg(x, None) for x in names], None, [], [], None, [])


def transform(src, filename):
    tree = ast.parse(src, filename)
    return Transformer().module(tree)
