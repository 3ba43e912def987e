"""Statements, expressions, loops."""
import ast

import z3

from .engine import I, is_V, is_boolv, is_int, is_strv, is_z, keysT, simp, simp_int, zand, zb, znot, zor
from .interp import BUILTIN_NAMES, Interp, local_names
from .values import *  # noqa: F403


class Loop:
    """Result of executing a loop body for an arbitrary iteration i of n."""

    def __init__(self, i, n, base_oid, normal, exits, name):
        self.i, self.n, self.base_oid, self.normal, self.exits, self.name = i, n, base_oid, normal, exits, name


class Exec(Interp):
    # ---------------------------------------------------------------- statements
    def ex(self, s, env, mod):
        m = getattr(self, "ex_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s, env, mod)

    def ex_Pass(self, s, env, mod):
        pass

    def ex_Expr(self, s, env, mod):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env, mod)

    def ex_Return(self, s, env, mod):
        raise Ret(self.ev(s.value, env, mod) if s.value is not None else None)

    def ex_Break(self, s, env, mod):
        raise Brk()

    def ex_Continue(self, s, env, mod):
        raise Cont()

    def ex_Global(self, s, env, mod):
        raise Unsupported("global statement")

    def ex_Nonlocal(self, s, env, mod):
        pass

    def ex_TypeAlias(self, s, env, mod):
        pass

    def ex_Import(self, s, env, mod):
        for a in s.names:
            self.assign_name((a.asname or a.name).split(".")[0], self.import_value(mod, s, a), env)

    def ex_ImportFrom(self, s, env, mod):
        for a in s.names:
            self.assign_name(a.asname or a.name, self.import_value(mod, s, a), env)

    def ex_FunctionDef(self, s, env, mod):
        q = (self.frames[-1].func.qual if self.frames else mod.name) + ".<locals>." + s.name
        f = self.make_function(s, env, mod, q)
        self.assign_name(s.name, f, env)

    def ex_ClassDef(self, s, env, mod):
        q = (self.frames[-1].func.qual if self.frames else mod.name) + ".<locals>." + s.name
        self.assign_name(s.name, ClassV(q, s, mod, env), env)

    def ex_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def ex_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def ex_AugAssign(self, s, env, mod):
        cur = self.ev(s.target, env, mod)
        rhs = self.ev(s.value, env, mod)
        if isinstance(cur, Ref):
            o = self.obj(cur)
            if isinstance(o, ListObj) and isinstance(s.op, ast.Add):
                self.st.heap[cur.oid] = ListObj(o.seq + self.iter_seq(rhs))
                return
            if isinstance(o, SetObj) and not o.frozen and isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub)):
                r = self.binop(type(s.op).__name__, cur, rhs)
                self.st.heap[cur.oid] = SetObj(self.obj(r).set, False)
                return
            if isinstance(o, DictObj) and isinstance(s.op, ast.BitOr):
                self.st.heap[cur.oid] = DictObj(o.map.plus(("merge", self.map_of(rhs))), o.cls, o.default)
                return
        self.assign(s.target, self.binop(type(s.op).__name__, cur, rhs), env, mod)

    def assign_name(self, name, v, env):
        e = env
        while e is not None:
            if name in e.locals:
                self.env_set(e, name, v)
                return
            e = e.parent
        raise Unsupported(f"assignment to {name} outside any local scope")

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            # a nonlocal name is not in this scope's locals and resolves outwards
            self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            seq = self.iter_seq(v)
            c = seq.concrete()
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if not star:
                if c is not None:
                    if len(c) != len(t.elts):
                        self.throw("ValueError", "unpack")
                else:
                    if not self.decide(I(self.seq_len(seq)) == len(t.elts)):
                        self.throw("ValueError", "unpack")
                    c = [self.seq_at(seq, k) for k in range(len(t.elts))]
                for e, x in zip(t.elts, c):
                    self.assign(e, x, env, mod)
            else:
                k = star[0]
                after = len(t.elts) - k - 1
                if c is None:
                    if after:
                        raise Unsupported("starred unpack of symbolic sequence")
                    n = self.seq_len(seq)
                    if not self.decide(I(n) >= k):
                        self.throw("ValueError", "unpack")
                    head = [self.seq_at(seq, j) for j in range(k)]
                    blk = self.as_block(seq)
                    rest = Seq([Block(simp_int(I(n) - k), lambda j: blk.at(simp_int(I(j) + k)))])
                    for e, x in zip(t.elts[:k], head):
                        self.assign(e, x, env, mod)
                    self.assign(t.elts[k].value, self.new_list(rest), env, mod)
                    return
                if len(c) < k + after:
                    self.throw("ValueError", "unpack")
                for e, x in zip(t.elts[:k], c[:k]):
                    self.assign(e, x, env, mod)
                self.assign(t.elts[k].value, self.new_list(Seq.of(c[k:len(c) - after])), env, mod)
                for e, x in zip(t.elts[k + 1:], c[len(c) - after:]):
                    self.assign(e, x, env, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env, mod), self.ev(t.slice, env, mod), v)
        else:
            raise Unsupported("assignment target " + type(t).__name__)

    def ex_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, mod)
                k = self.ev(t.slice, env, mod)
                self.method(o, "__delitem__", Seq.of([k]), Map())
            elif isinstance(t, ast.Name):
                d = dict(self.st.heap[env.oid])
                d.pop(t.id, None)
                self.st.heap[env.oid] = d
            else:
                raise Unsupported("del")

    def ex_If(self, s, env, mod):
        if self.truth(self.ev(s.test, env, mod)):
            self.run_body(s.body, env, mod)
        else:
            self.run_body(s.orelse, env, mod)

    def ex_Assert(self, s, env, mod):
        if not self.truth(self.ev(s.test, env, mod)):
            self.throw("AssertionError")

    def ex_Raise(self, s, env, mod):
        if s.exc is None:
            cur = self.st.ghost.get("handling")
            if not cur:
                raise Unsupported("bare raise")
            raise PyExc(cur[-1])
        v = self.ev(s.exc, env, mod)
        if s.cause is not None:
            self.ev(s.cause, env, mod)
        if isinstance(v, (ClassV, ExtV)):
            v = self.call(v, Seq(), Map())
        raise PyExc(v)

    def ex_With(self, s, env, mod, k=0):
        if k == len(s.items):
            self.run_body(s.body, env, mod)
            return
        it = s.items[k]
        cm = self.ev(it.context_expr, env, mod)

        def body(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, mod)
            self.ex_With(s, env, mod, k + 1)

        self.run_cm(cm, body)

    def ex_Try(self, s, env, mod):
        def inner():
            try:
                self.run_body(s.body, env, mod)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None:
                        c = True
                    else:
                        c = self.exc_matches(e.val, self.ev(h.type, env, mod))
                    if self.decide(c):
                        if h.name:
                            self.assign_name(h.name, e.val, env)
                        old = self.st.ghost.get("handling", ())
                        self.st.ghost["handling"] = old + (e.val,)
                        try:
                            self.run_body(h.body, env, mod)
                        finally:
                            self.st.ghost["handling"] = old
                        return
                raise
            else:
                self.run_body(s.orelse, env, mod)

        if not s.finalbody:
            inner()
            return
        try:
            inner()
        except (PyExc, Ret, Brk, Cont):
            self.run_body(s.finalbody, env, mod)
            raise
        self.run_body(s.finalbody, env, mod)

    def exc_matches(self, val, c):
        val = self.unbox(val)
        if isinstance(c, TupleV):
            return zor(*[self.exc_matches(val, x) for x in c.seq.concrete()])
        if isinstance(val, Ref):
            k = self.class_of(val)
            return self.is_sub(k, c)
        return self._inst_pred(val, c)

    def ex_While(self, s, env, mod):
        inv = self.loop_contract(s)
        if inv is not None:
            return inv(self, s, env, mod)
        for _ in range(2000):
            f = simp(self.truth_f(self.ev(s.test, env, mod)))
            if not isinstance(f, bool):
                raise Unsupported("while loop with symbolic condition and no invariant")
            if not f:
                self.run_body(s.orelse, env, mod)
                return
            try:
                self.run_body(s.body, env, mod)
            except Brk:
                return
            except Cont:
                continue
        raise Unsupported("while loop did not end")

    loop_contracts = {}

    def loop_contract(self, node):
        if not self.frames:
            return None
        for f in self.loop_contracts.get((self.frames[-1].func.qual, type(node).__name__), ()):
            r = f(node)
            if r is not None:
                return r
        return None

    def ex_For(self, s, env, mod):
        inv = self.loop_contract(s)
        if inv is not None:
            return inv(self, s, env, mod)
        it = self.ev(s.iter, env, mod)
        assigned = local_names([s])

        def body(v):
            self.assign(s.target, v, env, mod)
            self.run_body(s.body, env, mod)

        if self.foreach(it, body):
            return
        self.run_body(s.orelse, env, mod)

    def ex_Match(self, s, env, mod):
        subj = self.ev(s.subject, env, mod)
        for c in s.cases:
            binds = {}
            if self.match(c.pattern, subj, env, mod, binds):
                for k, v in binds.items():
                    self.assign_name(k, v, env)
                if c.guard is None or self.truth(self.ev(c.guard, env, mod)):
                    self.run_body(c.body, env, mod)
                    return

    def match(self, p, v, env, mod, binds):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env, mod, binds):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchValue):
            return self.decide(self.py_eq(v, self.ev(p.value, env, mod)))
        if isinstance(p, ast.MatchSingleton):
            return self.decide(self.identical(v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, env, mod, binds) for x in p.patterns)
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, env, mod)
            if not self.decide(self.isinst(v, c)):
                return False
            if p.patterns:
                ma = self.class_attr(c, "__match_args__") if isinstance(c, ClassV) else None
                if isinstance(c, ClassV) and ma is None and self.is_dataclass(c):
                    names = [f[0] for f in self.dataclass_fields(c)]
                elif ma is not None:
                    names = ma.seq.concrete()
                elif isinstance(c, ExtV) and len(p.patterns) == 1:
                    return self.match(p.patterns[0], v, env, mod, binds)
                else:
                    raise Unsupported("match class positional")
                for nm, q in zip(names, p.patterns):
                    if not self.match(q, self.getattr(v, nm), env, mod, binds):
                        return False
            for nm, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match(q, self.getattr(v, nm), env, mod, binds):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            if not self.decide(self.isinst(v, ExtV("collections.abc.Sequence"))):
                return False
            if isinstance(v, str):
                return False
            seq = self.iter_seq(v)
            stars = [k for k, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            c = seq.concrete()
            if not stars:
                if not self.decide(I(self.seq_len(seq)) == len(p.patterns)):
                    return False
                return all(self.match(q, self.seq_at(seq, k), env, mod, binds) for k, q in enumerate(p.patterns))
            if c is None:
                raise Unsupported("match star on symbolic sequence")
            k = stars[0]
            after = len(p.patterns) - k - 1
            if len(c) < k + after:
                return False
            if not all(self.match(q, c[j], env, mod, binds) for j, q in enumerate(p.patterns[:k])):
                return False
            if p.patterns[k].name:
                binds[p.patterns[k].name] = self.new_list(Seq.of(c[k:len(c) - after]))
            return all(self.match(q, c[len(c) - after + j], env, mod, binds) for j, q in enumerate(p.patterns[k + 1:]))
        raise Unsupported("pattern " + type(p).__name__)

    # ---------------------------------------------------------------- loops
    def foreach(self, it, body):
        """Run body for each element of `it`; True when left by break."""
        seq = it if isinstance(it, Seq) else self.iter_seq(it)
        for g in seq.segs:
            try:
                if isinstance(g, One):
                    try:
                        body(g.v)
                    except Cont:
                        pass
                elif isinstance(g, Block):
                    if isinstance(g.n, int) and g.n <= 64:
                        for j in range(g.n):
                            try:
                                body(g.at(j))
                            except Cont:
                                pass
                    else:
                        self.loop_block(g.n, lambda i, g=g: body(g.at(i)), g)
                elif isinstance(g, Filt):
                    def b(i, g=g):
                        if self.decide(g.keep(i)):
                            body(g.at(i))
                    self.loop_block(g.n, b, g)
                else:
                    raise Unsupported("iteration over a loop-carried sequence")
            except Brk:
                return True
        return False

    def make_hole(self, v, name):
        """A placeholder for the loop-carried value of a variable or heap content."""
        if is_boolv(v):
            return z3.Bool(name)
        if is_int(v):
            return z3.Int(name)
        if isinstance(v, TupleV) and v.cls is None:
            return TupleV(Seq([HoleSeg(name)]))
        return Poison("loop-carried")

    def hole_obj(self, o, name):
        if isinstance(o, ListObj):
            return ListObj(Seq([HoleSeg(name)]))
        if isinstance(o, DictObj):
            return DictObj(Map(None, (), o.map.val_fact, hole=name), o.cls, o.default)
        if isinstance(o, SetObj):
            return SetObj(SetV(arr=z3.Const(name, SetS)), o.frozen)
        return None

    def loop_block(self, n, body, blk):
        i = z3.Int(self.freshname("i"))
        lname = self.freshname("loop")
        base_oid = self.st.next_oid
        pre = dict(self.st.heap)
        hobj, hvar, hfield = {}, {}, {}
        for attempt in range(12):
            cell = {}

            def thunk():
                self.assume(z3.And(0 <= i, i < I(n)))
                self.st.idx = self.st.idx + [i]
                for oid, name in hobj.items():
                    self.st.heap[oid] = self.hole_obj(pre[oid], name)
                    if isinstance(pre[oid], DictObj):
                        kt = sat_(blk.term, i) if isinstance(blk, Block) and blk.keyof is not None and blk.term is not None else None
                        self.keep.append(kt)
                        self.hole_pre[name] = (pre[oid].map, kt)
                for (oid, var), val in hvar.items():
                    d = dict(self.st.heap[oid])
                    v0 = d.get(var)
                    d[var] = val
                    self.st.heap[oid] = d
                for (oid, var), val in hfield.items():
                    o = self.st.heap[oid]
                    self.st.heap[oid] = Inst(o.cls, {**o.fields, var: val})
                cell["start"] = dict(self.st.heap)
                self.st.events = []
                body(i)

            results = self.explore(thunk)
            new = False
            for p in results:
                start = cell["start"]
                for oid in pre:
                    a, b = start[oid], p.st.heap.get(oid)
                    if a is b:
                        continue
                    if isinstance(pre[oid], dict):
                        for var in set(a) | set(b):
                            if a.get(var, self) is not b.get(var, self) and (oid, var) not in hvar:
                                v0 = pre[oid].get(var)
                                if isinstance(v0, Ref) and isinstance(self.obj(v0), SetObj) and self.obj(v0).frozen:
                                    h = Ref(-1)  # handled as a frozen-set accumulator
                                    r = self.alloc_fixed(SetObj(SetV(arr=z3.Const(f"{lname}.{var}", SetS)), True))
                                    pre[r.oid] = self.st.heap[r.oid]
                                    base_oid = self.st.next_oid
                                    hvar[(oid, var)] = r
                                else:
                                    hvar[(oid, var)] = self.make_hole(v0, f"{lname}.{var}") if var in pre[oid] else Poison("assigned in loop")
                                new = True
                    elif isinstance(pre[oid], Inst):
                        for var in set(a.fields) | set(b.fields):
                            if a.fields.get(var, self) is not b.fields.get(var, self) and (oid, var) not in hfield:
                                hfield[(oid, var)] = self.make_hole(pre[oid].fields.get(var), f"{lname}.{oid}.{var}")
                                new = True
                    elif oid not in hobj:
                        hobj[oid] = f"{lname}.o{oid}"
                        new = True
            if not new:
                break
        else:
            raise Unsupported("loop effects did not stabilise")
        normal = [p for p in results if p.out[0] == "ok"]
        exits = [p for p in results if p.out[0] != "ok"]
        L = Loop(i, n, base_oid, normal, exits, lname)
        L.blk = blk
        L.start = cell.get("start", {})
        if exits:
            if self.choose("exits"):
                j0 = self.fresh("jexit", z3.IntSort())
                self.assume(z3.And(0 <= j0, j0 < I(n)))
                q = z3.Int(self.freshname("q"))
                self.assume_all_normal(L, j0)
                p = self.pick(L, exits, j0)
                imp = self.importer(p.st, base_oid, [(i, j0)])
                self.loop_effects(L, pre, hobj, hvar, hfield, j0, last=(p, imp))
                if p.st.events or any(x.st.events for x in normal):
                    self.st.events.append(Event("foreach", None, Seq(), Map(), None, extra=(L, j0, p)))
                kind_, val = p.out
                if kind_ == "exc":
                    raise PyExc(imp(val))
                if kind_ == "ret":
                    raise Ret(imp(val))
                raise Brk()
            if not normal:
                self.assume(I(n) <= 0)
            else:
                self.assume_all_normal(L, n)
        if not normal and not exits:
            self.assume(I(n) <= 0)
        self.loop_effects(L, pre, hobj, hvar, hfield, n)
        if any(p.st.events for p in normal):
            self.st.events.append(Event("foreach", None, Seq(), Map(), None, extra=(L, n, None)))

    def alloc_fixed(self, o):
        return self.alloc(o)

    def assume_all_normal(self, L, upto):
        if not L.normal:
            self.assume(I(upto) <= 0)
            return
        conds = [zb(zand(*p.branch())) for p in L.normal]
        if any(z3.is_true(c) for c in conds):
            return
        i = L.i
        # drop nothing: the branch conditions (with the assumptions they rest on)
        body = z3.Or(*[z3.And(c, *[f for f in p.facts() if True]) for c, p in zip(conds, L.normal)])
        q = z3.Int(self.freshname("q"))
        self.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < I(upto)), z3.substitute(body, (i, q)))))

    def pick(self, L, paths, j):
        """Decide which of the iteration paths iteration j takes."""
        jj = I(j)
        for k, p in enumerate(paths):
            c = [z3.substitute(e, (L.i, jj)) for e in p.branch()]
            self.keep.extend(c)
            c = zand(*c)
            if k == len(paths) - 1:
                self.assume(c, True)
                ok = True
            else:
                ok = self.decide(c)
            if ok:
                for e in p.facts():
                    f = z3.substitute(e, (L.i, jj))
                    self.assume(f)
                return p
        raise Infeasible()

    def iteration(self, L, j, memo_key):
        """(path, importer) of iteration j among the normal paths, memoised in the state."""
        js = simp_int(j) if is_z(j) else j
        key = ("iter", L.name, js if isinstance(js, int) else js.get_id())
        if key in self.st.ghost:
            return self.st.ghost[key]
        if is_z(js):
            self.keep.append(js)
        p = self.pick(L, L.normal, js)
        imp = self.importer(p.st, L.base_oid, [(L.i, I(js))])
        self.st.ghost[key] = (p, imp)
        return p, imp

    def loop_effects(self, L, pre, hobj, hvar, hfield, n, last=None):
        lp, limp = last if last else (None, None)
        for oid, name in hobj.items():
            o = pre[oid]
            if isinstance(o, ListObj):
                seq = self.combine_seq(L, o.seq, name, n, lambda p: p.st.heap[oid].seq, last)
                self.st.heap[oid] = ListObj(seq)
            elif isinstance(o, DictObj):
                self.st.heap[oid] = DictObj(self.combine_map(L, o.map, name, n, lambda p: p.st.heap[oid].map, last), o.cls, o.default)
            elif isinstance(o, SetObj):
                self.st.heap[oid] = SetObj(self.combine_set(L, o.set, z3.Const(name, SetS), n, lambda p: p.st.heap[oid].set, last), o.frozen)
            else:
                raise Unsupported("loop effect on heap object")
        for (oid, var), hole in hvar.items():
            def get(p):
                return p.st.heap[oid].get(var)
            val = self.combine_var(L, pre[oid].get(var), hole, n, get, last, var)
            d = dict(self.st.heap[oid])
            d[var] = val
            self.st.heap[oid] = d
        for (oid, var), hole in hfield.items():
            val = self.combine_var(L, pre[oid].fields.get(var), hole, n, lambda p: p.st.heap[oid].fields.get(var), last, var)
            o = self.st.heap[oid]
            self.st.heap[oid] = Inst(o.cls, {**o.fields, var: val})

    def combine_var(self, L, prev, hole, n, get, last, var):
        lp, limp = last if last else (None, None)
        if isinstance(hole, Poison):
            if lp is not None:
                v = get(lp)
                return v if isinstance(v, Poison) else limp(v)
            return Poison(f"{var} is assigned in a loop of unknown length")
        if isinstance(hole, TupleV):
            return TupleV(self.combine_seq(L, prev.seq, hole.seq.segs[0].name, n, lambda p: get(p).seq, last))
        if isinstance(hole, Ref):
            hname = self.obj(hole).set.arr if isinstance(self.obj(hole), SetObj) else None
            s = self.combine_set(L, self.obj(prev).set, hname, n, lambda p: p.st.heap[get(p).oid].set, last)
            return self.new_set(s, True)
        if is_int(hole):
            vals = [get(p) for p in L.normal]
            diffs = [simp_int(I(v) - hole) for v in vals]
            if all(isinstance(d, int) for d in diffs) and len(set(diffs)) <= 1:
                cur = simp_int(I(prev) + (diffs[0] if diffs else 0) * I(n))
            else:
                cur = self.fresh("acc", z3.IntSort())
                self.st.approx = True
            if lp is not None:
                v = limp(get(lp))
                return simp_int(z3.substitute(I(v), (hole, I(cur))))
            return cur
        if is_boolv(hole):
            setters = {True: [], False: []}
            for p in L.normal:
                v = simp(get(p)) if is_z(get(p)) else get(p)
                if is_z(v) and v.eq(hole):
                    continue
                if isinstance(v, bool):
                    setters[v].append(p)
                else:
                    raise Unsupported("boolean accumulator")
            if setters[True] and setters[False]:
                raise Unsupported("boolean accumulator set both ways")
            which = True if setters[True] else False
            ps = setters[which]
            cur = prev
            if ps:
                b = self.fresh("anyset", z3.BoolSort())
                j = self.fresh("jset", z3.IntSort())
                cond = lambda q: z3.Or(*[zb(zand(*[z3.substitute(e, (L.i, q)) for e in p.branch()])) for p in ps])  # noqa: E731
                self.assume(z3.Implies(b, z3.And(0 <= j, j < I(n), cond(j))))
                q = z3.Int(self.freshname("q"))
                self.assume(z3.Implies(z3.Not(b), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < I(n)), z3.Not(cond(q))))))
                cur = z3.If(b, z3.BoolVal(which), zb(prev))
            if lp is not None:
                v = limp(get(lp))
                return z3.substitute(zb(v), (hole, zb(cur)))
            return cur
        raise Unsupported("loop-carried variable " + var)

    def combine_seq(self, L, prev, name, n, get, last):
        adds = {}
        counts = set()
        for k, p in enumerate(L.normal):
            s = get(p)
            if not s.segs or not isinstance(s.segs[0], HoleSeg) or s.segs[0].name != name:
                raise Unsupported("list is rebuilt in a loop")
            add = s.segs[1:]
            if any(not isinstance(g, One) for g in add) or any(isinstance(g, HoleSeg) for g in add):
                raise Unsupported("nested symbolic appends")
            adds[id(p)] = [g.v for g in add]
            counts.add(len(add))
        out = list(prev.segs)
        if counts == {0} or not counts:
            pass
        elif len(counts) == 1 and counts == {1}:
            def at(j):
                p, imp = self.iteration(L, j, name)
                key = ("elem", L.name, name, j if isinstance(j, int) else j.get_id())
                if key not in self.st.ghost:
                    if is_z(j):
                        self.keep.append(j)
                    self.st.ghost[key] = imp(adds[id(p)][0])
                return self.st.ghost[key]
            out.append(Block(n, at))
        elif counts == {0, 1}:
            def keep(j):
                return zor(*[zand(*[z3.substitute(e, (L.i, I(j))) for e in p.branch()]) for p in L.normal if adds[id(p)]])

            sub = [p for p in L.normal if adds[id(p)]]

            def at(j):
                p = self.pick(L, sub, j)
                imp = self.importer(p.st, L.base_oid, [(L.i, I(j))])
                return imp(adds[id(p)][0])
            f = Filt(n, keep, at)
            out.append(f)
        elif len(counts) == 1:
            k = counts.pop()

            def at(j):
                it = simp_int(I(j) / k)
                r = simp_int(I(j) % k)
                p, imp = self.iteration(L, it, name)
                vals = adds[id(p)]
                if isinstance(r, int):
                    return imp(vals[r])
                for t in range(k - 1):
                    if self.decide(r == t):
                        return imp(vals[t])
                return imp(vals[k - 1])
            out.append(Block(simp_int(I(n) * k), at))
        else:
            raise Unsupported("varying number of appends")
        if last:
            p, imp = last
            s = get(p)
            if not s.segs or not isinstance(s.segs[0], HoleSeg):
                raise Unsupported("list is rebuilt in a loop")
            out.extend(imp.seq(Seq(s.segs[1:])).segs)
        return Seq(out)

    def combine_map(self, L, prev, name, n, get, last):
        st = {}
        for p in L.normal:
            m = get(p)
            if m.hole != name:
                raise Unsupported("dict is rebuilt in a loop")
            if len(m.layers) > 1 or any(ly[0] not in ("store",) for ly in m.layers):
                raise Unsupported("several dict updates per iteration")
            st[id(p)] = m.layers[0] if m.layers else None
        storing = [p for p in L.normal if st[id(p)] is not None]
        out = prev
        if storing:
            def cond(j):
                if len(storing) == len(L.normal):
                    return True
                return zor(*[zand(*[z3.substitute(e, (L.i, I(j))) for e in p.branch()]) for p in storing])

            # is the key the key being iterated over?
            blk = L.blk
            inv = None
            keyterm = None
            if isinstance(blk, Block) and blk.keyof is not None and blk.term is not None:
                kt = sat_(blk.term, L.i)
                if all(is_V(self.box_in(p, st[id(p)][1])) and self.box_in(p, st[id(p)][1]).eq(kt) for p in storing):
                    base_inv = self.keys_inverse(blk.keyof, blk)

                    def inv(k):
                        h, ix = base_inv(k)
                        inrange = ix < I(n)
                        c = cond(ix)
                        return zand(h, inrange if not (is_z(n) and is_z(blk.n) and n.eq(blk.n)) else True, c), ix
            if inv is None and name in self.hole_reads:
                raise Unsupported("loop-carried map read")
            if inv is None and len(storing) > 1:
                keys_same = all(is_V(self.box_in(p, st[id(p)][1])) and self.box_in(p, st[id(p)][1]).eq(self.box_in(storing[0], st[id(storing[0])][1])) for p in storing)
                if not keys_same:
                    raise Unsupported("dict keys depend on the path")

            def key(j):
                p = storing[0]
                kb = self.box_in(p, st[id(p)][1])
                return z3.substitute(kb, (L.i, I(j)))

            def val(j):
                if len(storing) == len(L.normal):
                    p, imp = self.iteration(L, j, name)
                else:
                    p = self.pick(L, storing, j)
                    imp = self.importer(p.st, L.base_oid, [(L.i, I(j))])
                kk = ("pwval", L.name, name, id(p), j if isinstance(j, int) else j.get_id())
                if kk not in self.st.ghost:
                    if is_z(j):
                        self.keep.append(j)
                    self.st.ghost[kk] = imp(st[id(p)][2])
                return self.st.ghost[kk]

            out = out.plus(("pw", PW(n, cond, key, val, inv)))
        if last:
            p, imp = last
            m = get(p)
            if m.hole != name:
                raise Unsupported("dict is rebuilt in a loop")
            for ly in imp.map(Map(None, m.layers)).layers:
                out = out.plus(ly)
        return out

    def box_in(self, p, v):
        if is_V(v):
            return v
        if isinstance(v, Ref):
            return p.st.boxes.get(v.oid, v)
        return self.box(v)

    def combine_set(self, L, prev, hole, n, get, last):
        """Loop-carried sets: supports s := s | A(i) and s := s - A(i)."""
        adds = []
        for p in L.normal:
            arr = self.set_arr(get(p))
            a0 = z3.substitute(arr, (hole, z3.EmptySet(V)))
            if arr.eq(hole):
                adds.append((p, None))
                continue
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(*[e for e, _ in p.pc])
            s.add(arr != z3.SetUnion(hole, a0))
            if s.check() == z3.unsat:
                adds.append((p, a0))
                continue
            raise Unsupported("set update in a loop is not a union")
        if all(a is None for _, a in adds):
            res = prev
        else:
            R = self.fresh("uset", SetS)
            x = z3.Const(self.freshname("x"), V)
            q = z3.Int(self.freshname("q"))
            w = z3.Function(self.freshname("wit"), V, z3.IntSort())
            prevarr = self.set_arr(prev)

            def mem(j, x):
                return z3.Or(*[z3.And(zb(zand(*[z3.substitute(e, (L.i, j)) for e in p.branch()])), z3.Select(z3.substitute(a, (L.i, j)), x)) for p, a in adds if a is not None])

            self.assume(z3.ForAll([x], z3.Implies(z3.Select(R, x), z3.Or(z3.Select(prevarr, x), z3.And(0 <= w(x), w(x) < I(n), mem(w(x), x))))))
            self.assume(z3.ForAll([x, q], z3.Implies(z3.And(0 <= q, q < I(n), mem(q, x)), z3.Select(R, x))))
            self.assume(z3.ForAll([x], z3.Implies(z3.Select(prevarr, x), z3.Select(R, x))))
            res = SetV(arr=R)
        if last:
            p, imp = last
            arr = imp(self.set_arr(get(p)))
            return SetV(arr=z3.substitute(arr, (hole, self.set_arr(res))))
        return res

    # ---------------------------------------------------------------- expressions
    def ev(self, e, env, mod):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, env, mod)

    def ev_Constant(self, e, env, mod):
        return e.value

    def ev_Name(self, e, env, mod):
        if env is not None:
            ok, v = self.env_get(env, e.id)
            if ok:
                return v
        if e.id in mod.defs:
            return self.global_value(mod, e.id)
        if e.id in BUILTIN_NAMES:
            return self.builtin_const(e.id)
        if e.id in ("__name__",):
            return mod.name
        self.throw("NameError", e.id)

    def builtin_const(self, n):
        if n == "NotImplemented":
            return NotImplemented
        if n == "Ellipsis":
            return Ellipsis
        return ExtV("builtins." + n)

    def ev_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    def star_seq(self, elts, env, mod):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.iter_seq(self.ev(x.value, env, mod)).segs)
            else:
                segs.append(One(self.ev(x, env, mod)))
        return Seq(segs)

    def ev_Tuple(self, e, env, mod):
        return TupleV(self.star_seq(e.elts, env, mod))

    def ev_List(self, e, env, mod):
        return self.new_list(self.star_seq(e.elts, env, mod))

    def ev_Set(self, e, env, mod):
        return self.new_set(self.set_of_seq(self.star_seq(e.elts, env, mod)))

    def ev_Dict(self, e, env, mod):
        m = Map()
        for k, v in zip(e.keys, e.values):
            if k is None:
                mm = self.map_of(self.ev(v, env, mod))
                m = mm if self.trivially_empty(m) else m.plus(("merge", mm))
            else:
                kk = self.ev(k, env, mod)
                m = m.plus(("store", kk, self.ev(v, env, mod)))
        return self.new_dict(m)

    def ev_Lambda(self, e, env, mod):
        q = (self.frames[-1].func.qual if self.frames else mod.name) + ".<lambda>"
        a = e.args
        return FuncV(e, env, mod, q, tuple(self.ev(d, env, mod) for d in a.defaults),
                     {p.arg: self.ev(d, env, mod) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})

    def ev_IfExp(self, e, env, mod):
        return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)

    def ev_BoolOp(self, e, env, mod):
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, env, mod)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return False if is_boolv(v) else v
            if isinstance(e.op, ast.Or) and t:
                return True if is_boolv(v) else v
        return v

    def ev_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            return znot(self.truth_f(v))
        v = self.unbox(v)
        if isinstance(e.op, ast.USub):
            if is_int(v) or isinstance(v, float):
                return -v
            return self.unop("neg", v)
        if isinstance(e.op, ast.UAdd):
            return v if is_int(v) else self.unop("pos", v)
        if isinstance(v, int):
            return ~v
        return self.unop("invert", v)

    def unop(self, name, v):
        return self.app("unop!" + name, v)

    def ev_BinOp(self, e, env, mod):
        return self.binop(type(e.op).__name__, self.ev(e.left, env, mod), self.ev(e.right, env, mod))

    def ev_Compare(self, e, env, mod):
        left = self.ev(e.left, env, mod)
        res = True
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env, mod)
            c = self.compare(op, left, right)
            if k == len(e.ops) - 1:
                if res is True:
                    return c
                return zand(res, self.truth_f(c))
            c = self.truth_f(c)
            res = zand(res, c)
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        a, b = self.unbox(a), self.unbox(b)
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return znot(self.identical(a, b))
        if isinstance(op, ast.Eq):
            return self.rich_eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.rich_eq(a, b)
            return znot(r) if is_boolv(r) else znot(self.truth_f(r))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return znot(self.contains(b, a))
        name = type(op).__name__
        if is_int(a) and is_int(b):
            x, y = (a, b) if not (is_z(a) or is_z(b)) else (I(a), I(b))
            return {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y}[name]()
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.obj(a), self.obj(b)
            if isinstance(oa, SetObj) and isinstance(ob, SetObj):
                A, B = self.set_arr(oa.set), self.set_arr(ob.set)
                return {"LtE": lambda: z3.IsSubset(A, B), "GtE": lambda: z3.IsSubset(B, A),
                        "Lt": lambda: z3.And(z3.IsSubset(A, B), A != B), "Gt": lambda: z3.And(z3.IsSubset(B, A), A != B)}[name]()
        if is_V(a) or is_V(b):
            if is_int(b) or is_int(a):
                A = unInt(a) if is_V(a) else I(a)
                B = unInt(b) if is_V(b) else I(b)
                # only meaningful when the opaque side is an int
                for x in (a, b):
                    if is_V(x) and not self.known_int(x):
                        return z3.Function("cmp!" + name, V, V, z3.BoolSort())(self.box(a), self.box(b))
                return {"Lt": lambda: A < B, "LtE": lambda: A <= B, "Gt": lambda: A > B, "GtE": lambda: A >= B}[name]()
            return z3.Function("cmp!" + name, V, V, z3.BoolSort())(self.box(a), self.box(b))
        raise Unsupported(f"comparison {name} of {a!r} and {b!r}")

    def known_int(self, t):
        ty = self.type_of_term(t)
        return ty is not None and self.is_sub(ty, ExtV("builtins.int"))

    def rich_eq(self, a, b):
        if isinstance(a, Ref) and isinstance(self.obj(a), Inst) and isinstance(self.obj(a).cls, ClassV):
            m = self.class_attr(self.obj(a).cls, "__eq__")
            if m is not None:
                return self.call(self.bind(m, a, self.obj(a).cls), Seq.of([b]), Map())
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(self.obj(a), DictObj) and isinstance(self.obj(b), DictObj):
            raise Unsupported("dict ==")
        return self.py_eq(a, b)

    def contains(self, c, x):
        c = self.unbox(c)
        if isinstance(c, TupleV):
            return self.seq_contains(c.seq, x)
        if isinstance(c, ViewV):
            if c.what == "keys":
                return self.map_has(c.map, x)
            return self.seq_contains(self.iter_seq(c), x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, GenV):
            return self.seq_contains(c.thunk(), x)
        if isinstance(c, Ref):
            o = self.obj(c)
            if isinstance(o, ListObj):
                return self.seq_contains(o.seq, x)
            if isinstance(o, DictObj):
                return self.map_has(o.map, x)
            if isinstance(o, SetObj):
                return self.set_has(o.set, x)
            if isinstance(o, Inst) and isinstance(o.cls, ClassV):
                m = self.class_attr(o.cls, "__contains__")
                if m is not None:
                    return self.truth_f(self.call(self.bind(m, c, o.cls), Seq.of([x]), Map()))
        if is_V(c):
            m = self.V_map(c)
            if m is not None:
                return self.map_has(m, x)
            ty = self.type_of_term(c)
            if ty is not None and self.is_sub(ty, ExtV("collections.abc.Set")):
                return self.set_has(self.V_set(c), x)
            return z3.Function("in!", V, V, z3.BoolSort())(self.box(x), c)
        raise Unsupported(f"in {c!r}")

    def V_map(self, t):
        """Mapping view of an opaque value known to be a mapping."""
        ty = self.type_of_term(t)
        if ty is not None and self.is_sub(ty, ExtV("collections.abc.Mapping")):
            return self.st.ghost.get(("vmap", t.get_id())) or Map(t)
        k = ("vmap", t.get_id())
        return self.st.ghost.get(k)

    def seq_contains(self, s, x):
        c = s.concrete()
        if c is not None:
            return zor(*[self.py_eq(y, x) for y in c])
        b = self.fresh("contains", z3.BoolSort())
        parts = []
        for g in s.segs:
            if isinstance(g, One):
                parts.append(self.py_eq(g.v, x))
            elif isinstance(g, Block):
                h = self.fresh("contains", z3.BoolSort())
                j = self.fresh("jin", z3.IntSort())
                q = z3.Int(self.freshname("q"))
                self.assume(z3.Implies(h, z3.And(0 <= j, j < I(g.n), zb(self.py_eq(g.at(j), x)))))
                self.assume(z3.Implies(z3.Not(h), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < I(g.n)), z3.Not(zb(self.py_eq(g.at(q), x)))))))
                parts.append(h)
            else:
                raise Unsupported("in filtered sequence")
        return zor(*parts)

    def ev_Call(self, e, env, mod):
        # special forms
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.frames[-1].func
            ok, s = self.env_get(env, fr.node.args.args[0].arg) if fr.node.args.args else (False, None)
            return SuperV(fr.owner, s)
        f = self.ev(e.func, env, mod)
        if isinstance(f, ExtV) and f.path in ("typing.cast",):
            return self.ev(e.args[1], env, mod)
        args = self.star_seq(e.args, env, mod)
        m = Map()
        for k in e.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                mm = self.map_of(v)
                if self.trivially_empty(m):
                    m = mm
                elif not self.trivially_empty(mm):
                    m = m.plus(("merge", mm))
            else:
                m = m.plus(("store", k.arg, v))
        return self.call(f, args, m)

    def ev_Starred(self, e, env, mod):
        raise Unsupported("starred")

    def ev_JoinedStr(self, e, env, mod):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.unbox(self.ev(x.value, env, mod))
                conv = x.conversion
                spec = self.ev(x.format_spec, env, mod) if x.format_spec is not None else ""
                if isinstance(v, (str, int)) and not isinstance(v, bool) and isinstance(spec, str):
                    s = v
                    if conv == 114:
                        s = repr(v)
                    elif conv == 115:
                        s = str(v)
                    parts.append(format(s, spec))
                elif is_strv(v) and conv in (-1, 115) and spec == "":
                    parts.append(v)
                else:
                    f = z3.Function(f"fmt!{conv}!{spec if isinstance(spec, str) else 'dyn'}", V, z3.StringSort())
                    if is_strv(v) and not isinstance(v, str) or is_V(v) or True:
                        try:
                            parts.append(f(self.box(v)))
                        except Unsupported:
                            parts.append(self.fresh("fmt", z3.StringSort()))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        parts = [z3.StringVal(p) if isinstance(p, str) else p for p in parts if not (isinstance(p, str) and p == "")]
        if len(parts) == 1:
            return parts[0]
        return z3.Concat(*parts)

    def ev_Await(self, e, env, mod):
        raise Unsupported("await")

    def ev_Yield(self, e, env, mod):
        fr = self.frames[-1]
        if fr.on_yield is None:
            raise Unsupported("yield")
        v = self.ev(e.value, env, mod) if e.value is not None else None
        # the body runs outside this frame
        saved = self.frames
        self.frames = self.frames[:-1] or self.frames
        try:
            return fr.on_yield(v)
        finally:
            self.frames = saved

    def ev_YieldFrom(self, e, env, mod):
        fr = self.frames[-1]
        seq = self.iter_seq(self.ev(e.value, env, mod))
        c = seq.concrete()
        if c is None or fr.on_yield is None:
            raise Unsupported("yield from symbolic")
        for x in c:
            fr.on_yield(x)
        return None

    def comp(self, gens, emit, env, mod, first=None):
        """Run nested comprehension clauses, calling emit(env) for each surviving binding."""
        def go(k, env_):
            if k == len(gens):
                emit(env_)
                return
            g = gens[k]
            it = self.ev(g.iter, env_ if k else env, mod)

            def body(v):
                self.assign(g.target, v, env_, mod)
                for c in g.ifs:
                    if not self.truth(self.ev(c, env_, mod)):
                        return
                go(k + 1, env_)

            self.foreach(it, body)

        names = set()
        for g in gens:
            for t in ast.walk(g.target):
                if isinstance(t, ast.Name):
                    names.add(t.id)
        env2 = self.new_env(env, frozenset(names))
        # the target variables live in env2; evaluation of the first iterable in env
        go(0, env2)

    def comp_seq(self, elt, gens, env, mod):
        acc = self.new_list(Seq())

        def emit(e2):
            v = self.ev(elt, e2, mod)
            o = self.obj(acc)
            self.st.heap[acc.oid] = ListObj(o.seq + Seq([One(v)]))

        self.comp(gens, emit, env, mod)
        return self.obj(acc).seq

    def ev_ListComp(self, e, env, mod):
        return self.new_list(self.comp_seq(e.elt, e.generators, env, mod))

    def ev_SetComp(self, e, env, mod):
        acc = self.new_set(SetV(elems=[]))

        def emit(e2):
            v = self.ev(e.elt, e2, mod)
            o = self.obj(acc)
            self.st.heap[acc.oid] = SetObj(self.set_add(o.set, v))

        self.comp(e.generators, emit, env, mod)
        return acc

    def set_add(self, s, v):
        if s.elems is not None:
            return SetV(elems=list(s.elems) + [v])
        return SetV(arr=z3.SetAdd(s.arr, self.box(v)))

    def ev_DictComp(self, e, env, mod):
        inv = self.loop_contract(e)
        if inv is not None:
            return inv(self, e, env, mod)
        acc = self.new_dict()

        def emit(e2):
            k = self.ev(e.key, e2, mod)
            v = self.ev(e.value, e2, mod)
            o = self.obj(acc)
            self.st.heap[acc.oid] = DictObj(o.map.plus(("store", k, v)))

        self.comp(e.generators, emit, env, mod)
        return acc

    def ev_GeneratorExp(self, e, env, mod):
        g = GenV(lambda: self.comp_seq(e.elt, e.generators, env, mod))
        g2 = GenComp(g.thunk, lambda fn: self.comp_loop(e, env, mod, fn))
        return g2

    def comp_loop(self, e, env, mod, fn):
        """Run fn(value) per element; fn may raise Brk to stop. True when stopped."""
        stopped = []

        class Stop(Exception):
            pass

        def emit(e2):
            fn(self.ev(e.elt, e2, mod))

        # breaking out of nested clauses needs every level to stop
        gens = e.generators
        names = set()
        for g in gens:
            for t in ast.walk(g.target):
                if isinstance(t, ast.Name):
                    names.add(t.id)
        env2 = self.new_env(env, frozenset(names))

        def go(k):
            if k == len(gens):
                emit(env2)
                return
            g = gens[k]
            it = self.ev(g.iter, env2 if k else env, mod)

            def body(v):
                self.assign(g.target, v, env2, mod)
                for c in g.ifs:
                    if not self.truth(self.ev(c, env2, mod)):
                        return
                go(k + 1)

            if self.foreach(it, body):
                raise Brk()

        try:
            go(0)
        except Brk:
            return True
        return False

    def ev_Attribute(self, e, env, mod):
        return self.getattr(self.ev(e.value, env, mod), e.attr)

    def ev_Subscript(self, e, env, mod):
        return self.getitem(self.ev(e.value, env, mod), self.ev(e.slice, env, mod))

    def ev_Slice(self, e, env, mod):
        f = lambda x: self.ev(x, env, mod) if x is not None else None  # noqa: E731
        return SliceV(f(e.lower), f(e.upper), f(e.step))


class GenComp(GenV):
    __slots__ = ("loop",)

    def __init__(self, thunk, loop):
        self.thunk, self.loop = thunk, loop
