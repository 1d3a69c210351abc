"""The loop rule.

A loop whose number of iterations is symbolic is cut: the state written by the body is replaced by
arbitrary values constrained by the loop invariant, then either one more iteration is executed (ending
in a check that the invariant is preserved) or the loop is left.  The invariant is the conjunction of
the candidate facts that survive: each candidate is checked on entry and on every back edge and dropped
when it cannot be proved (Houdini), until the set is stable.
"""
from __future__ import annotations

import ast
import enum

import z3

from . import terms as T
from .interp import BRK, CONT, RET, UNDEF, GenResult, assigned_names
from .terms import PathEnd, ProgExc, SBool, SInt, Unsupported, from_z, is_int, sand, seq_, simplies, snot, zint
from .values import AbsList, Emits, Family, HDict, ListVal, OVal, SByteArray, SBytes, SBytesIO, Seg, SymFile, TList, RunDict, SVal, SDict, I, VAL, boxed, list_term


class Loc:
    """A location modified by the loop."""

    def __init__(self, key, get, set_, kind):
        self.key, self.get, self.set, self.kind = key, get, set_, kind


def kind_of(v):
    if isinstance(v, (bool, SBool)):
        return "bool"
    if isinstance(v, HDict):
        return "ref"
    if is_int(v):
        return "int"
    if isinstance(v, (bytes, SBytes)):
        return "bytes"
    if v is None:
        return "none"
    if v is UNDEF:
        return "undef"
    if isinstance(v, tuple) and v and all(is_int(x) and not isinstance(x, bool) for x in v):
        return "ituple"
    return "other"


class Views(dict):
    """Integer views of the locations; ``vals``: the opaque ones, ``lists``: contents of lists."""

    def __init__(self):
        super().__init__()
        self.vals, self.lists = {}, {}


def opaque(v):
    return v is None or isinstance(v, (SVal, enum.Enum))


def _joined(l):
    """Concatenation of a list of byte strings (concrete or abstract)."""
    segs = []
    for p in TList.items_of(l):
        if isinstance(p, (bytes, SBytes, bytearray)):
            segs += SBytes.of(p).segs
        else:
            return None
    return SBytes(segs)


STALE = {"pos": (SymFile, SBytesIO), "fam": Family, "list": TList, "ba": SByteArray, "bio": SBytesIO}


def locations(it, fr, names, li, objs):
    """All locations in the modified set, with their current kinds."""
    out = []
    for n in names:
        f = fr
        if n not in f.locals:
            p = fr
            while p is not None and n not in p.locals:
                p = p.parent if p.name == "<comp>" else None
            f = p or fr
        v = f.locals.get(n, UNDEF)
        out.append(Loc(("l", n), lambda f=f, n=n: f.locals.get(n, UNDEF), lambda x, f=f, n=n: f.locals.__setitem__(n, x), kind_of(v)))
    for loc, kind in sorted(li.modset.items(), key=lambda kv: str(kv[0])):
        o = objs.get(loc[1]) if loc[1] is not None else None
        t = loc[0]
        if t in STALE and not isinstance(o, STALE[t]):
            continue  # noted in an earlier round, under other numbers
        if t == "pos":
            out.append(Loc(loc, o._getpos, lambda x, o=o: o.__dict__.__setitem__("_pos", x), "int"))
        elif t == "fam":
            out.append(Loc(loc, lambda o=o: o.pos, lambda x, o=o: setattr(o, "pos", x), "fam"))
        elif t == "list":
            out.append(Loc(loc, lambda o=o: o, None, "blist" if kind == "bytes" else "olist"))
        elif t == "ba":
            out.append(Loc(loc, lambda o=o: o.v, lambda x, o=o: setattr(o, "v", x), "bytes"))
        elif t == "bio":
            out.append(Loc(loc, lambda o=o: o.data, lambda x, o=o: setattr(o, "data", x), "bytes"))
        elif t == "attr":
            nm = loc[2]
            v = getattr(o, nm, UNDEF) if o is not None else UNDEF
            if o is None:
                raise Unsupported(f"loop modifies attribute {nm} of an untracked object")
            out.append(Loc(loc, lambda o=o, nm=nm: getattr(o, nm, UNDEF), lambda x, o=o, nm=nm: setattr(o, nm, x), kind_of(v)))
        elif t == "imap":
            out.append(Loc(loc, lambda o=o: o, None, "imap"))
        elif t == "dict":
            out.append(Loc(loc, lambda o=o: o, None, "dict"))
        else:
            raise Unsupported(f"loop modifies {t}")
    return out


def sym_loop(it, fr, node, test, pre, hidden, test_ast=None):
    ctx = it.ctx
    eng = ctx.eng
    desc = f"{fr.name}:{type(node).__name__.lower()}@{node.lineno}"
    if eng.unroll or eng.inline:
        return unrolled(it, fr, node, test, pre, eng)
    key = (fr.name, node.lineno, node.col_offset, tuple(ctx.callstack), ctx.path_key())
    li = eng.loop_info(key, desc)
    li.visits += 1
    names = assigned_names(node.body) + (assigned_names([node.target]) if isinstance(node, ast.For) else [])
    if test_ast is not None:
        names += assigned_names([test_ast])
    names = list(dict.fromkeys(list(hidden) + names))
    f = fr
    while f is not None and f.yields is None:
        f = f.parent
    uid_start = ctx.uidc
    objs = {}
    for o in ctx.objs:
        u = o.__dict__.get("uid") if isinstance(o, SymFile) else getattr(o, "uid", None)
        if u is not None:
            objs[u] = o
    for u, o in ctx.byid.values():
        objs[u] = o

    locs = locations(it, fr, names, li, objs)
    # tuples of integers are treated component-wise
    entry = {}
    views0 = Views()
    bviews0 = {}
    emit_entry = {}
    for l in locs:
        v = l.get()
        entry[l.key] = v
        if ctx.folds and l.kind in ("none", "other", "undef") and opaque(v):
            l.kind = "val"
            views0.vals[l.key] = SVal(boxed(v))
        if l.kind in ("blist", "olist") and any(f.acc == "list" for f in ctx.folds):
            l.kind = "vlist"
            views0.lists[l.key] = SVal(list_term(TList.items_of(v)))
        if l.kind == "ref":
            views0[l.key] = v.addr
        if l.kind == "int":
            views0[l.key] = v
        elif l.kind == "bytes":
            views0[("len",) + l.key] = SBytes.of(v).sym_len()
            bviews0[l.key] = SBytes.of(v)
        elif l.kind == "blist":
            j = _joined(v)
            if j is None:
                l.kind = "olist"
            else:
                views0[("len",) + l.key] = j.sym_len()
                bviews0[l.key] = j
        if l.kind == "olist":
            emit_entry[l.key] = TList.items_of(v)
        if l.kind == "ituple":
            for i, x in enumerate(v):
                views0[l.key + (i,)] = x

    for l in locs:
        if l.kind == "imap" and eng.mode != "infer":
            check_map(ctx, l.get(), views0, "on entry")
    shapes = {}
    if ctx.slices:
        with ctx.specification():
            for l in locs:
                if l.kind == "bytes":
                    sh = shape(ctx, li, l.key, views0, entry[l.key])
                    if eng.mode == "infer" and sh is not None and not is_shape(ctx, sh, SBytes.of(entry[l.key]), views0):
                        other_shape(eng, li, l.key)
                    if sh is not None:
                        l.kind = "piece"
                        shapes[l.key] = sh
                        views0.pop(("len",) + l.key)
                        bviews0.pop(l.key)
    with ctx.specification():
        cands = candidates(ctx, li, views0, bviews0, hidden)
        for n in cands:
            if n not in li.cands:
                li.cands[n] = eng.mode == "infer"
                eng.changed = True
                eng.late("invariant")
        # ---- entry check
        if eng.mode == "infer":
            for n, fn in cands.items():
                if li.cands[n] and not ctx.entails(fn(views0, bviews0)):
                    li.cands[n] = False
                    eng.changed = True
    choice = ctx.choose(2, desc)
    ctx.imprecise.append(f"loop {desc}")
    # ---- havoc
    views, bviews = Views(), {}
    tag = f"{node.lineno}"
    emit_state = {}
    filled = {}
    for l in locs:
        nm = "_".join(str(x) for x in l.key)
        if l.kind == "int":
            x = ctx.fresh(f"h{tag}_{nm}")
            l.set(x)
            views[l.key] = x
        elif l.kind == "ref":
            x = ctx.fresh(f"h{tag}_{nm}")
            l.set(HDict(ctx.heap, x, known=False))
            views[l.key] = x
        elif l.kind == "bool":
            l.set(ctx.fresh_bool(f"h{tag}_{nm}"))
        elif l.kind in ("bytes", "blist"):
            ln = ctx.fresh(f"h{tag}_len_{nm}", lo=0)
            # not numbered with the objects: their numbers have to be the same in every round
            ctx.freshc["x!"] = ctx.freshc.get("x!", 0) + 1
            b = SBytes([Seg("x", ln, ctx.freshc["x!"])])
            views[("len",) + l.key] = ln
            bviews[l.key] = b
            if l.kind == "bytes":
                l.set(b)
            else:
                o = l.get()
                list.clear(o)
                o.abs = AbsList([b])
        elif l.kind in ("val", "vlist"):
            n = ctx.freshc.get(f"v{tag}_{nm}", 0)
            ctx.freshc[f"v{tag}_{nm}"] = n + 1
            x = OVal(z3.Const(f"v{tag}_{nm}!{n}", VAL))
            if l.kind == "val":
                views.vals[l.key] = x
                l.set(x)
            else:
                views.lists[l.key] = x
                o = l.get()
                list.clear(o)
                o.abs = AbsList([ListVal(x.z)])
        elif l.kind in ("piece", "imap"):
            pass
        elif l.kind == "fam":
            ctx.freshc["fam"] = ctx.freshc.get("fam", 0) + 1
            l.set(z3.Array(f"fampos_h{tag}_{ctx.freshc['fam']}", I, I))
        elif l.kind == "olist":
            o = l.get()
            em = li_emit(ctx, li, l.key, views0)
            list.clear(o)
            if em is None:
                o.abs = AbsList([Opaque(f"list {nm} after loop {desc}")])
            else:
                spec, vkey = em
                # run of emitted elements up to the current index
                emit_state[l.key] = (spec, vkey, emit_entry[l.key])
                o.abs = AbsList(emit_entry[l.key])
        elif l.kind == "ituple":
            xs = []
            for i, _ in enumerate(entry[l.key]):
                x = ctx.fresh(f"h{tag}_{nm}_{i}")
                views[l.key + (i,)] = x
                xs.append(x)
            l.set(tuple(xs))
        elif l.kind == "dict":
            o = l.get()
            em = li_emit(ctx, li, l.key, views0) if any(e.keyed for e in ctx.emitters) and type(o) is SDict and len(o) == 0 else None
            if em is None or not em[0].keyed or not ctx.entails(views0[em[1]] == 0):
                raise Unsupported(f"dictionary modified in a symbolic loop ({desc})")
            filled[l.key] = (o, *em)
        else:
            l.set(UNDEF)
    for l in locs:
        if l.kind == "piece":
            l.set(shapes[l.key](views, ctx.branch))
        elif l.kind == "imap":
            o, p = l.get(), position(views)
            o.base = tuple(lambda q, h=h: h(q, p) for h in ctx.map_hint)
            o.new = []
    for k, (spec, vkey, ent) in emit_state.items():
        o = next(l for l in locs if l.key == k).get()
        o.abs.parts.append(Emits(spec, views0[vkey], views[vkey]))
    for o, spec, vkey in filled.values():
        RunDict.cut(o, Emits(spec, views0[vkey], views[vkey]))
    with ctx.specification():
        for n, fn in cands.items():
            if li.cands[n]:
                ctx.assume(fn(views, bviews))
    head = dict(views)
    # ---- test
    meas_head = {}
    if choice == 0:
        ctx.scopes.append((li, uid_start))
        try:
            t = test()
            with ctx.specification():
                meas_head = measures(it, fr, ctx, test_ast, views, hidden)
            if not ctx.branch(t):
                raise PathEnd("loop body unreachable")
            if pre is not None:
                pre()
            r = it.exec_block(node.body, fr)
        finally:
            ctx.scopes.pop()
        if r is not None and r[0] in (BRK, RET):
            return None if r[0] == BRK else r
        # ---- back edge
        li.backedges += 1
        with ctx.specification():
            back = back_edge(it, fr, ctx, eng, li, locs, cands, views0, head, emit_state, filled, hidden, shapes)
            if eng.mode == "infer":
                mb = measures(it, fr, ctx, test_ast, back, hidden)
                for n, (h, nonneg) in meas_head.items():
                    if n not in li.measures:
                        li.measures[n] = True
                    if li.measures[n]:
                        ok = n in mb and ctx.entails(sand(mb[n][0] < h, nonneg))
                        if not ok:
                            li.measures[n] = False
                for mname, mfn in getattr(ctx, "measure_hints", []):
                    if li.measures.get(mname, True):
                        try:
                            ok = ctx.entails(mfn(head, back))
                        except KeyError:
                            ok = False
                        li.measures[mname] = ok
        raise PathEnd("back edge")
    t = test()
    if t is True:
        raise PathEnd("loop never exits through its test")
    if ctx.branch(t):
        raise PathEnd("not the exit")
    return it.exec_block(node.orelse, fr)


def unrolled(it, fr, node, test, pre, eng):
    """Bounded search: execute at most ``eng.unroll`` iterations, longer runs are cut off.

    With ``eng.inline`` the unrolling is complete: a longer run makes the driver unsupported.
    """
    n = eng.inline or eng.unroll
    for i in range(n + 1):
        if not it.ctx.branch(test()):
            return it.exec_block(node.orelse, fr)
        if i == n:
            if eng.inline:
                raise Unsupported(f"more than {n} iterations of a loop in {fr.name}")
            eng.cut += 1
            raise PathEnd("unrolling bound")
        if pre is not None:
            pre()
        r = it.exec_block(node.body, fr)
        if r is not None and r[0] in (BRK, RET):
            return None if r[0] == BRK else r


def position(views):
    """Where the iterator is."""
    ps = [v for k, v in views.items() if k[0] == "attr" and k[-1] == "pos"]
    if len(ps) != 1:
        raise Unsupported("dictionary of identities in a loop over no iterator")
    return ps[0]


def check_map(ctx, o, views, when):
    """The dictionary of identities holds what the contract says it holds at this position."""
    if ctx.map_hint is None:
        raise Unsupported("dictionary of identities in a symbolic loop")
    p = position(views)
    q = ctx.fresh("key!")
    with ctx.specification():
        a, b = o.has(q)
        want, addr = ctx.map_hint[0](q, p), ctx.map_hint[1](q, p)
        ok = ctx.entails(sand(simplies(a, want), simplies(want, a), simplies(want, b == addr)))
    if not ok:
        raise Unsupported(f"dictionary of identities unknown {when}")


class Opaque:
    def __init__(self, d):
        self.d = d


def shape(ctx, li, key, v0, entry):
    """The description of a byte string location that is being tried: a function of the views."""
    out = [lambda v, decide: entry]
    for base in ctx.slices:
        n = base.sym_len()
        for k in sorted(v0, key=str):
            if k[0] == "len":
                continue
            # the byte at a position, nothing at the end
            out.append(lambda v, decide, k=k, base=base, n=n: base.sub(v[k], 1) if decide(v[k] < n) else b"")
            # everything since the loop was entered
            out.append(lambda v, decide, k=k, base=base: base.sub(v0[k], v[k] - v0[k]) if decide(v[k] > v0[k]) else b"")
    i = li.shape.get(key, 0)
    return out[i] if i < len(out) else None


def other_shape(eng, li, key):
    """From the next round on (the paths of this one were recorded with the present shape)."""
    li.shape_next[key] = li.shape.get(key, 0) + 1
    eng.changed = True


def is_shape(ctx, sh, b, v):
    def decide(c):
        if ctx.entails(c):
            return True
        if ctx.entails(snot(c)):
            return False
        raise KeyError

    try:
        return ctx.entails(b == sh(v, decide))
    except KeyError:
        return False


def current_views(locs):
    views, bviews = Views(), {}
    for l in locs:
        v = l.get()
        if l.kind == "val":
            views.vals[l.key] = SVal(boxed(v))
        elif l.kind == "vlist":
            views.lists[l.key] = SVal(list_term(TList.items_of(v)))
        if l.kind == "ref" and isinstance(v, HDict):
            views[l.key] = v.addr
        if l.kind == "int":
            if is_int(v):
                views[l.key] = v
        elif l.kind == "bytes":
            if isinstance(v, (bytes, SBytes)):
                views[("len",) + l.key] = SBytes.of(v).sym_len()
                bviews[l.key] = SBytes.of(v)
        elif l.kind == "blist":
            j = _joined(v)
            if j is not None:
                views[("len",) + l.key] = j.sym_len()
                bviews[l.key] = j
        elif l.kind == "ituple":
            if isinstance(v, tuple):
                for i, x in enumerate(v):
                    if is_int(x):
                        views[l.key + (i,)] = x
    return views, bviews


def back_edge(it, fr, ctx, eng, li, locs, cands, views0, head, emit_state, filled, hidden, shapes):
    views, bviews = current_views(locs)
    for l in locs:
        v = l.get()
        if l.kind in ("int", "bool") and kind_of(v) != l.kind and not (l.kind == "int" and is_int(v)):
            raise Unsupported(f"variable {l.key} changes type in a symbolic loop")
        if l.kind in ("bytes", "ref") and kind_of(v) != l.kind:
            raise Unsupported(f"variable {l.key} changes type in a symbolic loop")
    for l in locs:
        if l.kind == "imap" and eng.mode != "infer":
            check_map(ctx, l.get(), views, "at the end of an iteration")
    if eng.mode != "infer":
        return views
    # learn constant increments
    hv = set()
    for v in head.values():
        if isinstance(v, SInt):
            for m in v.p:
                hv.update(m)
    for k, v in views.items():
        if k not in head:
            continue
        d = v - head[k]
        ok = True
        if isinstance(d, SInt):
            ok = not _mentions(d, hv)
        if ok:
            kk = d if isinstance(d, int) else T.pkey(d.p)
            lst = li.deltas.setdefault(k, {})
            if kk not in lst and len(lst) < 4:
                lst[kk] = d
                li.revive = True
                eng.changed = True
    for n, fn in cands.items():
        if li.cands[n]:
            try:
                c = fn(views, bviews)
            except KeyError:
                c = False
            if not ctx.entails(c):
                li.cands[n] = False
                eng.changed = True
    for l in locs:
        if l.kind == "piece":
            v = l.get()
            if not isinstance(v, (bytes, SBytes)) or not is_shape(ctx, shapes[l.key], SBytes.of(v), views):
                other_shape(eng, li, l.key)
    # emitted elements
    for k, (spec, vkey, ent) in emit_state.items():
        o = next(l for l in locs if l.key == k).get()
        parts = TList.items_of(o)
        tail = parts[len(ent) + 1 :]
        ok = len(parts) >= len(ent) + 1 and isinstance(parts[len(ent)], Emits)
        if ok:
            ok = ctx.entails(views[vkey] == head[vkey] + 1)
        if ok:
            exp = spec.emit(head[vkey])
            if len(exp) != len(tail):
                ok = False
            else:
                for a, b in zip(tail, exp):
                    try:
                        same = spec.same(a, b)
                    except (ProgExc, AttributeError, TypeError):
                        same = False  # elements of another kind
                    if not ctx.entails(same):
                        ok = False
                        break
        if not ok:
            li.emit[k] = li.emit.get(k, 0) + 1
            eng.changed = True
    for k, (o, spec, vkey) in filled.items():
        # one entry more, under the index of the iteration
        new = o.symk[1:] if type(o) is RunDict else []
        ok = len(new) == 1 and ctx.entails(sand(views[vkey] == head[vkey] + 1, new[0][0] == head[vkey]))
        if ok:
            try:
                ok = ctx.entails(spec.same(new[0][1], spec.emit(head[vkey])[0]))
            except (ProgExc, AttributeError, TypeError):
                ok = False
        if not ok:
            li.emit[k] = li.emit.get(k, 0) + 1
            eng.changed = True
    return views


def _mentions(d, atoms):
    """Does the polynomial mention (even inside divisions) one of the atoms?"""
    todo = [d.p]
    while todo:
        p = todo.pop()
        for m in p:
            for a in m:
                if a in atoms:
                    return True
                at = T.ATOM_LIST[a]
                if at.kind in ("fdiv", "cdiv", "band", "pow2"):
                    todo += [x for x in at.info if isinstance(x, dict)]
                elif at.kind in ("ite", "uf", "z"):
                    zs = {T.ATOM_LIST[x].z.get_id() for x in atoms}
                    if _zmentions(at.z, zs):
                        return True
    return False


def _zmentions(z, ids):
    st = [z]
    seen = set()
    while st:
        t = st.pop()
        i = t.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        st.extend(t.children())
    return False


def li_emit(ctx, li, key, views0):
    """Which (emitter, index) pair currently explains the list, or None."""
    if not hasattr(li, "emit"):
        li.emit = {}
    combos = []
    idx = [k for k in views0 if k[0] == "l" and k[1].startswith("$it")] + [k for k in views0 if k[0] == "l" and not k[1].startswith("$it")]
    for spec in ctx.emitters:
        for k in idx:
            combos.append((spec, k))
    n = li.emit.get(key, 0)
    if n < len(combos):
        return combos[n]
    return None


def measures(it, fr, ctx, test_ast, views, hidden):
    """Candidate termination measures: name -> (value, non-negativity condition at the head)."""
    out = {}
    for h, n in hidden.items():
        v = fr.locals.get(h)
        if v is not None:
            out["remaining " + h] = (n - v, n - v >= 0)
    for k, v in views.items():
        if k[0] == "l" or k[0] == "attr":
            out[f"{k}"] = (v, v >= 0)
            for mn, mf in ctx.view_measures:
                m = mf(v)
                out[f"{mn} of {k}"] = (m, m >= 0)

    def cmp(e):
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                cmp(x)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            try:
                a = it.eval(e.left, fr)
                b = it.eval(e.comparators[0], fr)
            except (ProgExc, Unsupported):
                return
            if is_int(a) and is_int(b):
                out[f"{ast.unparse(e)}:r-l"] = (b - a, b - a >= 0)
                out[f"{ast.unparse(e)}:l-r"] = (a - b, a - b >= 0)

    if test_ast is not None and _pure(test_ast):
        cmp(test_ast)
    return out


def _pure(e):
    return not any(isinstance(n, (ast.Call, ast.NamedExpr)) and not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len") for n in ast.walk(e))


def candidates(ctx, li, v0, b0, hidden):
    """Candidate invariants as name -> function of (views, byte views)."""
    out = {}
    ks = sorted(v0, key=str)

    def nm(k):
        return ".".join(str(x) for x in k)

    for k in ks:
        e = v0[k]
        out[f"{nm(k)}>=0"] = lambda v, b, k=k: v[k] >= 0
        out[f"{nm(k)}>=entry"] = lambda v, b, k=k, e=e: v[k] >= e
        out[f"{nm(k)}<=entry"] = lambda v, b, k=k, e=e: v[k] <= e
        if k[0] == "l" and k[1] in hidden:
            n = hidden[k[1]]
            out[f"{nm(k)}<=count"] = lambda v, b, k=k, n=n: v[k] <= n
        for tn, t in getattr(ctx, "term_hints", []):
            out[f"{nm(k)}<={tn}"] = lambda v, b, k=k, t=t: v[k] <= t
            out[f"{nm(k)}>={tn}"] = lambda v, b, k=k, t=t: v[k] >= t
        for hn, h in ctx.view_hints:
            out[f"{nm(k)}:{hn}"] = lambda v, b, k=k, h=h, e=e: h(v[k], e)
    for i, k in enumerate(ks):
        for w in ks[i + 1 :]:
            s, d = v0[k] + v0[w], v0[k] - v0[w]
            out[f"{nm(k)}+{nm(w)}"] = lambda v, b, k=k, w=w, s=s: v[k] + v[w] == s
            out[f"{nm(k)}-{nm(w)}"] = lambda v, b, k=k, w=w, d=d: v[k] - v[w] == d
            for dk, dv in li.deltas.get(k, {}).items():
                for wk, dw in li.deltas.get(w, {}).items():
                    if (isinstance(dv, int) and dv == 0) or (isinstance(dw, int) and dw == 0):
                        continue
                    out[f"lin {nm(k)},{nm(w)},{dk},{wk}"] = lambda v, b, k=k, w=w, dv=dv, dw=dw: (v[k] - v0[k]) * dw == (v[w] - v0[w]) * dv
    for i, k in enumerate(ks):
        for w in ks:
            if k != w:
                out[f"{nm(k)}<={nm(w)}"] = lambda v, b, k=k, w=w: v[k] <= v[w]
                for hn, h in ctx.pair_hints:
                    out[f"{nm(k)},{nm(w)}:{hn}"] = lambda v, b, k=k, w=w, h=h: h(v[k], v[w], v0[k], v0[w])
    for k in sorted(b0, key=str):
        for sn, K, fn in ctx.acc_specs:
            def acc(v, b, k=k, fn=fn, K=K):
                s = b[k]
                return simplies(sand(K >= 0, K < s.sym_len()), s.at(K) == fn(K))

            out[f"{nm(k)}@{sn}"] = acc
    ints = [k for k in ks if k[0] != "len"]
    for f in ctx.folds:
        for k in ints:
            for d in (0, -1):
                n = f"{f.name}({nm(k)}{d or ''}"
                if f.acc is None:
                    if f.start is not None:
                        out[n + ")"] = lambda v, b, f=f, k=k, d=d: seq_(f(v[k] + d), f(*f.start))
                    out[n + ")=entry"] = lambda v, b, f=f, k=k, d=d: seq_(f(v[k] + d), f(v0[k] + d))
                else:
                    for a in sorted(v0.vals if f.acc == "val" else v0.lists, key=str):
                        out[f"{n},{nm(a)})"] = lambda v, b, f=f, k=k, d=d, a=a: seq_(f(v[k] + d, (v.vals if f.acc == "val" else v.lists)[a]), f(*f.start))
    for hn, h in ctx.val_hints:
        for k in ints:
            for a in sorted(v0.vals, key=str):
                out[f"{nm(a)},{nm(k)}:{hn}"] = lambda v, b, h=h, k=k, a=a: h(v.vals[a], v[k])
    for hn, h in ctx.loop_hints:
        out[f"hint:{hn}"] = lambda v, b, h=h: h(v, b, v0)
    return out
