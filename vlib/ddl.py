"""ALTER MODEL on top of the DML machine, and the textual declaration INSPECT MODEL reports."""
import json
from .client import *
from .model import *
from . import gen
from .dml import Machine, Diverged

TNAME = {"bool": "Bool", "uint8": "UInt8", "uint16": "UInt16", "uint32": "UInt32", "uint64": "UInt64",
         "sint8": "SInt8", "sint16": "SInt16", "sint32": "SInt32", "sint64": "SInt64",
         "float32": "Float32", "float64": "Float64", "binary": "Binary", "string": "String"}
WIDTH = ["8", "16", "32", "64"]


def dty(ty):
    if isinstance(ty, tuple):
        return "[" + dty(ty[1]) + "]"
    return TNAME[ty]


def decl_of(t):
    return "{" + ",".join("%s%s:%s" % ("*" if f.name == t.pk else ("?" if f.null else "!"), f.name, dty(f.ty))
                          for f in t.fields) + "}"


def base_ty(ty):
    return base_ty(ty[1]) if isinstance(ty, tuple) else ty


def rebase(ty, b):
    return ("list", rebase(ty[1], b)) if isinstance(ty, tuple) else b


def wider(ty):
    b = base_ty(ty)
    c = cls(b)
    if c not in ("uint", "sint", "float"):
        return []
    w = b[len(c):]
    return [rebase(ty, c + x) for x in WIDTH if int(x) > int(w) and (c + x) in SCALARS]


def narrower(ty):
    b = base_ty(ty)
    c = cls(b)
    if c not in ("uint", "sint", "float"):
        return []
    w = b[len(c):]
    return [rebase(ty, c + x) for x in WIDTH if int(x) < int(w) and (c + x) in SCALARS]


def fdef(name, ty, null, rng=None):
    s = "%s { type: %s" % (name, tystr(ty))
    if null:
        s += ", nullable: true"
    elif rng and rng.random() < 0.2:
        s += ", nullable: false"
    return s + " }"


class DMachine(Machine):
    """adds schema changes"""

    def alter(self, q, ok, apply=None):
        r = self.q(q, [])
        self.op("alter", "ok" if ok else "bad")
        if ok and r is not EMPTY:
            self.fail("alter:refused", "legal %r refused: %r (fields %r)" % (q, r, self.t.fields))
        if not ok and not isinstance(r, Err):
            self.fail("alter:accepted", "illegal %r accepted: %r (fields %r)" % (q, r, self.t.fields))
        if ok and apply:
            apply()

    def fresh(self, n):
        used = {f.name for f in self.t.fields}
        # previously removed names first: re-added fields must come back empty
        pool = [x for x in gen.NAMES if x not in used]
        old = [x for x in getattr(self, "removed", []) if x not in used]
        self.rng.shuffle(pool)
        out = []
        for _ in range(n):
            src = old if old and self.rng.random() < 0.7 else pool
            x = self.rng.choice(src)
            if x not in out:
                out.append(x)
        return out

    def alter_add(self):
        rng, t = self.rng, self.t
        if len(t.fields) > 14:
            return
        names = self.fresh(rng.choice([1, 1, 2, 3]))
        if not names:
            return
        new = [Field(n, gen.rtype(rng), rng.random() < 0.6) for n in names]
        body = ", ".join(fdef(f.name, f.ty, f.null, rng) for f in new)
        q = "alter model %s add %s" % (self.name, body if len(new) == 1 and rng.random() < 0.5 else "(" + body + ")")

        def ap():
            for f in new:
                t.fields.append(f)
                for r in t.rows.values():
                    r[f.name] = None
        self.alter(q, True, ap)

    def alter_remove(self):
        rng, t = self.rng, self.t
        cand = [f for f in t.fields if f.name != t.pk]
        if len(cand) < 2:
            return
        k = rng.choice([1, 1, 2, 3])
        rem = rng.sample(cand, min(k, len(cand) - 1))
        names = [f.name for f in rem]
        q = "alter model %s remove %s" % (self.name, names[0] if len(names) == 1 and rng.random() < 0.5 else "(" + ", ".join(names) + ")")

        def ap():
            for n in names:
                t.fields = [f for f in t.fields if f.name != n]
                for r in t.rows.values():
                    del r[n]
            self.removed = getattr(self, "removed", []) + names
        self.alter(q, True, ap)

    def alter_update(self):
        rng, t = self.rng, self.t
        cand = [f for f in t.fields if f.name != t.pk]
        if not cand:
            return
        ch = rng.sample(cand, min(len(cand), rng.choice([1, 1, 2, 3])))
        new = []
        for f in ch:
            w = wider(f.ty)
            ty = rng.choice(w) if w and rng.random() < 0.8 else f.ty
            new.append((f, ty, f.null or rng.random() < 0.4))
        body = ", ".join(fdef(f.name, ty, nl, rng) for f, ty, nl in new)
        q = "alter model %s update %s" % (self.name, body if len(new) == 1 and rng.random() < 0.5 else "(" + body + ")")

        def ap():
            for f, ty, nl in new:
                g = t.field(f.name)
                if ty != g.ty:
                    g.loose = True
                g.ty, g.null = ty, nl
        self.alter(q, True, ap)

    def alter_bad(self):
        """must be refused and change nothing"""
        rng, t = self.rng, self.t
        cand = [f for f in t.fields if f.name != t.pk]
        r = rng.random()
        nm = self.name
        good = "nf1 { type: uint8 }"
        if r < 0.12:
            q = "alter model %s remove %s" % (nm, t.pk)
        elif r < 0.22:
            q = "alter model %s remove nosuchfield" % nm
        elif r < 0.32 and cand:
            q = "alter model %s remove (%s, %s)" % (nm, rng.choice(cand).name, rng.choice([t.pk, "nosuchfield"]))
        elif r < 0.42:
            q = "alter model %s add (%s, %s)" % (nm, good, fdef(rng.choice(t.fields).name, "string", True))
        elif r < 0.5:
            q = "alter model %s add (%s, %s)" % (nm, good, good)
        elif r < 0.58:
            q = "alter model %s update %s" % (nm, fdef(t.pk, t.pkf().ty, rng.random() < .5))
        elif r < 0.66:
            q = "alter model %s update nosuchfield { type: uint64 }" % nm
        elif r < 0.8 and cand:
            f = rng.choice(cand)
            nw = narrower(f.ty)
            if nw:
                q = "alter model %s update %s" % (nm, fdef(f.name, rng.choice(nw), f.null))
            elif f.null:
                q = "alter model %s update %s" % (nm, fdef(f.name, f.ty, False))
            else:
                q = "alter model %s update %s" % (nm, fdef(f.name, ("list", f.ty), f.null))
        elif r < 0.9 and cand:
            f = rng.choice(cand)
            o = [x for x in SCALARS if cls(x) != cls(base_ty(f.ty))]
            q = "alter model %s update %s" % (nm, fdef(f.name, rebase(f.ty, rng.choice(o)), f.null))
        elif cand:
            f = rng.choice(cand)
            if f.null:
                q = "alter model %s update %s" % (nm, fdef(f.name, f.ty, False))
            elif isinstance(f.ty, tuple):
                # dropping or exchanging a list layer is another type
                q = "alter model %s update %s" % (nm, fdef(f.name, rng.choice([f.ty[1], base_ty(f.ty)]), f.null))
            else:
                q = "alter model %s update (%s, %s)" % (nm, fdef(f.name, f.ty, True), fdef("nosuchfield", "uint8", True))
        else:
            return
        if rng.random() < .5:
            q = self.mixed_bad() or q
        self.alter(q, False)
        self.inspect()

    def mixed_bad(self):
        """one illegal item among legal ones, at any position"""
        rng, t, nm = self.rng, self.t, self.name
        cand = [f for f in t.fields if f.name != t.pk]
        what = rng.choice(["add", "remove", "update", "update", "update"])
        rng.shuffle(cand)
        if what == "remove":
            items = [f.name for f in cand[:rng.choice([1, 2, 3])]]
            bad = [t.pk, "nosuchfield"] + items[:1]
            items.insert(rng.randint(0, len(items)), rng.choice(bad))
        elif what == "add":
            items = [fdef("nf%d" % i, gen.rtype(rng), rng.random() < .5, rng) for i in range(rng.choice([1, 2, 3]))]
            bad = [fdef(rng.choice(t.fields).name, gen.rtype(rng), True), fdef(t.pk, t.pkf().ty, False), fdef("nf0", gen.rtype(rng), True),
                   "nf9 { type: nosuchtype }", "nf9 { type: list }", "nf9 { type: uint8, nullable: 1 }", "nf9 { nullable: true }"]
            items.insert(rng.randint(0, len(items)), rng.choice(bad))
        else:
            if not cand:
                return None
            f = cand.pop()
            nw, wd = narrower(f.ty), wider(f.ty)
            bad = [fdef(f.name, ("list", f.ty), f.null), fdef("nosuchfield", "uint64", True), fdef(t.pk, t.pkf().ty, False)]
            bad += [fdef(f.name, x, rng.random() < .5 or f.null) for x in nw] * 3
            if f.null:
                bad += [fdef(f.name, x, False) for x in [f.ty] + wd] * 2
            bad.append(fdef(f.name, rebase(f.ty, rng.choice([x for x in SCALARS if cls(x) != cls(base_ty(f.ty))])), True))
            items = []
            for g in cand[:rng.choice([1, 2, 3])]:
                w = wider(g.ty)
                items.append(fdef(g.name, rng.choice(w) if w and rng.random() < .7 else g.ty, g.null or rng.random() < .4, rng))
            if not items:
                return None
            items.insert(rng.randint(0, len(items)), rng.choice(bad))
        return "alter model %s %s (%s)" % (nm, what, ", ".join(items))

    def any_alter(self):
        x = self.rng.random()
        if x < 0.35:
            self.alter_add()
        elif x < 0.6:
            self.alter_remove()
        elif x < 0.85:
            self.alter_update()
        else:
            self.alter_bad()

    def inspect(self):
        r = self.q("inspect model %s" % self.name, [])
        self.op("inspect", "ok")
        if not isinstance(r, V) or r.t != TAGN["string"]:
            self.fail("inspect:type", "inspect model gave %r" % (r,))
        try:
            d = json.loads(r.v)
        except ValueError:
            self.fail("inspect:json", "inspect model is not JSON: %r" % r.v)
        if d.get("decl") != decl_of(self.t):
            self.fail("inspect:decl", "inspect model reports %r, declared %r" % (d.get("decl"), decl_of(self.t)))
        if d.get("rows") != len(self.t.rows):
            self.fail("inspect:rows", "inspect model reports %r rows, %d exist" % (d.get("rows"), len(self.t.rows)))

    def dml(self):
        x = self.rng.random()
        if x < 0.3:
            self.insert()
        elif x < 0.6:
            self.update()
        elif x < 0.66:
            self.delete()
        elif x < 0.82:
            self.select()
        elif x < 0.88:
            self.select_all()
        elif x < 0.93:
            self.bad_update()
        elif x < 0.97:
            self.bad_insert()
        else:
            self.bad_select()
        # removed fields are unknown
        if self.rng.random() < 0.03:
            gone = [n for n in getattr(self, "removed", []) if self.t.field(n) is None]
            if gone:
                n = self.rng.choice(gone)
                r = self.q("select %s from %s where %s = ?" % (n, self.name, self.t.pk), [self.key()])
                if not isinstance(r, Err):
                    self.fail("removed-field", "removed field %r can be read: %r" % (n, r))
