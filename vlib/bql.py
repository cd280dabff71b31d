"""An independent recogniser of BlueQL: is this token sequence a statement, and which?"""
import re

STMT = ["sysctl", "create", "alter", "drop", "use", "inspect", "describe", "insert", "select", "update", "delete", "exists"]
MISC = ("table model space index type function rename add remove transform set return order sort group limit asc desc all by with on "
        "from into as to in of and or not if else where when allow auto default null transaction batch lock read write begin end key "
        "value primary truncate").split()
KW = set(STMT) | set(MISC)
SYMS = "+-*/!&^|=()[]{}<>'\"@#$%\\:;,.?~`"
FUNCS = {"uuidstr": "string", "uuidbin": "binary", "timesec": "uint"}
MAXDEPTH = 128


class Bad(Exception):
    pass


def pcls(p):
    from .model import pclass
    return pclass(p)


class LexBad(Exception):
    pass


def lex(text, params):
    """text: str; params: python values in order.  Token: (kind, value)"""
    out, i, n, pi = [], 0, len(text), 0
    while i < n:
        ch = text[i]
        if ch in " \t\n":
            i += 1
        elif (ch.isascii() and ch.isalpha()) or ch == "_":
            j = i
            while j < n and text[j].isascii() and (text[j].isalnum() or text[j] == "_"):
                j += 1
            w = text[i:j]
            i = j
            if w.lower() in KW:
                out.append(("kw", w.lower()))
            elif w.lower() in ("true", "false"):
                out.append(("lit", "bool"))
            else:
                out.append(("id", w))
        elif ch == "?" and pi < len(params):
            p = params[pi]
            pi += 1
            i += 1
            out.append(("kw", "null") if p is None else ("lit", pcls(p)))
        elif ch in SYMS:
            out.append(("sym", ch))
            i += 1
        else:
            raise LexBad(ch)
    return out


class P:
    def __init__(self, toks, cs):
        self.t, self.i, self.cs = toks, 0, cs
        self.any = None
        self.depth = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", None)

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def lenient(self, why):
        self.any = self.any or why

    def isk(self, w, k=0):
        return self.peek(k) == ("kw", w)

    def iss(self, c, k=0):
        return self.peek(k) == ("sym", c)

    def isid(self, k=0):
        return self.peek(k)[0] == "id"

    def kw(self, w):
        if self.next() != ("kw", w):
            raise Bad("expected " + w)

    def sym(self, c):
        if self.next() != ("sym", c):
            raise Bad("expected " + c)

    def ident(self):
        t = self.next()
        if t[0] != "id":
            raise Bad("expected identifier")
        return t[1]

    def word(self, w):
        if self.ident().lower() != w:
            raise Bad("expected " + w)

    def lit(self):
        t = self.next()
        if t[0] != "lit":
            raise Bad("expected literal")
        return t[1]

    def entity(self):
        if self.isid() and self.iss(".", 1) and self.isid(2):
            a = self.ident()
            self.i += 1
            return (a, self.ident())
        if self.isid() and self.cs:
            return (None, self.ident())
        raise Bad("expected entity")

    def full(self):
        a = self.ident()
        self.sym(".")
        return (a, self.ident())

    def nest(self):
        self.depth += 1
        if self.depth > MAXDEPTH:
            raise Bad("too deep")

    # { k: v, ... }  (the opening brace is consumed by the caller)
    def dictbody(self, keys, tymeta=False):
        """returns True when it stopped after the `type` keyword"""
        while True:
            if self.iss("}"):
                self.i += 1
                return False
            if tymeta and self.isk("type"):
                self.i += 1
                return True
            k = self.ident()
            self.sym(":")
            if self.iss("{"):
                self.i += 1
                self.nest()
                self.dictbody(set())
                self.depth -= 1
            elif self.isk("null"):
                self.i += 1
            else:
                self.lit()
            if k in keys:
                raise Bad("duplicate key")
            keys.add(k)
            if self.iss(","):
                self.i += 1
                continue
            if not self.iss("}"):
                raise Bad("expected , or }")

    def dict(self):
        self.sym("{")
        self.dictbody(set())

    def layers(self):
        self.ident()
        if self.iss("{"):
            self.i += 1
            self.tymeta()

    def tymeta(self):
        """after '{': properties, optionally type: layers"""
        keys = set()
        if self.dictbody(keys, True):
            self.sym(":")
            self.nest()
            self.layers()
            self.depth -= 1
            if self.iss(","):
                self.i += 1
                self.dictbody(keys)
            else:
                self.sym("}")
            return True
        return False

    def field(self):
        if self.isk("primary"):
            self.i += 1
            if self.isk("null"):
                raise Bad("primary null")
        elif self.isk("null"):
            self.i += 1
        self.ident()
        self.sym(":")
        self.layers()

    def xfield(self):
        self.ident()
        self.sym("{")
        if not self.tymeta():
            self.lenient("field without a type")

    def xfields(self):
        if self.isid():
            self.xfield()
            return
        self.sym("(")
        while True:
            self.xfield()
            if self.iss(","):
                self.i += 1
                continue
            self.sym(")")
            return

    def value(self, inlist=False):
        """returns the class of the value"""
        t = self.peek()
        if t[0] == "lit":
            self.i += 1
            return t[1]
        if t == ("kw", "null") and not inlist:
            self.i += 1
            return "null"
        if t == ("sym", "["):
            self.i += 1
            if inlist:
                self.nest()
            r = self.list()
            if inlist:
                self.depth -= 1
            return ("list", r)
        if t == ("sym", "@"):
            self.i += 1
            f = self.ident()
            self.sym("(")
            self.sym(")")
            if f not in FUNCS:
                raise Bad("unknown function")
            return FUNCS[f]
        raise Bad("expected value")

    def list(self):
        """after '['; returns the element class (None when empty)"""
        if self.iss("]"):
            self.i += 1
            return None
        first = None
        inner = None
        while True:
            v = self.value(True)
            k = "list" if isinstance(v, tuple) else v
            if first is not None and first != k:
                raise Bad("mixed list")
            first = k
            if isinstance(v, tuple) and v[1] is not None:
                a = "list" if isinstance(v[1], tuple) else v[1]
                if inner is not None and inner != a:
                    raise Bad("mixed nested list")
                inner = a
            if self.iss(","):
                self.i += 1
                continue
            self.sym("]")
            return ("list", inner) if first == "list" else first

    def clauses(self):
        seen = set()
        while True:
            k = self.ident()
            if self.iss("="):
                self.i += 1
            elif self.iss("!"):
                self.i += 1
                self.sym("=")
            elif self.iss("<") or self.iss(">"):
                self.i += 1
                if self.iss("="):
                    self.i += 1
            else:
                raise Bad("expected operator")
            self.lit()
            if k in seen:
                raise Bad("duplicate clause")
            seen.add(k)
            if self.isk("and"):
                self.i += 1
                continue
            return

    def fields(self):
        if self.iss("*"):
            self.i += 1
            return
        self.ident()
        while self.iss(","):
            self.i += 1
            if self.isk("from"):
                self.lenient("trailing comma in a field list")
                return
            self.ident()

    def statement(self):
        t = self.next()
        if t[0] != "kw":
            raise Bad("expected statement")
        s = t[1]
        if s == "create":
            if self.isk("space"):
                self.i += 1
                if self.isk("if"):
                    self.i += 1
                    self.kw("not")
                    if not (self.isid() and False):
                        if self.peek() != ("kw", "exists"):
                            raise Bad("exists")
                        self.i += 1
                n = self.ident()
                if self.isk("with"):
                    self.i += 1
                    self.dict()
                return ("create space", n)
            self.kw("model")
            if self.isk("if"):
                self.i += 1
                self.kw("not")
                self.kw("exists")
            e = self.full()
            self.sym("(")
            at = self.i
            while True:
                self.field()
                if self.iss(","):
                    self.i += 1
                    continue
                self.sym(")")
                break
            if self.i - at < 8:
                self.lenient("a model of one field")
            if self.isk("with"):
                self.i += 1
                self.dict()
            return ("create model", e)
        if s == "alter":
            if self.isk("space"):
                self.i += 1
                n = self.ident()
                self.kw("with")
                self.dict()
                return ("alter space", n)
            self.kw("model")
            e = self.full()
            if self.isk("add") or self.next() == ("kw", "update"):
                if self.isk("add"):
                    self.i += 1
                self.xfields()
            else:
                self.i -= 1
                self.kw("remove")
                if self.isid():
                    self.i += 1
                else:
                    self.sym("(")
                    while True:
                        self.ident()
                        if self.iss(","):
                            self.i += 1
                            continue
                        self.sym(")")
                        break
            return ("alter model", e)
        if s == "drop":
            k = self.next()
            if k not in (("kw", "space"), ("kw", "model")):
                raise Bad("drop what")
            if self.isk("if"):
                self.i += 1
                self.kw("exists")
            if self.isk("allow"):
                self.i += 1
                self.kw("not")
                self.word("empty")
            if k[1] == "space":
                return ("drop space", self.ident())
            return ("drop model", self.full())
        if s == "use":
            if self.isk("null"):
                self.i += 1
                return ("use", None)
            if self.iss("$"):
                self.i += 1
                self.word("current")
                return ("use", "$")
            return ("use", self.ident())
        if s == "inspect":
            if self.isk("space"):
                self.i += 1
                return ("inspect space", self.ident())
            if self.isk("model"):
                self.i += 1
                return ("inspect model", self.entity())
            self.word("global")
            return ("inspect global", None)
        if s == "sysctl":
            if self.isk("create") or self.isk("alter"):
                k = self.next()[1]
                self.word("user")
                u = self.ident()
                self.kw("with")
                at = self.i
                self.dict()
                if self.i - at < 5:
                    self.lenient("user without options")
                return ("sysctl " + k, u)
            if self.isk("drop"):
                self.i += 1
                self.word("user")
                return ("sysctl drop", self.ident())
            self.word("report")
            self.word("status")
            return ("sysctl status", None)
        if s == "insert":
            self.kw("into")
            e = self.entity()
            if self.iss("("):
                self.i += 1
                if self.iss(")"):
                    self.i += 1
                    self.lenient("no values")
                    return ("insert", e)
                while True:
                    self.value()
                    if self.iss(","):
                        self.i += 1
                        continue
                    self.sym(")")
                    return ("insert", e)
            self.sym("{")
            if self.iss("}"):
                self.i += 1
                self.lenient("no values")
                return ("insert", e)
            seen = set()
            while True:
                k = self.ident()
                self.sym(":")
                self.value()
                if k in seen:
                    raise Bad("duplicate field")
                seen.add(k)
                if self.iss(","):
                    self.i += 1
                    continue
                self.sym("}")
                return ("insert", e)
        if s == "select":
            if self.isk("all"):
                self.i += 1
                self.fields()
                self.kw("from")
                e = self.entity()
                self.kw("limit")
                if self.lit() != "uint":
                    raise Bad("limit")
                return ("select all", e)
            self.fields()
            self.kw("from")
            e = self.entity()
            if self.isk("where"):
                self.i += 1
                self.clauses()
            return ("select", e)
        if s == "update":
            e = self.entity()
            self.kw("set")
            while True:
                self.ident()
                if self.iss("="):
                    self.i += 1
                else:
                    t = self.next()
                    if t[0] != "sym" or t[1] not in "+-*/":
                        raise Bad("operator")
                    self.sym("=")
                self.lit()
                if self.iss(","):
                    self.i += 1
                    continue
                break
            self.kw("where")
            self.clauses()
            return ("update", e)
        if s == "delete":
            self.kw("from")
            e = self.entity()
            self.kw("where")
            self.clauses()
            return ("delete", e)
        raise Bad("unknown statement")


def judge(toks, cs):
    """('ok'|'bad'|'any', kind, name or reason)"""
    p = P(toks, cs)
    try:
        k, n = p.statement()
        if p.i < len(toks):
            raise Bad("trailing tokens")
        if p.i > len(toks):
            raise Bad("unterminated")
    except Bad as e:
        return ("any" if p.any else "bad"), None, str(e)
    return ("any" if p.any else "ok"), k, n
