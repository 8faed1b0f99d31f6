"""A small implementation of the Tera template language, enough for the templates of acados.

The real renderer (interfaces/acados_template/tera_renderer, a Rust submodule) is not available
offline. This one is used as bin/t_renderer by the rig:

    t_renderer TEMPLATE_GLOB TEMPLATE_NAME JSON OUT
    t_renderer --version
"""
import json
import os
import re
import sys


class TeraError(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Undefined:
    def __bool__(self):
        return False

    def __repr__(self):
        return "<undefined>"


UNDEF = Undefined()

TAG = re.compile(r"\{#.*?#\}|\{\{-?.*?-?\}\}|\{%-?.*?-?%\}", re.S)
TOKEN = re.compile(r"""\s*(?:
    (?P<num>\d+\.\d+(?:[eE][+-]?\d+)?|\d+)
  | (?P<str>"[^"]*"|'[^']*'|`[^`]*`)
  | (?P<id>[A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_0-9]+)*)
  | (?P<op>==|!=|<=|>=|<|>|\+|-|\*|/|%|~|\||\(|\)|\[|\]|,|\.|=)
)""", re.X)


def tokenize(s):
    out = []
    pos = 0
    s = s.strip()
    while pos < len(s):
        m = TOKEN.match(s, pos)
        if not m:
            raise TeraError("cannot tokenize %r at %r" % (s, s[pos:pos + 20]))
        k = m.lastgroup
        out.append((k, m.group(k)))
        pos = m.end()
    out.append(("end", ""))
    return out


class Parser:
    """Expression -> closure taking a context."""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i]

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def accept(self, v):
        if self.t[self.i][1] == v and self.t[self.i][0] in ("op", "id"):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise TeraError("expected %r, got %r in %r" % (v, self.peek(), self.t))

    def expr(self):
        return self.p_or()

    def p_or(self):
        a = self.p_and()
        while self.accept("or"):
            b = self.p_and()
            a = (lambda x, y: lambda c: truthy(x(c)) or truthy(y(c)))(a, b)
        return a

    def p_and(self):
        a = self.p_not()
        while self.accept("and"):
            b = self.p_not()
            a = (lambda x, y: lambda c: truthy(x(c)) and truthy(y(c)))(a, b)
        return a

    def p_not(self):
        if self.accept("not"):
            a = self.p_not()
            return lambda c: not truthy(a(c))
        return self.p_cmp()

    def p_cmp(self):
        a = self.p_concat()
        k, v = self.peek()
        if k == "op" and v in ("==", "!=", "<", "<=", ">", ">="):
            self.next()
            b = self.p_concat()
            return self.cmp(v, a, b)
        if k == "id" and v == "in":
            self.next()
            b = self.p_concat()
            return lambda c: req(a(c)) in req(b(c))
        if k == "id" and v == "is":
            self.next()
            neg = self.accept("not")
            name = self.next()[1]
            args = []
            if self.accept("("):
                while not self.accept(")"):
                    args.append(self.expr())
                    self.accept(",")
            f = TESTS[name]
            return lambda c: f(a(c), *[x(c) for x in args]) != neg
        return a

    @staticmethod
    def cmp(op, a, b):
        def g(c):
            x, y = a(c), b(c)
            if op in ("==", "!="):
                if isinstance(x, Undefined) or isinstance(y, Undefined):
                    r = isinstance(x, Undefined) and isinstance(y, Undefined)
                elif isinstance(x, bool) != isinstance(y, bool):
                    r = False
                else:
                    r = x == y
                return r if op == "==" else not r
            x, y = num(req(x)), num(req(y))
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        return g

    def p_concat(self):
        a = self.p_add()
        while self.accept("~"):
            b = self.p_add()
            a = (lambda x, y: lambda c: show(req(x(c))) + show(req(y(c))))(a, b)
            a = self.filters(a)
        return a

    def p_add(self):
        a = self.p_mul()
        while True:
            if self.accept("+"):
                b = self.p_mul()
                a = (lambda x, y: lambda c: num(req(x(c))) + num(req(y(c))))(a, b)
            elif self.accept("-"):
                b = self.p_mul()
                a = (lambda x, y: lambda c: num(req(x(c))) - num(req(y(c))))(a, b)
            else:
                return self.filters(a)

    def p_mul(self):
        a = self.p_post()
        while True:
            if self.accept("*"):
                b = self.p_post()
                a = (lambda x, y: lambda c: num(req(x(c))) * num(req(y(c))))(a, b)
            elif self.accept("/"):
                b = self.p_post()
                a = (lambda x, y: lambda c: num(req(x(c))) / num(req(y(c))))(a, b)
            elif self.accept("%"):
                b = self.p_post()
                a = (lambda x, y: lambda c: num(req(x(c))) % num(req(y(c))))(a, b)
            else:
                return a

    def p_post(self):
        return self.filters(self.p_atom())

    def filters(self, a):
        while self.accept("|"):
            name = self.next()[1]
            kw = self.kwargs() if self.accept("(") else {}
            if name not in FILTERS:
                raise TeraError("unknown filter %s" % name)
            f = FILTERS[name]
            a = (lambda x, f, kw: lambda c: f(x(c), **{k: v(c) for k, v in kw.items()}))(a, f, kw)
        return a

    def kwargs(self):
        kw = {}
        while not self.accept(")"):
            name = self.next()[1]
            self.expect("=")
            kw[name] = self.expr()
            self.accept(",")
        return kw

    def p_atom(self):
        k, v = self.next()
        if k == "num":
            x = float(v) if "." in v else int(v)
            return lambda c: x
        if k == "str":
            s = v[1:-1]
            return lambda c: s
        if v == "(":
            a = self.expr()
            self.expect(")")
            return a
        if v == "-":
            a = self.p_atom()
            return lambda c: -num(req(a(c)))
        if v == "[":
            items = []
            while not self.accept("]"):
                items.append(self.expr())
                self.accept(",")
            return lambda c: [req(x(c)) for x in items]
        if k == "id":
            if v in ("true", "True"):
                return lambda c: True
            if v in ("false", "False"):
                return lambda c: False
            if self.peek()[1] == "(" and self.peek()[0] == "op":
                self.next()
                kw = self.kwargs()
                f = FUNCTIONS[v]
                return lambda c: f(**{n: req(x(c)) for n, x in kw.items()})
            path = [("k", v)]
            while True:
                if self.accept("."):
                    path.append(("k", self.next()[1]))
                elif self.accept("["):
                    e = self.expr()
                    self.expect("]")
                    path.append(("e", e))
                else:
                    break
            return lambda c: lookup(c, path)
        raise TeraError("unexpected %r in %r" % ((k, v), self.t))


def lookup(c, path):
    cur = c.get(path[0][1])
    for kind, x in path[1:]:
        if isinstance(cur, Undefined):
            return UNDEF
        key = x if kind == "k" else req(x(c))
        if isinstance(cur, dict):
            cur = cur.get(key, UNDEF)
        elif isinstance(cur, list):
            try:
                i = int(key)
                cur = cur[i] if 0 <= i < len(cur) else UNDEF
            except (ValueError, TypeError):
                cur = UNDEF
        else:
            return UNDEF
    return cur


def req(x):
    if isinstance(x, Undefined):
        raise TeraError("undefined variable used")
    return x


def num(x):
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        raise TeraError("number expected, got %r" % (x,))
    return x


def truthy(x):
    if isinstance(x, Undefined) or x is None:
        return False
    return bool(x)


def show(x):
    if x is True:
        return "true"
    if x is False:
        return "false"
    if x is None:
        return ""
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, list):
        return "[" + ", ".join(show(y) for y in x) + "]"
    if isinstance(x, dict):
        return "[object]"
    return str(x)


def f_filter(x, attribute, value=None):
    return [y for y in req(x) if y.get(attribute) == value]


def f_sort(x, attribute=None):
    return sorted(req(x), key=(lambda y: y[attribute]) if attribute else None)


def f_concat(x, **kw):
    w = kw["with"]
    return list(req(x)) + (list(w) if isinstance(w, list) else [req(w)])


def f_default(x, value):
    return value if isinstance(x, Undefined) else x


def f_trim(x, chars=None):
    return req(x).strip(chars)


def f_replace(x, **kw):
    return req(x).replace(kw["from"], kw["to"])


FILTERS = {
    "upper": lambda x: req(x).upper(),
    "lower": lambda x: req(x).lower(),
    "title": lambda x: re.sub(r"\w+", lambda m: m.group(0)[0].upper() + m.group(0)[1:].lower(), req(x)),
    "replace": f_replace,
    "first": lambda x: req(x)[0] if len(x) else UNDEF,
    "last": lambda x: req(x)[-1] if len(x) else UNDEF,
    "concat": f_concat,
    "sort": f_sort,
    "length": lambda x: len(req(x)),
    "join": lambda x, sep="": sep.join(show(y) for y in req(x)),
    "trim": f_trim,
    "filter": f_filter,
    "split": lambda x, pat: req(x).split(pat),
    "default": f_default,
    "abs": lambda x: abs(num(x)),
    "round": lambda x: float(round(num(x))),
}


def fn_throw(message):
    raise TeraError("throw: " + message)


FUNCTIONS = {
    "range": lambda end, start=0, step_by=1: list(range(start, end, step_by)),
    "throw": fn_throw,
    "get_env": lambda name, default="": os.environ.get(name, default),
    "now": lambda timestamp=False: 0,
}
TESTS = {
    "defined": lambda x: not isinstance(x, Undefined),
    "undefined": lambda x: isinstance(x, Undefined),
    "odd": lambda x: x % 2 == 1,
    "even": lambda x: x % 2 == 0,
    "string": lambda x: isinstance(x, str),
    "number": lambda x: isinstance(x, (int, float)) and not isinstance(x, bool),
    "iterable": lambda x: isinstance(x, list),
    "starting_with": lambda x, y: req(x).startswith(y),
    "ending_with": lambda x, y: req(x).endswith(y),
    "containing": lambda x, y: y in req(x),
    "matching": lambda x, y: re.search(y, req(x)) is not None,
    "divisibleby": lambda x, y: x % y == 0,
}


def compile_expr(s):
    p = Parser(tokenize(s))
    e = p.expr()
    if p.peek()[0] != "end":
        raise TeraError("trailing %r in %r" % (p.t[p.i:], s))
    return e


class Scope:
    """A stack of frames: the global one and one per running for loop."""

    def __init__(self, data):
        self.frames = [data]

    def get(self, name):
        for f in reversed(self.frames):
            if name in f:
                return f[name]
        return UNDEF

    def set(self, name, v):
        self.frames[-1][name] = v

    def set_global(self, name, v):
        self.frames[0][name] = v
        # Tera looks in the loop frames first; a shadowing local stays as it is


def split(src):
    """-> list of ('text', s) / ('expr', s) / ('tag', s), whitespace control applied"""
    parts = []
    pos = 0
    for m in TAG.finditer(src):
        parts.append(["text", src[pos:m.start()]])
        tok = m.group(0)
        left = len(tok) > 4 and tok[2] == "-"
        right = len(tok) > 4 and tok[-3] == "-"
        body = tok[2:-2]
        if left:
            body = body[1:]
        if right:
            body = body[:-1]
        kind = {"{#": "comment", "{{": "expr", "{%": "tag"}[tok[:2]]
        parts.append([kind, body.strip(), left, right])
        pos = m.end()
    parts.append(["text", src[pos:]])
    for i, p in enumerate(parts):
        if p[0] == "text":
            if i > 0 and parts[i - 1][3]:
                p[1] = p[1].lstrip()
            if i + 1 < len(parts) and parts[i + 1][2]:
                p[1] = p[1].rstrip()
    return [(p[0], p[1]) for p in parts if p[0] != "comment"]


def parse_block(parts, i, ends):
    """-> (nodes, index of the terminating tag)"""
    nodes = []
    while i < len(parts):
        kind, s = parts[i]
        if kind == "text":
            if s:
                nodes.append(("text", s))
            i += 1
            continue
        if kind == "expr":
            nodes.append(("expr", compile_expr(s), s))
            i += 1
            continue
        word = s.split(None, 1)[0] if s else ""
        rest = s[len(word):].strip()
        if word in ends:
            return nodes, i
        if word == "if":
            branches = []
            cond = compile_expr(rest)
            while True:
                body, i = parse_block(parts, i + 1, ("elif", "else", "endif"))
                branches.append((cond, body))
                s2 = parts[i][1]
                w2 = s2.split(None, 1)[0]
                if w2 == "elif":
                    cond = compile_expr(s2[4:].strip())
                elif w2 == "else":
                    cond = lambda c: True
                else:
                    break
            nodes.append(("if", branches))
            i += 1
        elif word == "for":
            m = re.match(r"([A-Za-z_]\w*)(?:\s*,\s*([A-Za-z_]\w*))?\s+in\s+(.*)$", rest, re.S)
            body, i = parse_block(parts, i + 1, ("endfor", "else"))
            alt = []
            if parts[i][1].startswith("else"):
                alt, i = parse_block(parts, i + 1, ("endfor",))
            nodes.append(("for", m.group(1), m.group(2), compile_expr(m.group(3)), body, alt))
            i += 1
        elif word in ("set", "set_global"):
            m = re.match(r"([A-Za-z_]\w*)\s*=\s*(.*)$", rest, re.S)
            nodes.append((word, m.group(1), compile_expr(m.group(2))))
            i += 1
        elif word in ("break", "continue"):
            nodes.append((word,))
            i += 1
        else:
            raise TeraError("unknown tag %r" % s)
    if ends:
        raise TeraError("missing %r" % (ends,))
    return nodes, i


def run(nodes, c, out):
    for n in nodes:
        k = n[0]
        if k == "text":
            out.append(n[1])
        elif k == "expr":
            v = n[1](c)
            if isinstance(v, Undefined):
                raise TeraError("Variable `%s` not found in context" % n[2])
            out.append(show(v))
        elif k == "if":
            for cond, body in n[1]:
                if truthy(cond(c)):
                    run(body, c, out)
                    break
        elif k == "for":
            seq = n[3](c)
            if isinstance(seq, Undefined):
                raise TeraError("for over an undefined value")
            if isinstance(seq, dict):
                items = list(seq.items())
            elif isinstance(seq, list):
                items = list(enumerate(seq))
            else:
                raise TeraError("for over %r" % (seq,))
            if not items:
                run(n[5], c, out)
            for j, (key, v) in enumerate(items):
                c.frames.append({n[1]: v} if n[2] is None else {n[1]: key, n[2]: v})
                c.frames[-1]["loop"] = {"index": j + 1, "index0": j, "first": j == 0, "last": j + 1 == len(items)}
                try:
                    run(n[4], c, out)
                except Break:
                    c.frames.pop()
                    break
                except Continue:
                    pass
                c.frames.pop()
        elif k == "set":
            c.set(n[1], req(n[2](c)))
        elif k == "set_global":
            c.set_global(n[1], req(n[2](c)))
        elif k == "break":
            raise Break()
        elif k == "continue":
            raise Continue()


def render(src, data):
    nodes, _ = parse_block(split(src), 0, ())
    out = []
    run(nodes, Scope(dict(data)), out)
    return "".join(out)


def main(argv):
    if argv[1:] == ["--version"]:
        print("t_renderer 0.2.1")
        return 0
    glob, name, js, outfile = argv[1:5]
    root = glob
    while "*" in root:
        root = os.path.dirname(root)
    with open(os.path.join(root, name)) as f:
        src = f.read()
    with open(js) as f:
        data = json.load(f)
    try:
        text = render(src, data)
    except TeraError as e:
        sys.stderr.write("Tera error in %s: %s\n" % (name, e))
        return 1
    with open(outfile, "w") as f:
        f.write(text)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
