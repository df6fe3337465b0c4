"""Read the Rust items hampi generates, and emit `Reflect` impls for them.

Deliberately small: the generated code is a flat list of `use`, `pub type`, `pub struct`, `pub enum` and
`impl X { pub const .. }` items.  Anything else is an error (`Unexpected`), never skipped.
"""
import re

TOK = re.compile(r'\s+|//[^\n]*|("(?:[^"\\]|\\.)*")|(r#[A-Za-z_]\w*|[A-Za-z_]\w*)|(\d[\w.]*)|(::|->|=>|[^\s\w])')


class Unexpected(Exception):
    pass


def tokens(src):
    out, i = [], 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise Unexpected("character %r" % src[i:i + 20])
        i = m.end()
        if m.lastindex:
            out.append(m.group(m.lastindex))
    return out


class Item:
    def __init__(s, kind, name, attr=None, inner=None, fields=None, consts=None):
        s.kind, s.name, s.attr, s.inner, s.fields, s.consts = kind, name, attr or {}, inner, fields, consts or {}

    def __repr__(s):
        return "Item(%s %s %s %s %s)" % (s.kind, s.name, s.attr, s.inner, s.fields)


class P:
    def __init__(s, src):
        s.t = tokens(src)
        s.i = 0

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        if s.i >= len(s.t):
            raise Unexpected("end of file")
        s.i += 1
        return s.t[s.i - 1]

    def eat(s, *xs):
        for x in xs:
            y = s.next()
            if y != x:
                raise Unexpected("%r where %r is expected, near %s" % (y, x, " ".join(s.t[max(0, s.i - 8):s.i + 4])))

    def attrs(s):
        """all #[..] here; the asn(..) arguments as a dict"""
        asn, derive = None, []
        while s.peek() == '#':
            s.next()
            if s.peek() == '!':
                s.next()
            s.eat('[')
            name = s.next()
            if name == 'asn':
                asn = asn or {}
                s.eat('(')
                while s.peek() != ')':
                    k = s.next()
                    s.eat('=')
                    v = s.next()
                    if v == '-':
                        v += s.next()
                    asn[k] = v[1:-1] if v.startswith('"') else v
                    if s.peek() == ',':
                        s.next()
                s.eat(')', ']')
            else:
                d = 1
                while d:
                    x = s.next()
                    d += x == '['
                    d -= x == ']'
                    if name == 'derive' and x not in '(),]':
                        derive.append(x)
        return asn, derive

    def ty(s):
        out, d = [], 0
        while True:
            x = s.peek()
            if x is None or (d == 0 and x in (',', ')', ';', '}', '=', '{')):
                break
            if x == '<':
                d += 1
            if x == '>':
                d -= 1
            out.append(s.next())
        # rustfmt breaks long types and ends them with a comma
        return "".join(out).replace(",>", ">")

    def pub(s):
        if s.peek() == 'pub':
            s.next()

    def items(s):
        out = []
        while s.peek() is not None:
            asn, derive = s.attrs()
            x = s.peek()
            if x is None:
                break
            if x == 'use':
                while s.next() != ';':
                    pass
                continue
            s.pub()
            x = s.next()
            if x == 'impl':
                name = s.next()
                s.eat('{')
                consts = {}
                while s.peek() != '}':
                    s.pub()
                    s.eat('const')
                    n = s.next()
                    s.eat(':')
                    s.ty()
                    s.eat('=')
                    v = s.next()
                    if v == '-':
                        v += s.next()
                    m = re.match(r'-?\d+', v)
                    consts[n] = int(m.group(0))
                    s.eat(';')
                s.eat('}')
                out.append(Item('impl', name, consts=consts))
                continue
            if x == 'type':
                name = s.next()
                s.eat('=')
                t = s.ty()
                s.eat(';')
                out.append(Item('alias', name, inner=t))
                continue
            if x == 'const':
                name = s.next()
                while s.next() != ';':
                    pass
                out.append(Item('const', name))
                continue
            if x == 'struct':
                name = s.next()
                y = s.next()
                if y == ';':
                    out.append(Item('unit', name, asn))
                elif y == '(':
                    a2, _ = s.attrs()
                    s.pub()
                    t = s.ty()
                    if s.peek() == ',':
                        s.next()
                    s.eat(')', ';')
                    out.append(Item('tuple', name, asn, inner=t))
                elif y == '{':
                    fields = []
                    while s.peek() != '}':
                        a, _ = s.attrs()
                        s.pub()
                        n = s.next()
                        s.eat(':')
                        t = s.ty()
                        fields.append((n, t, a or {}))
                        if s.peek() == ',':
                            s.next()
                    s.eat('}')
                    out.append(Item('struct', name, asn, fields=fields))
                else:
                    raise Unexpected("struct %s %s" % (name, y))
                out[-1].derive = derive
                continue
            if x == 'enum':
                name = s.next()
                s.eat('{')
                vs = []
                while s.peek() != '}':
                    a, _ = s.attrs()
                    n = s.next()
                    t = None
                    if s.peek() == '(':
                        s.next()
                        t = s.ty()
                        if s.peek() == ',':
                            s.next()
                        s.eat(')')
                    vs.append((n, t, a or {}))
                    if s.peek() == ',':
                        s.next()
                s.eat('}')
                out.append(Item('enum', name, asn, fields=vs))
                out[-1].derive = derive
                continue
            raise Unexpected("item starting %s, near %s" % (x, " ".join(s.t[max(0, s.i - 8):s.i + 4])))
        return out


def parse(src):
    return P(src).items()


def norm(s):
    n = re.sub(r'[-_ ]', '', s).lower()
    if s.startswith('r#'):
        n = re.sub(r'[-_ ]', '', s[2:]).lower()
    return 'typ' if n == 'type' else n


INTS = {'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'u128', 'i128'}


def opt_inner(t):
    m = re.match(r'^Option<(.*)>$', t)
    return m.group(1).rstrip(", ") if m else None


def reflect(items, missing=None):
    """`impl Reflect` text for every generated type (aliases need none)."""
    o = []
    for it in items:
        n = it.name
        ty = it.attr.get('type')
        if it.kind == 'unit':
            o.append("impl Reflect for %s { fn to_val(&self) -> Val { Val::Null } fn from_val(v: &Val) -> Option<Self> { if let Val::Null = v { Some(%s) } else { None } } }" % (n, n))
        elif it.kind == 'tuple':
            t = it.inner
            if t in INTS:
                k = 'Enum' if ty == 'ENUMERATED' else 'Int'
                to = "Val::%s(self.0 as i128)" % k
                fr = "if let Val::%s(i) = v { <%s as std::convert::TryFrom<i128>>::try_from(*i).ok().map(%s) } else { None }" % (k, t, n)
            elif t == 'bool':
                to, fr = "Val::Bool(self.0)", "if let Val::Bool(b) = v { Some(%s(*b)) } else { None }" % n
            elif t.startswith('BitVec<'):
                to = "Val::Bits(self.0.iter().map(|b| *b as u8).collect())"
                fr = "if let Val::Bits(b) = v { Some(%s(b.iter().map(|b| *b == 1).collect())) } else { None }" % n
            elif t == 'Vec<u8>':
                to, fr = "Val::Octs(self.0.clone())", "if let Val::Octs(b) = v { Some(%s(b.clone())) } else { None }" % n
            elif t == 'String':
                to, fr = "Val::Str(self.0.clone())", "if let Val::Str(b) = v { Some(%s(b.clone())) } else { None }" % n
            elif t == '()':
                to, fr = "Val::Null", "if let Val::Null = v { Some(%s(())) } else { None }" % n
            elif t.startswith('Vec<'):
                to = "Val::List(self.0.iter().map(|x| x.to_val()).collect())"
                fr = "if let Val::List(l) = v { l.iter().map(|x| <%s as Reflect>::from_val(x)).collect::<Option<Vec<_>>>().map(%s) } else { None }" % (t[4:-1], n)
            else:
                raise Unexpected("tuple struct %s(%s)" % (n, t))
            o.append("impl Reflect for %s { fn to_val(&self) -> Val { %s } fn from_val(v: &Val) -> Option<Self> { %s } }" % (n, to, fr))
        elif it.kind == 'struct':
            to, fr = [], []
            for f, t, a in it.fields:
                k = norm(f)
                if opt_inner(t):
                    to.append("if let Some(x) = &self.%s { o.push((\"%s\", x.to_val())); }" % (f, k))
                    fr.append("%s: match m.get(\"%s\") { None => None, Some(w) => Some(Reflect::from_val(w)?) }," % (f, k))
                else:
                    to.append("o.push((\"%s\", self.%s.to_val()));" % (k, f))
                    fr.append("%s: Reflect::from_val(m.get(\"%s\")?)?," % (f, k))
            o.append("impl Reflect for %s { fn to_val(&self) -> Val { #[allow(unused_mut)] let mut o: Vec<(&'static str, Val)> = vec![]; %s Val::Seq(o) } fn from_val(v: &Val) -> Option<Self> { let m = Fields::new(v, &[%s])?; let _ = &m; Some(%s { %s }) } }" % (
                n, " ".join(to), ", ".join('"%s"' % norm(f) for f, _, _ in it.fields), n, " ".join(fr)))
        elif it.kind == 'enum':
            op = ty == 'OPEN'
            to, fr = [], []
            if not it.fields:
                o.append("impl Reflect for %s { fn to_val(&self) -> Val { unreachable!() } fn from_val(_: &Val) -> Option<Self> { None } }" % n)
                continue
            for v, t, a in it.fields:
                if op:
                    k = int(re.match(r'-?\d+', a['key']).group(0))
                    to.append("%s::%s(x) => Val::Open(%d, Box::new(x.to_val()))," % (n, v, k))
                    fr.append("if *k == %d { if let Some(x) = Reflect::from_val(w) { return Some(%s::%s(x)); } }" % (k, n, v))
                else:
                    to.append("%s::%s(x) => Val::Choice(\"%s\", Box::new(x.to_val()))," % (n, v, norm(v)))
                    fr.append("if *k == \"%s\" { return Reflect::from_val(w).map(%s::%s); }" % (norm(v), n, v))
            o.append("impl Reflect for %s { fn to_val(&self) -> Val { match self { %s } } fn from_val(v: &Val) -> Option<Self> { if let Val::%s(k, w) = v { let w: &Val = w; %s } None } }" % (
                n, " ".join(to), 'Open' if op else 'Choice', " ".join(fr)))
    return "\n".join(o)
