"""Shape-abstract XML documents: trees whose tags, attributes and nesting are fixed and whose texts hold labelled unknown fields,
with the part of the lxml.etree interface (find / findall paths, element access, iterparse events) and of the numpy functions needed to follow
the code over them.  All transfer functions are exact or give up."""
import re

from .terms import Term, mk, const, NONE, TRUE, FALSE, is_const, cval, lit
from . import ops, docs, arrays

REG = {}


class El:
    __slots__ = ('tag', 'attrib', 'text', 'kids', 'parent', 'uid', 'start', 'end', 'term', 'cut')

    def __init__(self, tag, kids, text, attrib):
        self.tag, self.kids, self.text, self.attrib = tag, kids, text, attrib
        self.parent = None
        self.uid = len(REG)
        REG[self.uid] = self
        self.term = mk('ref', ('xel', self.uid), 'xel', self.uid)
        self.start = self.end = None
        self.cut = False
        for k in kids:
            k.parent = self

    def path(self):
        p, e = [], self
        while e is not None:
            a = ''.join(f'[{v}]' for v in e.attrib.values())
            p.append(e.tag + a)
            e = e.parent
        return '/'.join(reversed(p))

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


def el(tag, /, *kids, _=None, **attrib):
    """element; _ = text (str / Term / list of parts)"""
    t = _
    if isinstance(t, (list, tuple)):
        t = docs.text(*t)
    elif isinstance(t, str):
        t = const(t)
    if t is None:
        t = const('\n ') if kids else NONE
    return El(tag, list(kids), t, attrib)


class XDoc:
    """an XML file: its tree, its last bytes and its size"""

    def __init__(self, root, last=b'</modeling>\n', size=('between', 1200, 400 * 1048576), truncated=False, pad=1500):
        self.root, self.truncated = root, truncated
        body = [b'<?xml version="1.0" encoding="ISO-8859-1"?>\n', b'<modeling>\n']
        n = 0
        while n < pad:
            body.append(b'   <v>       0.50000000       0.50000000       0.50000000 </v>\n')
            n += len(body[-1])
        self.lines = (b''.join(body) + last).splitlines(True)
        self.bytes = b''.join(self.lines)
        self.size = const(len(self.bytes)) if size is None else mk('val', 'int', 'size', size[1], size[2])
        self.events = []

        def go(e):
            e.start = len(self.events)
            self.events.append(('start', e))
            for k in e.kids:
                go(k)
            e.end = len(self.events)
            if not e.cut:
                self.events.append(('end', e))
        go(root)
        self.uid = len(DOCS)
        DOCS[self.uid] = self


DOCS = {}
STEP = re.compile(r'(//?)|(\.\.?)(?![\w])|(\*|[A-Za-z_][\w.-]*)|\[([^\]]*)\]')


def parse_path(path):
    """[(axis, tag, predicates)] or None"""
    out, i, axis = [], 0, 'child'
    while i < len(path):
        m = STEP.match(path, i)
        if not m:
            return None
        i = m.end()
        if m.group(1):
            axis = 'desc' if m.group(1) == '//' else 'child'
        elif m.group(2):
            if m.group(2) == '..':
                out.append(('parent', '*', []))
        elif m.group(3):
            out.append((axis, m.group(3), []))
            axis = 'child'
        else:
            if not out:
                return None
            p = m.group(4).strip()
            q = re.fullmatch(r'@([\w:.-]+)\s*(?:(!?=)\s*(["\'])(.*)\3)?', p)
            if q:
                out[-1][2].append(('attr', q.group(1), q.group(2), q.group(4)))
            elif re.fullmatch(r'\d+', p):
                out[-1][2].append(('pos', int(p)))
            elif p == 'last()':
                out[-1][2].append(('pos', -1))
            elif re.fullmatch(r'[A-Za-z_][\w.-]*', p):
                out[-1][2].append(('kid', p))
            else:
                return None
    return out


def select(e, path, xpath=False):
    """elements found from e along the path; None when the path is not understood"""
    if path.startswith('/'):
        if xpath and not path.startswith('//'):
            return None
        path = '.' + path
    steps = parse_path(path)
    if steps is None:
        return None
    cur = [e]
    for axis, tag, preds in steps:
        nxt = []
        for x in cur:
            if axis == 'parent':
                c = [x.parent] if x.parent is not None else []
            elif axis == 'child':
                c = [k for k in x.kids if tag in ('*', k.tag)]
            else:
                c = [k for k in x.walk() if k is not x and tag in ('*', k.tag)]
            for p in preds:
                if p[0] == 'attr':
                    c = [k for k in c if p[1] in k.attrib and (p[2] is None or (k.attrib[p[1]] == p[3]) == (p[2] == '='))]
                elif p[0] == 'kid':
                    c = [k for k in c if any(y.tag == p[1] for y in k.kids)]
                else:
                    # position among the siblings of the tag below the same parent
                    r = []
                    for k in c:
                        sib = [y for y in c if y.parent is k.parent]
                        if -len(sib) <= (p[1] - 1 if p[1] > 0 else p[1]) < len(sib) and sib[p[1] - 1 if p[1] > 0 else p[1]] is k:
                            r.append(k)
                    c = r
            for k in c:
                if k not in nxt:
                    nxt.append(k)
        cur = nxt
    if len(steps) > 1:
        order = {x: i for i, x in enumerate(e.walk())}
        if all(x in order for x in cur):
            cur.sort(key=lambda x: order[x])
    return cur


class XmlMixin:
    def xdoc(self, st, v):
        """(document, position) behind a path / handle / open file"""
        if not self.docmode:
            return None
        v = self.res(st, v)
        key = v
        if v.op == 'ref' and v.args[1] == 'file':
            key = st.m.get(('path', v))
        if key is None:
            return None
        try:
            d = self.docs.get(key)
        except TypeError:
            return None
        if not isinstance(d, XDoc):
            return None
        return d, (st.m.get(('pos', v)) or const(0)) if key is not v or key.args[0] != 'file_path' else const(0)

    def xel(self, o):
        return REG[o.args[2]] if o.op == 'ref' and o.args[1] == 'xel' else None

    def xroot(self, o):
        return DOCS[o.args[2]].root if o.op == 'ref' and o.args[1] == 'xtree' else None

    def doclines(self, st, o, key):
        r = super().doclines(st, o, key)
        return [const(x) for x in r.lines] if isinstance(r, XDoc) else r

    def doc_read(self, st, o, key, name, args):
        d = self.docs.get(key) if key is not None else None
        if not isinstance(d, XDoc):
            return super().doc_read(st, o, key, name, args)
        pos = st.m.get(('pos', o)) or const(0)
        args = [self.res(st, a) for a in args]
        if name == 'seek' and args:
            whence = args[1] if len(args) > 1 else const(0)
            if whence.op == 'ext' and whence.args[0] in ('os.SEEK_END', 'io.SEEK_END'):
                whence = const(2)
            if whence.op == 'ext' and whence.args[0] in ('os.SEEK_SET', 'io.SEEK_SET'):
                whence = const(0)
            off = args[0]
            if lit(whence, 0) and lit(off, 0):
                new = const(0)
            elif lit(whence, 2) and is_const(off) and isinstance(cval(off), int) and cval(off) <= 0:
                new = mk('fromend', -cval(off))
            elif lit(whence, 0):
                k = ops.sub(d.size, off)
                if not (is_const(k) and isinstance(cval(k), int)):
                    self.undecidable('seek position')
                new = mk('fromend', max(0, cval(k)))
                if is_const(off) and cval(off) < 0:
                    self.do_raise(st, self.exc('ValueError', const('negative seek value')))
            else:
                self.undecidable('seek position')
            if new.op == 'fromend' and is_const(d.size) and new.args[0] > cval(d.size):
                self.do_raise(st, self.exc('OSError', const('Invalid argument')))
            if new.op == 'fromend' and is_const(d.size) and new.args[0] == cval(d.size):
                new = const(0)
            st.m[('pos', o)] = new
            return const(0) if new is const(0) else ops.sub(d.size, const(new.args[0]))
        if name == 'tell':
            if lit(pos, 0):
                return const(0)
            if pos.op == 'fromend':
                return ops.sub(d.size, const(pos.args[0]))
            if lit(pos, len(d.lines)):
                return d.size
            self.undecidable('position in file')
        if name in ('readlines', 'read', 'readline') and (not args or lit(args[0], -1) or args[0] is NONE):
            if pos.op == 'fromend':
                k = pos.args[0]
                if k > len(d.bytes):
                    self.undecidable('file content')
                b = d.bytes[len(d.bytes) - k:] if k else b''
                if name == 'readline':
                    l = b.splitlines(True)[:1]
                    st.m[('pos', o)] = mk('fromend', k - len(l[0]) if l else 0)
                    return const(l[0] if l else b'')
                st.m[('pos', o)] = mk('fromend', 0)
                if name == 'read':
                    return const(b)
                return self.alloc(st, 'list', mk('list', *(const(x) for x in b.splitlines(True))))
            if name == 'read' and lit(pos, 0):
                st.m[('pos', o)] = mk('fromend', 0)
                return const(d.bytes)
        if name == 'read' and args and pos.op == 'fromend' and is_const(args[0]) and isinstance(cval(args[0]), int) and cval(args[0]) > 0:
            k, n = pos.args[0], cval(args[0])
            b = d.bytes[len(d.bytes) - k:][:n] if k else b''
            st.m[('pos', o)] = mk('fromend', k - len(b))
            return const(b)
        return super().doc_read(st, o, key, name, args)

    # ------------------------------------------------------------ etree

    def xlog(self, st, *entry):
        st.m[('xlog',)] = mk('tuple', *(st.m.get(('xlog',)) or mk('tuple')).args, mk('tuple', *(const(x) for x in entry)))

    def b_os_stat(self, st, args, kw, n):
        d = self.xdoc(st, args[0]) if args else None
        return mk('statres', d[0].size) if d else NotImplemented

    def b_os_path_getsize(self, st, args, kw, n):
        d = self.xdoc(st, args[0]) if args else None
        return d[0].size if d else NotImplemented

    def b_lxml_etree_XMLParser(self, st, args, kw, n):
        r = self.res(st, kw.get('recover', FALSE))
        if not self.docmode or args or not is_const(r):
            return NotImplemented
        return mk('xmlparser', const(bool(cval(r))))

    def b_lxml_etree_parse(self, st, args, kw, n):
        d = self.xdoc(st, args[0]) if args else None
        if d is None:
            return NotImplemented
        p = self.res(st, args[1] if len(args) > 1 else kw.get('parser', NONE))
        if p is NONE:
            rec = False
        elif p.op == 'xmlparser':
            rec = cval(p.args[0])
        else:
            self.undecidable('XML parser')
        return self.xparse(st, d, rec, 'tree')

    def xparse(self, st, d, rec, kind):
        d, pos = d
        self.xlog(st, kind, rec, bool(lit(pos, 0)))
        if not lit(pos, 0):
            self.do_raise(st, self.exc('XMLSyntaxError', const('not at the start of the content')))
        if kind == 'tree':
            if d.truncated and not rec:
                self.do_raise(st, self.exc('XMLSyntaxError', const('premature end of data')))
            return mk('ref', ('xtree', d.uid), 'xtree', d.uid)

    def b_lxml_etree_iterparse(self, st, args, kw, n):
        d = self.xdoc(st, args[0]) if args else None
        if d is None:
            return NotImplemented
        evs = self.res(st, args[1] if len(args) > 1 else kw.get('events', mk('tuple', const('end'))))
        evs = self.known_seq(st, evs)
        rec = self.res(st, kw.get('recover', FALSE))
        tag = self.res(st, kw.get('tag', NONE))
        if evs is None or not all(is_const(x) for x in evs) or not is_const(rec) or not (tag is NONE or lit(tag, cval(tag) if is_const(tag) else None)):
            self.undecidable('event parser')
        self.xparse(st, d, bool(cval(rec)), 'events')
        d = d[0]
        names = [cval(x) for x in evs]
        seq = tuple(i for i, (k, e) in enumerate(d.events) if k in names and (tag is NONE or e.tag == cval(tag)))
        it = mk('ref', ('xiter', self.new_oid()), 'xiter', d.uid, seq, bool(cval(rec)))
        st.m[('pos', it)] = const(0)
        return it

    def plan(self, st, v):
        v = self.res(st, v)
        if v.op == 'ref' and v.args[1] == 'xiter':
            def nxt(s, v=v):
                d, seq = DOCS[v.args[2]], v.args[3]
                p = cval(s.m[('pos', v)])
                if p >= len(seq):
                    s.m[('xcur', d.uid)] = const(len(d.events) + 1)
                    if d.truncated and not v.args[4]:
                        self.do_raise(s, self.exc('XMLSyntaxError', const('premature end of data')))
                    return None
                s.m[('pos', v)] = const(p + 1)
                s.m[('xcur', d.uid)] = const(seq[p])
                k, e = d.events[seq[p]]
                return mk('tuple', const(k), e.term)
            return [('lazy', nxt)]
        return super().plan(st, v)

    def known_seq(self, st, v):
        e = self.xel(v)
        if e is not None:
            return [k.term for k in self.xkids(st, e)]
        return super().known_seq(st, v)

    def xkids(self, st, e):
        return [] if st.m.get(('xclr', e.term)) else e.kids

    def docof(self, e):
        while e.parent is not None:
            e = e.parent
        return next((d for d in DOCS.values() if d.root is e), None)

    def getattr(self, st, o, name, n=None):
        if o.op == 'statres' and name == 'st_size':
            return o.args[0]
        o = self.res(st, o) if o.op not in ('ref',) else o
        e = self.xel(o)
        if e is not None:
            gone = bool(st.m.get(('xclr', o)))
            if name == 'tag':
                return const(e.tag)
            if name == 'tail':
                return const('\n ')
            if name == 'attrib':
                return mk('dict', *(() if gone else (mk('kv', const(k), const(v)) for k, v in e.attrib.items())))
            if name == 'text':
                d = self.docof(e)
                cur = st.m.get(('xcur', d.uid)) if d is not None else None
                if cur is not None and cval(cur) < e.end:
                    early = st.m.get(('xearly',)) or mk('tuple')
                    x = const(e.path())
                    if x not in early.args:
                        st.m[('xearly',)] = mk('tuple', *early.args, x)
                return NONE if gone else e.text
            return mk('bmeth', o, name)
        return super().getattr(st, o, name, n)

    def truth(self, st, v):
        e = self.xel(v)
        if e is not None:
            return const(bool(self.xkids(st, e)))
        if v.op == 'ref' and v.args[1] == 'xtree':
            return TRUE
        if v.op == 'nd' and len(arrays.flatten(v)) == 1:
            return self.truth(st, arrays.flatten(v)[0])
        return super().truth(st, v)

    def getitem(self, st, o, k):
        e = self.xel(o)
        if e is not None:
            k = self.res(st, k)
            kids = self.xkids(st, e)
            if is_const(k) and isinstance(cval(k), int):
                if not -len(kids) <= cval(k) < len(kids):
                    self.do_raise(st, self.exc('IndexError'))
                return kids[cval(k)].term
            if k.op == 'slice' and all(is_const(x) for x in k.args):
                return self.newlist(st, [x.term for x in kids[slice(*(cval(y) for y in k.args))]])
            self.undecidable('element index')
        return super().getitem(st, o, k)

    def call_method(self, st, o, name, args, kwargs, n):
        if o.op != 'ref':
            o = self.res(st, o)
        if o.op == 'xmlparser' or (o.op == 'ref' and o.args[1] in ('xel', 'xtree', 'xiter')):
            r = self.xml_method(st, o, name, [self.res(st, a) for a in args], {k: self.res(st, v) for k, v in kwargs.items()})
            if r is NotImplemented:
                self.undecidable(f'XML method {name}')
            return r
        return super().call_method(st, o, name, args, kwargs, n)

    def xml_method(self, st, o, name, args, kw):
        e = self.xel(o) or self.xroot(o)
        if e is None:
            return NotImplemented
        if name == 'getroot' or name == 'getroottree':
            return e.term
        if name in ('find', 'findall', 'iterfind', 'findtext', 'xpath') and len(args) == 1 and is_const(args[0]):
            r = select(e, cval(args[0]), name == 'xpath')
            if r is None:
                return NotImplemented
            if any(st.m.get(('xclr', x.term)) for x in e.walk()):
                return NotImplemented
            if name == 'find':
                return r[0].term if r else NONE
            if name == 'findtext':
                return (const('') if r[0].text is NONE else self.getattr(st, r[0].term, 'text')) if r else kw.get('default', NONE)
            return self.newlist(st, [x.term for x in r])
        if name in ('iter', 'iterdescendants', 'getiterator'):
            tags = [cval(a) for a in args]
            return self.newlist(st, [x.term for x in e.walk() if (not tags or x.tag in tags or '*' in tags) and (name == 'iter' or x is not e)])
        if name in ('getchildren', 'iterchildren'):
            tags = [cval(a) for a in args]
            return self.newlist(st, [x.term for x in self.xkids(st, e) if not tags or x.tag in tags])
        if name == 'getparent':
            return e.parent.term if e.parent is not None else NONE
        if name == 'get' and args:
            if st.m.get(('xclr', o)) or not is_const(args[0]) or cval(args[0]) not in e.attrib:
                return args[1] if len(args) > 1 else kw.get('default', NONE)
            return const(e.attrib[cval(args[0])])
        if name in ('items', 'keys', 'values'):
            d = self.getattr(st, o, 'attrib')
            return self.call_method(st, d, name, [], {}, None)
        if name == 'clear':
            for x in e.walk():
                st.m[('xclr', x.term)] = TRUE
            return NONE
        if name == 'itertext':
            return NotImplemented
        return NotImplemented

    # ------------------------------------------------------------ numpy over known shapes

    def call_ext(self, st, name, args, kwargs, n):
        if self.docmode and name.startswith('numpy.'):
            r = self.np_known(st, name[6:], args, kwargs)
            if r is not NotImplemented:
                return r
        return super().call_ext(st, name, args, kwargs, n)

    def nparr(self, st, v):
        v = self.res(st, v)
        if v.op == 'nd':
            return v
        if v.op == 'ref' and v.args[1] == 'arr':
            return self.array_of(st, v)
        k = self.known_seq(st, v) if v.op in ('ref', 'list', 'tuple') else None
        if k is not None:
            xs = [self.nparr(st, x) for x in k]
            return None if any(x is None for x in xs) else arrays.nd(*xs)
        if v.op in ('const', 'tok') or docnum(v) or v.op == 'concat' and docs.enc(v) is not None:
            return v
        r = self.array_of(st, v)
        return r

    def newarr(self, st, t):
        return self.alloc(st, 'arr', t)

    def np_known(self, st, name, args, kw):
        if name == 'fromstring' and args:
            s = docs.enc(self.res(st, args[0]))
            if self.res(st, args[0]) is NONE:
                self.do_raise(st, self.exc('TypeError'))
            sep = self.res(st, kw.get('sep', args[3] if len(args) > 3 else NONE))
            if s is None or not lit(sep, ' '):
                return NotImplemented
            ty = dtype(self.res(st, kw.get('dtype', args[1] if len(args) > 1 else NONE)))
            if ty is None:
                return NotImplemented
            out = []
            words = []
            for w in s.split():
                t = [docs._TOK.get(c) for c in w]
                # glued numbers are read one after the other
                words += list(w) if len(w) > 1 and all(x is not None and x.args[0] in docs.FLTK for x in t) and all(x.args[0] == 'mfix' for x in t[1:]) else [w]
            for w in words:
                x = docs.dec(w)
                r = docs.to_number(float if ty == 'float' else int, x) if x.op == 'tok' else None
                if r is not None and r[0] == 'ok':
                    out.append(r[1])
                    continue
                if x.op == 'tok' and x.args[0] in ('stars', 'word'):
                    break       # numpy stops at text it cannot read
                if x.op == 'const' and set(w) == {'*'}:
                    break
                if x.op != 'const':
                    return NotImplemented
                try:
                    out.append(const(float(cval(x)) if ty == 'float' else int(cval(x))))
                except (ValueError, TypeError):
                    return NotImplemented
            return self.newarr(st, arrays.nd(*out))
        if name in ('array', 'asarray', 'asfarray', 'fromiter') and args:
            a0 = self.res(st, args[0])
            ty = dtype(self.res(st, kw.get('dtype', args[1] if len(args) > 1 else NONE)), None)
            if a0.op == 'ref' and a0.args[1] == 'arr' and name == 'asarray' and not kw and len(args) == 1:
                return a0
            if ty == '?':
                return NotImplemented
            k = self.known_seq(st, a0) if a0.op in ('ref', 'list', 'tuple') and not (a0.op == 'ref' and a0.args[1] == 'arr') else None
            if ty in ('float', 'int') and k is not None and k and all(x.op in ('tok', 'concat') or (is_const(x) and isinstance(cval(x), str)) for x in k):
                out = []
                for x in k:
                    if is_const(x):
                        try:
                            out.append(const((float if ty == 'float' else int)(cval(x))))
                        except ValueError:
                            self.do_raise(st, self.exc('ValueError', const('could not convert string')))
                        continue
                    r = docs.to_number(float if ty == 'float' else int, x)
                    if r is None:
                        return NotImplemented
                    if r[0] == 'raise':
                        self.do_raise(st, self.exc('ValueError', const('could not convert string')))
                    out.append(r[1])
                return self.newarr(st, arrays.nd(*out))
            r = self.nparr(st, a0)
            if r is None or not (r.op == 'nd') or any(x.op == 'tok' for x in arrays.flatten(r)):
                return NotImplemented
            if arrays.shape(r) is None:
                return NotImplemented
            return self.newarr(st, arrays.astype(r, ty) if ty in ('float', 'int') else r)
        if name in ('split', 'array_split', 'vsplit') and len(args) >= 2:
            b = self.nparr(st, args[0])
            k = self.res(st, args[1])
            ax = self.res(st, kw.get('axis', args[2] if len(args) > 2 else const(0)))
            if b is None or b.op != 'nd' or arrays.shape(b) is None or not is_const(ax):
                return NotImplemented
            sh = arrays.shape(b)
            ax = cval(ax) % len(sh)
            if is_const(k) and isinstance(cval(k), int):
                if cval(k) <= 0 or sh[ax] % cval(k):
                    if name == 'array_split' or cval(k) == 0:
                        return NotImplemented
                    self.do_raise(st, self.exc('ValueError', const('array split does not result in an equal division')))
                m = sh[ax] // cval(k)
                cuts = [m * i for i in range(cval(k) + 1)]
            else:
                return NotImplemented
            full = mk('slice', NONE, NONE, NONE)
            return self.newlist(st, [self.newarr(st, arrays.index(b, mk('tuple', *([full] * ax), mk('slice', const(i), const(j), NONE))))
                                     for i, j in zip(cuts, cuts[1:])])
        if name in ('swapaxes', 'moveaxis', 'transpose', 'ascontiguousarray', 'append', 'concatenate', 'hstack', 'vstack', 'stack', 'reshape', 'squeeze', 'ravel', 'copy',
                    'column_stack'):
            new = []
            for a in args:
                r = self.nparr(st, a)
                if r is None:
                    r2 = self.known_seq(st, self.res(st, a))
                    if r2 is not None:
                        xs = [self.nparr(st, x) for x in r2]
                        r = mk('list', *xs) if all(x is not None for x in xs) else None
                elif name == 'append' and r.op != 'nd':
                    r = arrays.nd(r)
                new.append(r if r is not None else self.freeze1(st, a))
            t = mk('call', mk('ext', 'numpy.' + name), *new, *[mk('kw', k, self.freeze1(st, v)) for k, v in sorted(kw.items())])
            r = arrays.norm(t)
            return self.newarr(st, r) if r.op == 'nd' else NotImplemented
        return NotImplemented

    def setitem(self, st, o, k, v):
        if self.docmode and o.op == 'ref' and o.args[1] == 'arr':
            b = self.array_of(st, o, struct=True)
            kk = self.freeze1(st, self.res(st, k))
            t = arrays.index(b, kk) if b is not None else None
            w = self.nparr(st, v) if t is not None else None
            if t is not None and w is not None:
                ts, ws = arrays.shape(t), arrays.shape(w)
                if ts is not None and ws is not None and not fits(ts, ws):
                    self.do_raise(st, self.exc('ValueError', const('setting an array element with a sequence.' if not ts else
                                                                  f'could not broadcast input array from shape {ws} into shape {ts}')))
                c = self.content(st, o)
                c0 = c.args[0] if c is not None and c.op == 'arr' else c
                if c0 is not None and c0.op == 'call' and c0.args[0].op == 'ext' and c0.args[0].args[0] in ('numpy.zeros', 'numpy.ones', 'numpy.empty') and \
                        arrays.dtype_of(c0) in (None, 'float', 'int'):
                    py = int if arrays.dtype_of(c0) == 'int' else float
                    for x in (arrays.flatten(w) if w.op == 'nd' else [w]):
                        if x.op in ('tok', 'concat') or is_const(x) and isinstance(cval(x), str):
                            r = docs.to_number(py, x) if not is_const(x) else None
                            if is_const(x):
                                try:
                                    py(cval(x))
                                except ValueError:
                                    r = ('raise',)
                            if r is not None and r[0] == 'raise':
                                self.do_raise(st, self.exc('ValueError', const('could not convert string')))
        return super().setitem(st, o, k, v)

    def b_str(self, st, args, kw, n):
        if args and self.docmode:
            v = self.res(st, args[0])
            if v.op == 'exc' and len(v.args) == 2 and is_const(v.args[1]) and isinstance(cval(v.args[1]), str):
                return v.args[1]
        return super().b_str(st, args, kw, n)


def fits(ts, ws):
    """value of shape ws can be stored at a place of shape ts"""
    if not ts:
        n = 1
        for x in ws:
            n *= x
        return n == 1
    while len(ws) > len(ts) and ws[0] == 1:
        ws = ws[1:]
    if len(ws) > len(ts):
        return False
    return all(w in (1, t) for w, t in zip(ws[::-1], ts[::-1]))


def docnum(v):
    return v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in ('int', 'float') or (v.op == 'val' and v.args[0] in ('int', 'float'))


def dtype(d, default='float'):
    if d is NONE:
        return default
    if is_const(d) and isinstance(cval(d), str):
        return {'double': 'float', 'float': 'float', 'd': 'float', 'float64': 'float', 'f8': 'float', 'intc': 'int', 'int': 'int', 'i': 'int', 'int32': 'int',
                'int64': 'int'}.get(cval(d), '?')
    if d.op == 'ext':
        return {'float': 'float', 'int': 'int', 'numpy.float64': 'float', 'numpy.double': 'float', 'numpy.intc': 'int', 'numpy.int32': 'int', 'numpy.int64': 'int',
                'numpy.int_': 'int', 'numpy.float_': 'float'}.get(d.args[0], '?')
    return '?'
