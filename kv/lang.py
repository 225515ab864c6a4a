"""Abstract syntax of template jobs, and its concrete XML and text syntax.

A job (see spec/Render.tla) is a JSON-able dict.  `unparse` writes the
template sources a job stands for, choosing among the equivalent ways Kajiki
offers to write the same thing, and records the lines each node occupies.
"""
import re

NO = {'o': 'no'}
PRECEDENCE = ['def', 'call', 'case', 'else', 'for', 'if', 'switch', 'with',
              'replace', 'block', 'extends']
DIR_ATTR = {'def': 'function', 'call': 'function', 'case': 'value', 'else': '',
            'for': 'each', 'if': 'test', 'switch': 'test', 'with': 'vars',
            'replace': 'value', 'block': 'name', 'extends': 'href'}


# -- expressions -----------------------------------------------------------
def S(s): return {'o': 'str', 's': s}
def I(i): return {'o': 'int', 'i': i}
def B(b): return {'o': 'bool', 'b': b}
NONE = {'o': 'none'}
def V(n): return {'o': 'var', 'n': n}
def L(*a): return {'o': 'list', 'a': list(a)}
def D(items, form=0): return {'o': 'dict', 'k': [k for k, _ in items], 'a': [v for _, v in items], 'form': form}
def Not(x): return {'o': 'not', 'x': x}
def Bin(o, l, r): return {'o': o, 'l': l, 'r': r}
def Cond(c, l, r): return {'o': 'cond', 'c': c, 'l': l, 'r': r}
def Lit(x): return {'o': 'lit', 'x': x}
def Tr(s): return {'o': 'tr', 's': s}
def Defd(n): return {'o': 'defd', 'n': n}
def Call(n, *a): return {'o': 'call', 'n': n, 'a': list(a)}
def MCall(m, n, *a): return {'o': 'mcall', 'm': m, 'n': n, 'a': list(a)}
def Vof(n, x=NONE): return {'o': 'vof', 'n': n, 'x': x}
def Lam(ps, x): return {'o': 'lam', 'ps': list(ps), 'x': x}
def Err(v=0): return {'o': 'err', 'v': v}
CALLER = V('%caller')

ERRS = ['1/0', 'no_such_name', "{}['k']", 'None.attr', '[][1]', "int('x')"]


def py(e, rng=None):
    """Python source of an expression."""
    o = e['o']
    if o == 'str':
        if '\n' in e['s'] and getattr(rng, 'multiline', False) and rng.random() < .5:
            q = rng.choice(['"""', "'''"])
            return q + ''.join('\\' + c if c in '\\"\'' else {'\r': '\\r', '\t': '\\t'}.get(c, c)
                               for c in e['s']) + q
        return repr(e['s'])
    if o == 'int':
        return str(e['i']) if e['i'] >= 0 else '(%d)' % e['i']
    if o == 'bool':
        return 'True' if e['b'] else 'False'
    if o == 'none':
        return 'None'
    if o == 'var':
        return e['n']
    if o == 'list':
        xs = ', '.join(py(x, rng) for x in e['a'])
        if e.get('form') == 2 or (rng is not None and rng.random() < .3):
            # (as a tuple it compares the same with tuples only)
            return '(%s%s)' % (xs, ',' if len(e['a']) == 1 else '')
        return '[' + xs + ']'
    if o == 'dict':
        pairs = list(zip(e['k'], e['a']))
        if e.get('form') == 1:
            return '[' + ', '.join('(%r, %s)' % (k, py(v, rng)) for k, v in pairs) + ']'
        if e.get('form') == 2:
            return '(%s)' % ''.join('(%r, %s),' % (k, py(v, rng)) for k, v in pairs)
        return '{' + ', '.join('%r: %s' % (k, py(v, rng)) for k, v in pairs) + '}'
    if o == 'not':
        return '(not %s)' % py(e['x'], rng)
    if o in ('and', 'or'):
        return '(%s %s %s)' % (py(e['l'], rng), o, py(e['r'], rng))
    if o == 'eq':
        return '(%s == %s)' % (py(e['l'], rng), py(e['r'], rng))
    if o == 'lt':
        if rng is not None and rng.random() < .5:
            return '(%s > %s)' % (py(e['r'], rng), py(e['l'], rng))
        return '(%s < %s)' % (py(e['l'], rng), py(e['r'], rng))
    if o == 'add':
        return '(%s + %s)' % (py(e['l'], rng), py(e['r'], rng))
    if o == 'cond':
        return '(%s if %s else %s)' % (py(e['l'], rng), py(e['c'], rng), py(e['r'], rng))
    if o == 'lit':
        f = 'literal' if rng is None else rng.choice(['literal', 'Markup'])
        return '%s(%s)' % (f, py(e['x'], rng))
    if o == 'tr':
        return '%s(%r)' % ('_' if rng is None else rng.choice(['_', 'gettext']), e['s'])
    if o == 'defd':
        return 'defined(%r)' % e['n']
    if o == 'vof':
        d = py(e['x'], rng)
        return 'value_of(%r%s)' % (e['n'], '' if d == 'None' else ', ' + d)
    if o == 'lam':
        return '(lambda %s: %s)' % (', '.join(e['ps']), py(e['x'], rng))
    if o in ('call', 'mcall'):
        args = [py(x, rng) for x in e['a']] + [
            '%s=%s' % (n, py(x, rng)) for n, x in zip(e.get('kn', ()), e.get('ka', ()))]
        return '%s%s(%s)' % (e['m'] + '.' if o == 'mcall' else '', e['n'], ', '.join(args))
    if o == 'err':
        return ERRS[e.get('v', 0)]
    raise ValueError(o)


# -- nodes -----------------------------------------------------------------
def text(s): return {'op': 'text', 's': s}
LONE = ' \n.,;:&<>()"\'-=%#@!?*+/'


def dollar(): return {'op': 'dollar'}
def expr(e): return {'op': 'expr', 'e': e}
def comment(s): return {'op': 'comment', 's': s}
def cdata(*kids): return {'op': 'cdata', 'kids': list(kids)}
def pyset(n, e): return {'op': 'py', 'n': n, 'e': e}
def code(*ss): return {'op': 'code', 'ss': list(ss)}
def s_set(n, e): return {'s': 'set', 'n': n, 'e': e}
def s_aug(n, e): return {'s': 'aug', 'n': n, 'e': e}
def s_if(e, a, b=()): return {'s': 'if', 'e': e, 'a': list(a), 'b': list(b)}
def s_for(n, e, a): return {'s': 'for', 'n': n, 'e': e, 'a': list(a)}
S_PASS = {'s': 'pass'}
def include(tpl, alias): return {'op': 'include', 'tpl': tpl, 'alias': alias}
def import_(tpl, alias, explicit=False):
    return {'op': 'import', 'tpl': tpl, 'alias': alias, 'explicit': explicit}


def el(tag, kids=(), attrs=(), dirs=(), strip=NO, content=NO, pyattrs=NO, noauto=False):
    return {'op': 'el', 'tag': tag, 'kids': list(kids),
            'attrs': [{'n': n, 'ps': list(ps)} for n, ps in attrs],
            'dirs': list(dirs), 'strip': strip, 'content': content,
            'pyattrs': pyattrs, 'noauto': noauto}


def at(s): return {'o': 'text', 's': s}
def ae(e): return {'o': 'expr', 'e': e}

UNDEF = {'t': 'undef'}


def nop(kids, *dirs): return el('', kids, dirs=dirs)
def d_if(e): return {'d': 'if', 'e': e}
def d_else(): return {'d': 'else'}
def d_for(vs, e): return {'d': 'for', 'vs': list(vs), 'e': e}
def d_switch(e): return {'d': 'switch', 'e': e}
def d_case(e): return {'d': 'case', 'e': e}
def d_with(*bs): return {'d': 'with', 'bs': [{'n': n, 'e': e} for n, e in bs]}
def d_replace(e): return {'d': 'replace', 'e': e}
def d_block(n): return {'d': 'block', 'n': n}
def d_extends(t): return {'d': 'extends', 'tpl': t}
def param(n, v=None, ko=False): return {'n': n, 'v': v or UNDEF, 'ko': ko}
def d_def(n, *ps): return {'d': 'def', 'n': n, 'ps': [p if isinstance(p, dict) else param(p) for p in ps]}
def d_call(e, *ps): return {'d': 'call', 'e': e, 'ps': [p if isinstance(p, dict) else param(p) for p in ps]}


# values (context)
def vs(s): return {'t': 'str', 's': s}
def vi(i): return {'t': 'int', 'i': i}
def vb(b): return {'t': 'bool', 'b': b}
VNONE = {'t': 'none'}
def vl(*l): return {'t': 'list', 'l': list(l)}
def vhtml(h, s=''): return {'t': 'html', 'h': h, 's': s}
def vobj(s): return {'t': 'obj', 's': s}


def tpl(name, root, kind='xml', mode='', dtd='', dtdkey='', frag=False, strip=False,
        cdata_scripts=True, esc=False, auto=(), globals=()):
    root = list(root)
    ext = any(n['op'] == 'el' and any(d['d'] == 'extends' for d in n['dirs']) for n in root)
    return {'name': name, 'kind': kind, 'mode': mode, 'dtd': dtd, 'dtdkey': dtdkey,
            'frag': frag, 'strip': strip, 'cdata': cdata_scripts, 'esc': esc,
            'ext': ext, 'auto': list(auto), 'root': root,
            'globals': [{'n': n, 'v': v} for n, v in globals]}


def job(tpls, ctx=(), main=0, tr='id', **extra):
    d = {'tpls': list(tpls), 'ctx': [{'n': n, 'v': v} for n, v in ctx], 'main': main + 1, 'tr': tr}
    d.update(extra)
    return d


# -- unparsing -------------------------------------------------------------
class Writer(object):
    def __init__(self):
        self.parts = []
        self.line = 1
        self.last = ''

    def __call__(self, s):
        if s:
            self.parts.append(s)
            self.line += s.count('\n')
            self.last = s[-1]

    def value(self):
        return ''.join(self.parts)


NAMED = {u'\xa9': 'copy', u'\xe9': 'eacute', u'\u2014': 'mdash', u'\u2192': 'rarr',
         u'\u20ac': 'euro'}


BLANK_LINES = ['\n', '\n\n', ' ', '\n  ']


class XmlUnparser(object):
    """Writes XML template source.  `rng` picks among equivalent spellings;
    without it the plainest one is used."""

    def __init__(self, rng=None, nest=.4, newlines=.15, lines=True, charrefs=.15, crlf=.04, comments=.06, decls=.06, loose=.15, bulky=0, pad=.02):
        self.pad = pad
        self.bulky = bulky
        self.loose = loose
        self.decls = decls
        self.comments = comments
        self.crlf = crlf
        self.rng = rng
        self.nest = nest
        self.newlines = newlines
        self.charrefs = charrefs

    def chance(self, p):
        return self.rng is not None and self.rng.random() < p

    def chars(self, s, quote=None):
        out = []
        for i, c in enumerate(s):
            if c == '&':
                out.append(self.pick(['&amp;', '&#38;', '&#x26;']))
            elif c == '<':
                out.append(self.pick(['&lt;', '&#60;']))
            elif c == '>':
                # "]]>" must not appear in character data
                out.append(self.pick(['&gt;', '>']) if not (quote is None and s[max(0, i - 2):i] == ']]') else '&gt;')
            elif quote and c == quote:
                out.append('&quot;' if c == '"' else '&apos;')
            elif quote and c in '\n\t\r':
                out.append('&#%d;' % ord(c))
            elif c == '\r':
                out.append('&#13;')
            elif ord(c) > 126 and self.chance(self.charrefs * 3):
                out.append('&%s;' % NAMED[c] if c in NAMED and self.chance(.6) else '&#%d;' % ord(c))
            elif quote is None and c == '"' and self.chance(.2):
                out.append('&quot;')
            else:
                out.append(c)
        return ''.join(out)

    def pick(self, xs):
        return xs[0] if self.rng is None else self.rng.choice(xs)

    def lines_allowed(self, yes):
        if self.rng is not None:
            self.rng.multiline = yes

    def expr_src(self, e, nxt, allow_newline, in_cdata=False):
        """`nxt` is the text that follows (to know if $name is safe)."""
        self.lines_allowed(allow_newline)
        src = self.code(e)
        self.lines_allowed(False)
        if (e['o'] == 'var' and src == e['n'] and self.chance(.5)
                and not re.match(r'[_a-zA-Z0-9.]', nxt or ' ')):
            return '$' + src
        if self.chance(.2):
            src = ' ' + src + ' '
        elif allow_newline and self.chance(self.newlines):
            src = self.pick(['(\n%s\n)', '\n %s', '%s\n', '\n%s\n ', ' %s\n\n']).replace('%s', src)
        return '${' + src + '}'

    def attr(self, name, value):
        q = self.pick(['"', '"', "'"])
        return '%s=%s%s%s' % (name, q, self.chars(value, q), q)

    def attr_parts(self, ps):
        """Attribute value source (before XML escaping)."""
        out = []
        for i, p in enumerate(ps):
            if p['o'] == 'text':
                out.append(''.join(
                    '$$' if c == '$' and not (p['s'][j + 1:j + 2] and p['s'][j + 1] in LONE and self.chance(.4))
                    else c for j, c in enumerate(p['s'])))
            else:
                nxt = ''
                if i + 1 < len(ps):
                    nxt = ps[i + 1]['s'][:1] if ps[i + 1]['o'] == 'text' else '$'
                    nxt = nxt.replace('$', ' ') if nxt else 'x'
                out.append(self.expr_src(p['e'], nxt, False))
        return ''.join(out)

    def params(self, ps):
        out = []
        for p in ps:
            if p.get('ko') and '*' not in out:
                out.append('*')
            if p['v']['t'] == 'undef':
                out.append(p['n'])
            else:
                out.append('%s=%s' % (p['n'], py(value_expr(p['v']))))
        return ', '.join(out)

    def code(self, e, test=False):
        """Python source of an expression, not always in parentheses."""
        src = py(e, self.rng)
        tuple_ = e['o'] in ('list', 'dict') and src[0] == '(' and e['a']
        if self.chance(self.bulky):
            # more code than a line of a line number table can tell
            src = '[%s, %s][0]' % (src, ', '.join(['len'] * self.rng.choice([90, 130, 300, 600])))
        elif self.chance(self.loose):
            src = self.rng.choice(['0 or %s', '1 and %s', '%s if 1 else 0', '(%s)', '(lambda: %s)()', '[%s for zq in [0]][0]', '(lambda zq: zq)(%s)']) % src
        elif (e['o'] in ('not', 'and', 'or', 'eq', 'lt', 'add', 'cond') or (tuple_ and not test)) and self.chance(.5):
            src = src[1:-1]
        return src

    def statements(self, ss, indent, unit):
        """The lines of a code block."""
        out = []
        ss = list(ss)
        if not ss or self.chance(.1):
            ss.insert(self.rng.randint(0, len(ss)) if self.rng else 0, S_PASS)
        for x in ss:
            if self.chance(.12):
                out.append(self.rng.choice(['', '   ', '# note', indent + '# x = {', indent + "# it's"]))
            k = x['s']
            if k == 'pass':
                out.append(indent + 'pass')
            elif k == 'set' and x['e']['o'] == 'lam' and self.chance(.5):
                out.append('%sdef %s(%s):' % (indent, x['n'], ', '.join(x['e']['ps'])))
                if self.chance(.3):
                    out.append(indent + unit + '"""A function.')
                    out.append('  of mine"""')
                out.append('%sreturn %s' % (indent + unit, self.code(x['e']['x'])))
            elif k in ('set', 'aug'):
                src = self.code(x['e'])
                r = self.rng.random() if self.rng else 1
                if r < .1:
                    src = '(\n' + src + '\n)'
                elif r < .2:
                    src = '\\\n' + src
                elif r < .25:
                    src += '  # = 1'
                elif r < .3:
                    src += ';'
                out += ('%s%s %s %s' % (indent, x['n'], '=' if k == 'set' else '+=', src)).split('\n')
            elif k == 'if':
                out.append('%sif %s:' % (indent, self.code(x['e'], True)))
                out += self.statements(x['a'], indent + unit, unit)
                if x['b'] or self.chance(.1):
                    out.append(indent + 'else:')
                    out += self.statements(x['b'], indent + unit, unit)
            elif k == 'for':
                out.append('%sfor %s in %s:' % (indent, x['n'], self.code(x['e'])))
                out += self.statements(x['a'], indent + unit, unit)
        return out

    def block(self, ss, first=''):
        """Code as it follows <?py or %py."""
        self.lines_allowed(True)
        unit = self.pick(['    ', '  ', '\t'])
        if self.chance(.4):
            # starts on the first line
            lines = self.statements(ss, '', unit)
            if not lines[0].strip() or lines[0].startswith('#'):
                lines.pop(0)
            src = ' ' + first + '\n'.join(lines)
        else:
            margin = self.pick(['', '  ', '    ', '\t', '        '])
            src = ' ' + first if first else self.pick(['', '', '', ' #'])
            src += '\n' + '\n'.join(self.statements(ss, margin, unit))
        self.lines_allowed(False)
        return src

    def dir_value(self, d):
        k = d['d']
        if k in ('if', 'switch', 'case', 'replace'):
            return self.code(d['e'], k == 'if')
        if k == 'for':
            src = self.code(d['e'])
            if self.chance(.1):
                src = self.rng.choice(['iter((%s))', '(zq for zq in (%s))', 'list((%s))', '[zq for zq in (%s)]']) % src
            return '%s in %s' % (self.pick([', ', ',']).join(d['vs']), src)
        if k == 'with':
            sep = self.pick(['; ', ';', ' ; '])
            eq = self.pick(['=', ' = '])
            return sep.join('%s%s%s' % (b['n'], eq, self.code(b['e'])) for b in d['bs']) + self.pick(['', '', '', ';'])
        if k == 'def':
            return '%s(%s)' % (d['n'], self.params(d['ps']))
        if k == 'call':
            return py(d['e'], self.rng)
        if k == 'block':
            return d['n']
        if k == 'extends':
            return d['tpl']
        return ''

    def siblings(self, w, ids, nodes_file, cdata=False):
        for i, n in enumerate(ids):
            nxt = ids[i + 1] if i + 1 < len(ids) else None
            self.node(w, n, nxt, nodes_file, cdata)

    def node(self, w, n, nxt, fn, cdata):
        n['file'] = fn
        n['l1'] = w.line
        op = n['op']
        if op == 'text':
            w(n['s'] if cdata else n.get('_src') or self.chars(n['s']))
        elif op == 'dollar':
            w('$$')
        elif op == 'expr':
            follow = ''
            if nxt is not None:
                if nxt['op'] == 'text':
                    follow = nxt['s'][:1]
                elif nxt['op'] in ('dollar', 'expr'):
                    follow = ' '
            src = self.expr_src(n['e'], follow, True)
            # only in string literals
            w(src.replace(']]>', ']]\\x3e') if cdata else self.chars(src))
        elif op == 'comment':
            w('<!--%s-->' % n['s'])
        elif op == 'cdata':
            w('<![CDATA[')
            self.siblings(w, n['kids'], fn, True)
            w(']]>')
        elif op == 'py':
            w('<?%s %s = %s?>' % (self.pick(['py', 'python']), n['n'], self.code(n['e'])))
        elif op == 'code':
            w('<?%s%s%s?>' % (self.pick(['py', 'python']), self.block(n['ss']), self.pick(['\n', '\n', '\n  '])))
        elif op == 'modpy':
            if self.chance(.5):
                w('<?py%s\n?>' % self.block([s_set(n['n'], n['e'])], '%'))
            else:
                w('<?py %%%s = %s?>' % (n['n'], py(n['e'], self.rng)))
        elif op == 'include':
            w('<py:include %s/>' % self.attr('href', n['tpl']))
        elif op == 'import':
            w('<py:import %s%s/>' % (self.attr('href', n['tpl']),
                                     ' ' + self.attr('alias', n['alias']) if n['explicit'] else ''))
        elif op == 'el':
            self.element(w, n, fn)
        n['l2'] = w.line
        if op == 'el' and '_tagend' in n:
            n['l2'] = n.pop('_tagend')

    def element(self, w, n, fn):
        dirs = sorted(n['dirs'], key=lambda d: PRECEDENCE.index(d['d']))
        closers = []
        whole = any(d['d'] == 'call' for d in dirs)
        # peel outer directives into elements of their own
        while dirs and (dirs[0]['d'] == 'call' or self.chance(self.nest) or
                        (self.rng is None and n['tag'] == '')):
            if not n['tag'] and len(dirs) == 1:
                break
            d = dirs.pop(0)
            self.open_dir(w, d)
            closers.append('</py:%s>' % d['d'])
        attrs = []
        tag = n['tag']
        if not tag:
            if dirs:
                main = dirs.pop(0) if dirs[0]['d'] == 'call' or len(dirs) == 1 else \
                    dirs.pop(self.rng.randrange(len(dirs)) if self.rng else 0)
                tag = 'py:' + main['d']
                if DIR_ATTR[main['d']]:
                    attrs.append((DIR_ATTR[main['d']], self.dir_value(main)))
                if main['d'] == 'call' and main['ps']:
                    attrs.append(('args', self.params(main['ps'])))
            else:
                tag = 'py:nop'
        for d in dirs:
            attrs.append(('py:' + d['d'], self.dir_value(d)))
        for a in n['attrs']:
            if '_src' in a:
                attrs.append((a['n'], None, '"%s"' % a['_src']))
                continue
            attrs.append((a['n'], self.attr_parts(a['ps'])))
        if n['strip'] is not NO and n['strip']['o'] != 'no':
            attrs.append(('py:strip', '' if n['strip'] == B(True) and self.chance(.7)
                          else self.code(n['strip'])))
        if n['content']['o'] != 'no':
            attrs.append(('py:content', self.code(n['content'])))
        if n['pyattrs']['o'] != 'no':
            attrs.append(('py:attrs', self.code(n['pyattrs'])))
        if n.get('noauto'):
            attrs.append(('py:autoblock', self.pick(['False', 'false'])))
        if self.rng is not None:
            self.rng.shuffle(attrs)
        w('<' + tag)
        for a in attrs:
            w(self.pick([' ', ' ', ' ', '\n  ']) if self.newlines else ' ')
            w(a[0] + '=' + a[2] if len(a) > 2 else self.attr(*a))
        if not n['kids'] and self.chance(.7):
            w('/>')
            tagend = w.line
        else:
            w('>')
            tagend = w.line
            self.siblings(w, n['kids'], fn)
            w('</%s>' % tag)
        for c in reversed(closers):
            w(c)
        if not whole:
            n['_tagend'] = tagend

    def open_dir(self, w, d):
        w('<py:%s' % d['d'])
        if DIR_ATTR[d['d']]:
            w(' ' + self.attr(DIR_ATTR[d['d']], self.dir_value(d)))
        if d['d'] == 'call' and d['ps']:
            w(' ' + self.attr('args', self.params(d['ps'])))
        w('>')

    def template(self, t):
        w = Writer()
        if self.chance(self.decls):
            w(u'\ufeff')
        if self.chance(self.decls):
            w(self.rng.choice(['<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8" ?>\n',
                               "<?xml version='1.0' standalone='yes'?>\n\n"]))
        elif self.chance(self.decls):
            w(self.rng.choice(BLANK_LINES))
        if t['dtd']:
            w(t['dtd'])
            if self.chance(.4):
                w(self.rng.choice(BLANK_LINES))
        w(t.get('prolog', ''))
        if self.chance(self.comments):
            # comments outside the root element are dropped
            w(self.rng.choice(['<!-- c -->', '<!-- ${ -->\n', '<!--! x\n y -->\n\n', '<!--a--> <!--b-->']))
        at = len(w.parts)
        self.siblings(w, t['root'], t['name'])
        if self.chance(self.pad):
            # what the parser reads in one go ends somewhere in the document
            n = sum(len(x.encode('utf-8')) for x in w.parts[at:])
            w.parts.insert(at, '<!--%s-->' % ('x' * (65536 - 45 - self.rng.randint(0, n))))
        w(t.get('epilog', ''))
        if self.chance(self.comments):
            w(self.rng.choice(['<!-- c -->', '\n', '\n<!-- ${ -->\n']))
        if '\n' not in t['dtd'] and self.chance(self.crlf):
            # an XML reader sees no difference
            return w.value().replace('\n', '\r\n')
        return w.value()


def value_expr(v):
    t = v['t']
    if t == 'str':
        return S(v['s'])
    if t == 'int':
        return I(v['i'])
    if t == 'bool':
        return B(v['b'])
    if t == 'none':
        return NONE
    if t == 'list':
        return L(*[value_expr(x) for x in v['l']])
    raise ValueError(t)


class TextUnparser(XmlUnparser):
    """Writes text template source."""

    def __init__(self, *a, **kw):
        super(TextUnparser, self).__init__(*a, **kw)
        self.crlf = 0
        self.comments = self.decls = self.pad = 0

    def chars(self, s, quote=None):
        return s

    def line_ok(self, w):
        """Can a %tag line start here without swallowing white space?"""
        if not w.parts:
            return True
        if w.last != '\n':
            return False
        prev = w.value()[:-1].rpartition('\n')[2]
        return bool(prev.strip())

    def tag(self, w, name, body='', force=None):
        # only in string literals: a tag ends at the first %}
        body = body.replace('%}', '%\\x7d')
        assert '\n' not in body, body
        line = self.line_ok(w) and self.chance(.6) if force is None else force
        if line:
            w('%s%%%s%s\n' % (self.pick(['', '', '  ']), name, ' ' + body if body else ''))
        else:
            sep = self.pick(['', ' '])
            w('{%%%s%s%s%%}' % (name, ' ' + body if body else '', sep if not body.endswith('-') else ' '))

    def node(self, w, n, nxt, fn, cdata=False):
        n['file'] = fn
        n['l1'] = w.line
        op = n['op']
        if op == 'text':
            out = []
            for c in n['s']:
                if c == '$':
                    out.append('$$')
                elif c == '\\':
                    out.append('\\\\')
                elif c not in '\n' and self.chance(.03):
                    out.append('\\' + c)
                else:
                    out.append(c)
                    if self.chance(.03):
                        out.append('\\\n')
            w(''.join(out))
        elif op == 'dollar':
            w('$$')
        elif op == 'expr':
            follow = 'a'
            if nxt is not None:
                follow = nxt['s'][:1] if nxt['op'] == 'text' else \
                    'a' if nxt['op'] == 'el' else ' '
            w(self.expr_src(n['e'], follow, True))
        elif op == 'py':
            self.tag(w, 'py', '%s = %s' % (n['n'], self.code(n['e'])))
        elif op == 'code':
            src = self.block(n['ss'])
            if src[0] != '\n':
                src = '\n' + src.lstrip(' #').lstrip('\n')
            if self.line_ok(w) and self.chance(.6):
                w('%%py%s\n%%end\n' % src)
            else:
                w('{%%py%%}%s%s' % (src, self.pick(['\n{%end%}', '\n  {%end %}', '\n{%-end%}'])))
        elif op == 'modpy':
            self.tag(w, 'py', '%%%s = %s' % (n['n'], py(n['e'], self.rng)))
        elif op == 'include':
            self.tag(w, 'include', '"%s"' % n['tpl'])
        elif op == 'import':
            self.tag(w, 'import', '"%s"%s' % (n['tpl'], ' as ' + n['alias'] if n['explicit'] else ''))
        elif op == 'el':
            assert not n['tag'] and not n['attrs']
            dirs = sorted(n['dirs'], key=lambda d: PRECEDENCE.index(d['d']))
            self.text_dirs(w, n, dirs, nxt, fn)
        n['l2'] = w.line

    def text_dirs(self, w, n, dirs, nxt, fn):
        if not dirs:
            return self.siblings(w, n['kids'], fn)
        d = dirs[0]
        k = d['d']
        inner = lambda: self.text_dirs(w, n, dirs[1:], None, fn)
        if k == 'extends':
            self.tag(w, 'extends', '"%s"' % d['tpl'])
            return inner()
        if k == 'call':
            self.tag(w, 'call', '(%s) %s' % (self.params(d['ps']), self.dir_value(d)))
        elif k == 'else':
            self.tag(w, 'else')
        elif k in ('if', 'for', 'switch', 'case', 'def', 'block'):
            self.tag(w, k, self.dir_value(d))
        else:
            raise ValueError(k)
        inner()
        if k == 'case':
            return  # ended by what follows
        if k == 'if' and nxt is not None and is_dir(nxt, 'else'):
            return
        if k == 'else' and n.get('_inswitch'):
            return
        self.tag(w, 'end')

    def siblings(self, w, ids, fn, cdata=False):
        for i, n in enumerate(ids):
            nxt = ids[i + 1] if i + 1 < len(ids) else None
            if is_dir(n, 'switch'):
                for x in n['kids']:
                    x['_inswitch'] = True
            self.node(w, n, nxt, fn)


def is_dir(n, name):
    if n['op'] != 'el' or not n['dirs']:
        return False
    return sorted(n['dirs'], key=lambda d: PRECEDENCE.index(d['d']))[0]['d'] == name


def unparse(job, rng=None, **kw):
    """Returns the sources of the job's templates and annotates its nodes."""
    out = []
    for t in job['tpls']:
        u = (XmlUnparser if t['kind'] == 'xml' else TextUnparser)(rng, **kw)
        out.append(u.template(t))
    return out


def flatten(job):
    """The form of the job the TLA+ modules read: nodes in a table."""
    nodes = []
    names = set()

    def walk(ns):
        ids = []
        for n in ns:
            m = dict((k, v) for k, v in n.items() if not k.startswith('_'))
            if m.get('attrs'):
                m['attrs'] = [{'n': a['n'], 'ps': a['ps']} for a in m['attrs']]
            m.setdefault('file', '')
            m.setdefault('l1', 0)
            m.setdefault('l2', 0)
            nodes.append(m)
            me = len(nodes)
            ids.append(me)
            if 'kids' in m:
                m['kids'] = walk(n['kids'])
            if m['op'] == 'el':
                for a in m['attrs']:
                    names.add(a['n'])
                if m['pyattrs']['o'] != 'no':
                    collect_keys(m['pyattrs'], names)
        return ids

    j = dict(job)
    j['tpls'] = []
    for t in job['tpls']:
        t = dict(t)
        t['root'] = walk(t['root'])
        j['tpls'].append(t)
    j['nodes'] = nodes
    for c in job['ctx']:
        collect_vkeys(c['v'], names)
    j['order'] = sorted(names)
    return j


def collect_keys(e, names):
    if isinstance(e, dict):
        if e.get('o') == 'dict':
            names.update(e['k'])
        for v in e.values():
            collect_keys(v, names)
    elif isinstance(e, list):
        for v in e:
            collect_keys(v, names)


def collect_vkeys(v, names):
    if v['t'] == 'dict':
        names.update(v['k'])


def unflatten(j):
    """Inverse of flatten."""
    def tree(i):
        n = dict(j['nodes'][i - 1])
        if 'kids' in n:
            n['kids'] = [tree(k) for k in n['kids']]
        n['_id'] = i
        return n
    out = dict(j)
    out['tpls'] = []
    for t in j['tpls']:
        t = dict(t)
        t['root'] = [tree(i) for i in t['root']]
        out['tpls'].append(t)
    return out
