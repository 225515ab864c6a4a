"""Runs template jobs on the real Kajiki and records what is observable.

Executed by the project's interpreter: reads cases (ndjson) on stdin, writes
one observation (json) per case on stdout.
"""
from __future__ import print_function, unicode_literals
import io
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import traceback

import kajiki
from kajiki import FileLoader, MockLoader, TextTemplate, XMLTemplate


plain_gettext = kajiki.i18n.gettext


class Html(object):
    def __init__(self, h, s):
        self.h, self.s = h, s

    def __html__(self):
        return self.h

    def __str__(self):
        return self.s


class Obj(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def falsy(cls):
    return [type(cls.__name__, (cls,), {'__bool__': lambda self: False}),
            type(cls.__name__, (cls,), {'__len__': lambda self: 0})]


HTMLS = dict(zip(['', 'false', 'empty'], [Html] + falsy(Html)))
OBJS = dict(zip(['', 'false', 'empty'], [Obj] + falsy(Obj)), float=float)


class Str(str):
    """A string of its own kind."""


class Items(object):
    """A sequence of its own kind."""
    def __init__(self, l):
        self.l = l

    def __len__(self):
        return len(self.l)

    def __iter__(self):
        return iter(self.l)


class Mapping(Items):
    """A mapping of its own kind."""
    def __iter__(self):
        return iter([k for k, _ in self.l])

    def __getitem__(self, k):
        return dict(self.l)[k]

    def keys(self):
        return list(self)

    def items(self):
        return list(self.l)


FORMS = {'list': list, 'tuple': tuple, 'object': Items, 'dict': dict, 'mapping': Mapping, 'pairs': list,
         'tuples': lambda l: tuple(map(list, l))}


def value(v):
    t = v['t']
    if t == 'str':
        return Str(v['s']) if v.get('f') else v['s']
    if t == 'int':
        return v['i']
    if t == 'bool':
        return v['b']
    if t == 'none':
        return None
    if t == 'list':
        return FORMS[v.get('f', 'list')]([value(x) for x in v['l']])
    if t == 'dict':
        return FORMS[v.get('f', 'dict')]([(k, value(x)) for k, x in zip(v['k'], v['l'])])
    if t == 'html':
        return HTMLS[v.get('f', '')](v['h'], v['s'])
    if t == 'obj':
        return OBJS[v.get('f', '')](v['s'])
    if t == 'lit':
        return kajiki.util.literal(v['s'])
    raise ValueError(t)


CATALOGUES = {'id': lambda s: s, 'brk': lambda s: '[' + s + ']', 'lazy': lambda s: Obj('[' + s + ']'),
              'void': lambda s: '', 'mk': lambda s: '<i>' + s + '&amp;"</i>'}


def context(case, log):
    ctx = dict((c['n'], value(c['v'])) for c in case['ctx'])
    if case.get('tr', 'id') != 'id' or case.get('haslog'):
        catalogue = CATALOGUES[case.get('tr', 'id')]

        def gettext(s):
            if not s.startswith('T:'):  # called by an expression
                log.append(s)
            return catalogue(s)
        if case.get('gt') == 'module':
            kajiki.i18n.gettext = gettext
        else:
            ctx['gettext'] = gettext
    return ctx


def compile_one(t, src):
    if t['kind'] == 'text':
        return TextTemplate(source=src, filename=t['name'], autoescape=t['esc'])
    kw = {}
    if t['mode']:
        kw['mode'] = t['mode']
    if t['frag']:
        kw['is_fragment'] = True
    if t['strip']:
        kw['strip_text'] = True
    if not t['cdata']:
        kw['cdata_scripts'] = False
    if t['auto']:
        kw['autoblocks'] = t['auto']
    return XMLTemplate(source=src, filename=t['name'], **kw)


class Scratch(object):
    """A FileLoader over files holding the sources."""

    def __init__(self, case):
        self.dir = tempfile.mkdtemp(prefix='kv')
        for t, src, enc in zip(case['tpls'], case['srcs'], case.get('encs') or ['utf-8'] * 99):
            fn = os.path.join(self.dir, t['name'])
            if not os.path.isdir(os.path.dirname(fn)):
                os.makedirs(os.path.dirname(fn))
            with io.open(fn, 'w', encoding=enc, newline='') as f:
                f.write(src)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def loader_options(o):
    kw = {}
    if o['force']:
        kw['force_mode'] = o['force']
    if o['esc']:
        kw['autoescape_text'] = True
    if o['auto']:
        kw['xml_autoblocks'] = o['auto']
    if not o['cdata']:
        kw['cdata_scripts'] = False
    if o['strip']:
        kw['strip_text'] = o['strip'] == 't'
    if o['enc']:
        kw['encoding'] = o['enc']
    return kw


def load_options(o):
    kw = {}
    if o['frag']:
        kw['is_fragment'] = True
    if o['strip']:
        kw['strip_text'] = o['strip'] == 't'
    if o['enc']:
        kw['encoding'] = o['enc']
    return kw


def locate(case, base=''):
    """Innermost frame of the traceback that belongs to a template."""
    names = dict((os.path.join(base, t['name']), t['name']) for t in case['tpls'])
    hit = None
    for entry in traceback.extract_tb(sys.exc_info()[2]):
        if entry[0] in names:
            hit = (names[entry[0]], entry[1])
    return hit


def failure(case, e, phase, base=''):
    loc = locate(case, base)
    o = {'k': 'err', 'phase': phase, 'type': type(e).__name__, 'msg': str(e)[:300],
         'bases': [c.__name__ for c in type(e).__mro__],
         'hasloc': loc is not None, 'file': loc[0] if loc else '', 'line': loc[1] if loc else 0}
    for a in ('filename', 'linenum'):
        if hasattr(e, a):
            o['e_' + a] = getattr(e, a)
    return o


def run_case(case):
    log = []
    scratch = None
    base = ''
    try:
        if case.get('via') == 'file':
            scratch = Scratch(case)
            base = scratch.dir
            main = case['tpls'][case['main'] - 1]
            if 'loader' in case:
                loader = FileLoader(base, **loader_options(case['loader']))
                cls = loader.load(main['name'], **load_options(case['load']))
            else:
                opts = {}
                if main['strip']:
                    opts['strip_text'] = True
                loader = FileLoader(base, **opts)
                cls = loader.load(main['name'])
        else:
            loader = {}
            for t, src in zip(case['tpls'], case['srcs']):
                loader[t['name']] = compile_one(t, src)
            names = list(loader)
            MockLoader(loader)
            cls = loader[case['tpls'][case['main'] - 1]['name']]
    except Exception as e:
        o = failure(case, e, 'compile', base)
        if scratch:
            scratch.close()
        return o
    try:
        out = cls(context(case, log)).render()
        return {'k': 'ok', 'out': out, 'log': log}
    except Exception as e:
        return failure(case, e, 'render', base)
    finally:
        kajiki.i18n.gettext = plain_gettext
        if scratch:
            scratch.close()


LIMIT = 10     # seconds of processor time


class Expired(BaseException):
    pass


def expired(signum, frame):
    raise Expired('no result within %d s' % LIMIT)


def clear():
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


def main(run_case=None):
    run_case = run_case or globals()['run_case']
    sys.setrecursionlimit(3000)
    stdin = io.open(0, encoding='utf-8', closefd=False)
    out = io.open(os.dup(1), 'w', encoding='utf-8')
    os.dup2(2, 1)       # what the code prints
    signal.signal(signal.SIGALRM, expired)
    signal.signal(signal.SIGPROF, expired)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    lost = 0
    for line in stdin:
        case = json.loads(line)
        if lost > 1:
            # enough to tell that something does not end
            out.write('{"k": "skip"}\n')
            continue
        signal.setitimer(signal.ITIMER_PROF, LIMIT)
        signal.setitimer(signal.ITIMER_REAL, LIMIT * 6)
        try:
            o = run_case(case)
            clear()
        except BaseException as e:
            lost += 1
            o = {'k': 'crash', 'type': type(e).__name__, 'msg': str(e) or traceback.format_exc()[-600:]}
        clear()
        out.write(json.dumps(o) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
