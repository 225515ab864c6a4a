"""Runs histories of file changes, loads and renderings on real loaders."""
from __future__ import print_function, unicode_literals
import importlib
import io
import os
import shutil
import sys
import tempfile

from kajiki import FileLoader, PackageLoader

from driver import main

EXTS = ['.xml', '.html', '.html5']
DIRS = ['mm', 'b', 'z.d', 'a', 'B']      # in no particular order
DOCTYPE = '<!DOCTYPE html>\n'     # of .html5 files
T0 = 1500000000 * 10 ** 9
count = [0]


class World(object):
    """Directories with template files, and loaders over them.

    `pkg`: a package instead; its "directories" are the file extensions, in
    the order PackageLoader prefers them."""

    def __init__(self, case):
        self.case = case
        self.pkg = case.get('pkg')
        self.unit = case.get('unit', 10 ** 9)
        self.dir = tempfile.mkdtemp(prefix='kvl')
        if self.pkg:
            count[0] += 1
            self.pname = 'kvp%d_%d' % (os.getpid(), count[0])
            os.mkdir(os.path.join(self.dir, self.pname))
            with open(os.path.join(self.dir, self.pname, '__init__.py'), 'w'):
                pass
            sys.path.insert(0, self.dir)
            importlib.invalidate_caches()
            self.loaders = [PackageLoader(reload=r) for r in case['reload']]
        else:
            dirs = [os.path.join(self.dir, DIRS[d]) for d in range(case['dirs'])]
            for d in dirs:
                os.makedirs(os.path.join(d, 'sub'))
            # a directory that does not exist holds no template
            dirs.insert(case.get('ghost', 0), os.path.join(self.dir, 'ghost'))
            path = [dirs, ';'.join(dirs), tuple(dirs)][case.get('path', 0)]
            self.loaders = [FileLoader(path, reload=r) for r in case['reload']]
        self.results = {}
        self.seen = []

    def close(self):
        if self.pkg:
            sys.path.remove(self.dir)
            sys.modules.pop(self.pname, None)
        shutil.rmtree(self.dir, ignore_errors=True)

    def name(self, n):
        return '%s.%s' % (self.pname, n) if self.pkg else self.case.get('names', {}).get(n, n + '.html')

    def filename(self, d, n):
        if self.pkg:
            return os.path.join(self.dir, self.pname, n + EXTS[d - 1])
        return os.path.join(self.dir, DIRS[d - 1], self.name(n))

    def source(self, f):
        if f['k'] == 'bad':
            return '<p>%s' % f['v']
        if f['k'] == 'leaf':
            return '<p>%s|<py:block name="k">%s</py:block></p>' % (f['v'], f['v'])
        t = self.name(f['t'])
        if f['k'] == 'inc':
            return '<div>%s<py:include href="%s"/><py:block name="k">%s</py:block></div>' % (f['v'], t, f['v'])
        return '<py:extends href="%s"><py:block name="k">%s</py:block></py:extends>' % (t, f['v'])

    def write(self, fn, f):
        # all at once, as far as anybody can see
        tmp = os.path.join(self.dir, 'tmp')
        with io.open(tmp, 'w', encoding='utf-8') as h:
            h.write(self.source(f))
        t = T0 + f['m'] * self.unit
        os.utime(tmp, ns=(t, t))
        os.rename(tmp, fn)

    def do(self, i, e):
        a = e['a']
        o = {'r': 'ok', 'id': 0, 'out': ''}
        if a == 'write':
            self.write(self.filename(e['d'], e['n']), e['f'])
        elif a == 'remove':
            os.remove(self.filename(e['d'], e['n']))
        elif a == 'load':
            l = self.loaders[e['l'] - 1]
            try:
                c = (l.load if e.get('alt') else l.import_)(self.name(e['n']))
                self.results[i] = c
                if not any(x is c for x in self.seen):
                    self.seen.append(c)
                # templates are told apart by their class
                o['id'] = [x is c for x in self.seen].index(True) + 1
            except Exception as x:
                o['r'] = classify(x)
        elif a == 'render':
            try:
                if e['of'] in self.results:
                    o['out'] = self.results[e['of']]({}).render().replace(DOCTYPE, '')
                else:
                    o['r'] = 'never loaded'
            except Exception as x:
                o['r'] = classify(x)
        return o


def classify(x):
    if isinstance(x, (IOError, OSError)):
        return 'missing'
    if type(x).__name__ == 'XMLTemplateParseError':
        return 'bad'
    return '%s: %s' % (type(x).__name__, str(x)[:100])


def run_case(case):
    w = World(case)
    out = []
    try:
        for i, e in enumerate(case['events']):
            out.append(w.do(i, e))
        return {'k': 'ok', 'obs': out}
    finally:
        w.close()


if __name__ == '__main__':
    main(run_case)
