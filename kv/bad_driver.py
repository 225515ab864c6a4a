"""Compiles templates that may be malformed with the real Kajiki."""
from __future__ import print_function, unicode_literals
import io
import os
import shutil
import tempfile

from driver import main
from kajiki import FileLoader, TextTemplate, XMLTemplate


def run_case(case):
    name = case['name']
    tmp = None
    try:
        try:
            if case['how'] == 'file':
                tmp = tempfile.mkdtemp(prefix='kv')
                with io.open(os.path.join(tmp, name), 'w', encoding='utf-8', newline='') as f:
                    f.write(case['src'])
                FileLoader(tmp).load(name)
            elif case['how'] == 'text':
                TextTemplate(case['src'], filename=name)
            else:
                XMLTemplate(case['src'], filename=name)
            return {'k': 'ok'}
        except Exception as e:
            o = {'k': 'err', 'bases': [c.__name__ for c in type(e).__mro__], 'msg': str(e)[:600]}
            fn = getattr(e, 'filename', None)
            if tmp and fn and fn.startswith(tmp + os.sep):
                fn = fn[len(tmp) + 1:]
                o['msg'] = o['msg'].replace(tmp + os.sep, '')
            o['file'], o['line'] = fn, getattr(e, 'linenum', None)
            return o
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main(run_case)
