"""Extracts the messages of templates with the real Kajiki."""
from __future__ import print_function, unicode_literals
import io

from driver import main
from kajiki import i18n


def run_case(case):
    try:
        ext = list(i18n.extract(io.BytesIO(case['src'].encode('utf-8')), ['_', 'gettext'], [], case['options']))
        return {'k': 'ok', 'ext': [{'l': e[0], 'm': e[2] if not isinstance(e[2], tuple) else e[2][0]} for e in ext]}
    except Exception as e:
        return {'k': 'err', 'type': type(e).__name__, 'msg': str(e)[:300]}


if __name__ == '__main__':
    main(run_case)
