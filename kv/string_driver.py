"""Renders strings in several places of a template with the real Kajiki."""
from __future__ import print_function, unicode_literals
from xml.sax.saxutils import escape

from driver import main
from kajiki import TextTemplate, XMLTemplate


class X(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s
    __repr__ = __str__

    @property
    def x(self):
        return self


# how the string is written, what surrounds it in the output
def source(place, s):
    if place == 'text':
        return '<a>[' + escape(s).replace('\r', '&#13;') + ']</a>', '<a>[', ']</a>'
    if place == 'attribute':
        s = escape(s, {'"': '&quot;', '\n': '&#10;', '\t': '&#9;'})
        return '<a b="[' + s + ']"/>', '<a b="[', ']"/>'
    if place == 'cdata':
        return '<a><![CDATA[[' + s + ']]]></a>', '<a><![CDATA[[', ']]]></a>'
    if place == 'script':
        return '<script>[' + escape(s) + ']</script>', '<script>/*<![CDATA[*/[', ']/*]]>*/</script>'
    if place == 'whole':
        return s, '', ''
    return '[' + s + ']', '[', ']'


def run_case(case):
    place = case['place']
    src, before, after = source(place, case['s'])
    try:
        if place in ('plain', 'escaped', 'whole'):
            t = TextTemplate(src, autoescape=place == 'escaped')
        else:
            t = XMLTemplate(src)
        out = t({'x': X('V<'), 'X': X('W&'), 't': True, 'f': False, 'l': [1, 2], 'xx': X('xx'), 'x1': X('x1'),
                 'x_': X('x_'), '_x': X('_x'), 'x_x': X('x_x'), '_1': X('_1')}).render()
    except Exception as e:
        return {'k': 'err', 'type': type(e).__name__, 'msg': str(e)[:200]}
    if not out.startswith(before) or not out.endswith(after) or len(out) < len(before + after):
        return {'k': 'odd', 'out': out}
    return {'k': 'ok', 'out': out[len(before):len(out) - len(after)]}


if __name__ == '__main__':
    main(run_case)
