"""What each check runs.  See DESIGN.md."""
from . import families as fam
from . import bad, dollar, extract, loaders, sessions, textscan, threads


def C01(c):
    c.family('GenEscape')
    c.family('GenStrings', 1)
    c.random('values anywhere', lambda r: fam.single(
        r, dict(expr=8, cdata=1, replace=1, script=.4), special=.6, html=.3, content=.3, attrs=.1, dirs=.1),
        c.n(800, 12000))
    c.random('text templates', lambda r: fam.single(
        r, dict(expr=8), kind='text', special=.6, html=.3), c.n(300, 5000))


def C02(c):
    c.family('GenAttr')
    c.family('GenPyAttrs', 1)
    c.random('attributes anywhere', lambda r: fam.single(
        r, dict(el=9, expr=2, text=2), attrs=.7, pyattrs=.4, flags=.4, special=.5, html=.3),
        c.n(600, 10000))
    c.random('functions in attributes', lambda r: fam.modular(r, 'mock', attrs=.7, attrcalls=.7), c.n(200, 3000))


def C03(c):
    c.family('GenShape')
    c.random('documents', lambda r: fam.single(
        r, dict(el=8, void=2, script=1, comment=1.5, cdata=1.5), strip=.2, attrs=.3, modes=['', 'xml']),
        c.n(400, 8000))
    c.random('well-formed documents', lambda r: fam.single(
        r, dict(el=8, void=2, script=.6, comment=1.5, cdata=1.5), strip=.2, attrs=.4, pyattrs=.3, special=.5, html=0, lits=0,
        modes=['', 'xml'], tplopts={'cdata_scripts': True}), c.n(600, 10000), module='XmlTrace')
    c.listed('output that is not XML', 'ill-formed-', fam.ill_formed(), module='XmlTrace')


def C04(c):
    c.family('GenShape')
    c.random('documents', lambda r: fam.single(
        r, dict(el=6, void=4, script=1, comment=1.5), strip=.2, attrs=.3, flags=.5, modes=['html', 'html5']),
        c.n(600, 10000))


def C05(c):
    c.family('GenFlow')
    w = dict(if_=5, for_=4, switch=4, combo=2, expr=2, el=1, comment=0, cdata=0, with_=.3)
    c.random('XML', lambda r: fam.single(r, w, attrs=.1, special=.1, elses=.7, depth=5), c.n(500, 8000))
    c.random('text', lambda r: fam.single(r, w, kind='text', special=.1, elses=.7, depth=5), c.n(500, 8000))


def C06(c):
    c.family('GenWith')
    w = dict(with_=6, for_=2, py=2, combo=2, expr=6, localdef=1, call=1, calldir=1)
    c.random('XML', lambda r: fam.single(r, w, attrs=.3, special=.1, shadow=.7, depth=5), c.n(800, 12000))
    c.listed('names of the context', 'with-context-', fam.with_context())


def C07(c):
    c.family('GenFun')
    w = dict(call=6, localdef=3, calldir=4, with_=1, expr=3, el=2)
    c.random('XML', lambda r: fam.single(r, w, special=.1, funs=r.choice([2, 3, 4]), depth=4), c.n(600, 10000))
    c.random('text', lambda r: fam.single(r, w, kind='text', special=.1, funs=r.choice([2, 3, 4]), depth=4),
             c.n(400, 6000))


def C08(c):
    c.family('GenInherit', 1)
    c.family('GenAuto', 3)
    c.random('chains', fam.inheritance, c.n(800, 12000))


def C09(c):
    c.family('GenModule', 1)
    c.family('GenModule', 1, via='file')
    c.random('modular', fam.modular, c.n(800, 12000))


def C10(c):
    loaders.run(c)


def C11(c):
    threads.run(c)


def C12(c):
    sessions.run(c, [
        ('single XML', lambda r: fam.single(r, dict(with_=3, switch=2, py=1))),
        ('single text', lambda r: fam.single(r, dict(switch=2, py=1), kind='text')),
        ('inheritance', fam.inheritance),
        ('modular', lambda r: fam.modular(r, 'mock'))])


def C13(c):
    c.family('GenText')
    c.validate('named entities', fam.entities(c.rng))
    c.random('long text', fam.long_text, c.n(16, 200))
    c.random('text anywhere', lambda r: fam.single(
        r, dict(text=9, dollar=2, comment=1, cdata=2, script=1), special=.5, edgews=.5, attrs=.3), c.n(600, 10000))
    c.random('text templates', lambda r: fam.single(
        r, dict(text=9, dollar=2), kind='text', special=.5, edgews=.5), c.n(300, 5000))


def C14(c):
    c.family('GenI18n', 1, log=True)
    w = dict(text=9, dollar=1, tr=1, cdata=1, comment=1, script=.5)
    some = lambda r: r.choice(['brk', 'brk', 'lazy', 'void', 'mk', 'id'])
    c.random('single', lambda r: fam.single(r, w, tr=some(r), edgews=.6), c.n(800, 8000), log=True)
    c.random('inheritance', lambda r: dict(fam.inheritance(r, 'xml'), tr=some(r)), c.n(120, 2000), log=True)
    c.random('modular', lambda r: dict(fam.modular(r), tr=some(r)), c.n(120, 2000), log=True)
    c.random('long text', fam.long_text, c.n(8, 100), log=True)
    extract.run(c, 'extraction', [fam.single(c.rng, w, tr='brk', edgews=.6) for _ in range(c.n(500, 8000))])


def C15(c):
    textscan.run(c)
    c.random('programs', lambda r: fam.single(
        r, dict(if_=2, for_=2, switch=2, py=1, call=1, localdef=1, calldir=1), kind='text', funs=r.choice([0, 1, 2]), edgews=.6), c.n(500, 8000))
    c.random('inheritance', lambda r: fam.inheritance(r, 'text'), c.n(150, 2500))


def C16(c):
    c.family('GenError', 3, loc=True)
    w = dict(err=1.2, text=4)
    for kind in ('xml', 'text'):
        c.random(kind, lambda r: fam.single(r, w, kind=kind, special=.1, edgews=.6), c.n(800, 10000), loc=True, bulky=.03)


def C17(c):
    c.family('GenDoctype')
    c.family('GenDoctype', 1, via='file', only=lambda r: all(
        t['mode'] == fam.EXTMODE[t['name'].split('.')[-1]] and t['frag'] == (i > 0 and r['c'][2] > 4)
        for i, t in enumerate(r['job']['tpls'])))
    w = dict(void=2, el=3, script=1)
    for label, make in [('single', lambda r: fam.single(r, w, flags=.5)), ('inheritance', lambda r: fam.inheritance(r, 'xml')),
                        ('modular', fam.modular)]:
        c.random(label, lambda r: fam.doctypes(r, make), c.n(300, 5000))


def C18(c):
    dollar.run(c)


def C19(c):
    c.family('GenLoader', 1, via='file')


def C20(c):
    c.family('GenCombo', c.n(3, 5), nest=.5)
    c.random('programs', lambda r: fam.single(
        r, dict(combo=6, if_=2, for_=2, with_=2, switch=1, replace=1, localdef=.5, call=1), dirs=.6, strip=.3, content=.3, pyattrs=.3,
        funs=r.choice([0, 1, 2])), c.n(500, 8000), nest=.5)


def C21(c):
    bad.run(c)


def C22(c):
    c.family('GenName', c.n(1, 3))
    w = dict(with_=2, for_=2, py=2, code=1, localdef=1, call=2, calldir=1, expr=8)
    for kind in ('xml', 'text'):
        c.random('names anywhere: ' + kind, lambda r: fam.single(
            r, w, kind=kind, special=.1, builtins=.5, undefined=.006, shadow=.5, lookups=.3), c.n(400, 6000))
    c.listed('names bound by a py:with that is over', 'with-undefined-', fam.with_undefined())


def C23(c):
    c.family('GenCode', c.n(1, 3))
    w = dict(code=5, py=2, expr=4, el=2, if_=1, for_=1, localdef=1, calldir=1, call=1)
    for kind in ('xml', 'text'):
        c.random('code anywhere: ' + kind, lambda r: fam.single(r, w, kind=kind, special=.3, funs=r.choice([1, 2])),
                 c.n(400, 6000))
