# -*- coding: utf-8 -*-
"""C15: QTI version 1 items migrated to version 2: response processing and feedback, content, mappings.

rules      small version 1 items, their response processing interpreted by a reference, against the migrated
           item - written, read again and run - for every response
content    every small arrangement of material, flows and references, in every place it can be: the runs of
           text, images, emphasis, language, class and the breaks between them
maps       areas, views, orientations, cardinalities, types"""
import itertools
import re
import StringIO
import dtdgen
import mclib

import pyslet.imsqtiv1p2p1 as v1
import pyslet.qtiv1.core as core1
import pyslet.imsqtiv2p1 as qtiv2
import pyslet.qtiv2.core as core2
import pyslet.qtiv2.variables as variables
import pyslet.html40_19991224 as html

NS2 = 'http://www.imsglobal.org/xsd/imsqti_v2p1'
ANY = dtdgen.DTD('')


def document(item):
    return u'<questestinterop>%s</questestinterop>' % item


class Failed(Exception):
    pass


def migrate(item, base=None):
    """(version 2 document read back from what was written, its text, the log), or None if the item uses
    something that is declared not to be implemented"""
    try:
        doc = v1.QTIDocument(baseURI=base) if base else v1.QTIDocument()
        doc.Read(src=StringIO.StringIO(document(item).encode('utf-8')))
        out = doc.root.MigrateV2()
    except mclib.StopExploring:
        raise
    except core1.QTIUnimplementedError:
        return None
    except:
        raise Failed('cannot be migrated: %s' % problem())
    try:
        new, lom, log = out[0]
        text = unicode(new)
        lom = unicode(lom)
    except mclib.StopExploring:
        raise
    except:
        raise Failed('cannot be written: %s' % problem())
    try:
        again = core2.QTIDocument()
        again.Read(src=StringIO.StringIO(text.encode('utf-8')))
    except mclib.StopExploring:
        raise
    except:
        raise Failed('cannot be read back: %s: %s' % (problem(), text))
    try:
        if blanks(dtdgen.canonical(unicode(again), ANY, NS2)) != blanks(dtdgen.canonical(text, ANY, NS2)):
            raise Failed('is %s but reads back as %s' % (text, unicode(again)))
    except mclib.StopExploring:
        raise
    except Failed:
        raise
    except:
        raise Failed('cannot be written again: %s' % problem())
    return again, text, log


def blanks(t):
    """a tree with the white space in its text collapsed"""
    out, last = [], u''
    for c in t[2] + [(None,)]:
        if isinstance(c, basestring):
            last += c
        else:
            if last.strip():
                out.append(' '.join(last.split()))
            last = u''
            if c != (None,):
                out.append(blanks(c))
    return t[0], t[1], out


def problem():
    import sys
    e = sys.exc_info()[1]
    return '%s: %s' % (e.__class__.__name__, mclib.short(unicode(e)) if not isinstance(e, Exception) else str(e)[:200])


def walk(tree):
    yield tree
    for c in tree[2]:
        if not isinstance(c, basestring):
            for x in walk(c):
                yield x


NCNAME = re.compile(u'^[A-Za-z_\u00c0-\u1fff][\\w.\\-\u00b7-\u1fff]*$')


def references(text):
    """what is wrong with the identifiers of a version 2 item"""
    tree = dtdgen.canonical(text, ANY, NS2)
    bad = []
    responses, outcomes = set(), set()
    for name, attrs, children in walk(tree):
        a = dict(attrs)
        for n in ('identifier', 'responseIdentifier', 'outcomeIdentifier'):
            if n in a and not NCNAME.match(a[n]):
                bad.append('%s %r' % (n, a[n]))
        if name in ('responseDeclaration', 'outcomeDeclaration'):
            if a['identifier'] in responses | outcomes:
                bad.append('%s is declared twice' % a['identifier'])
            (responses if name[0] == 'r' else outcomes).add(a['identifier'])
    used = set()
    for name, attrs, children in walk(tree):
        a = dict(attrs)
        if 'responseIdentifier' in a:
            if a['responseIdentifier'] not in responses:
                bad.append('response %s is not declared' % a['responseIdentifier'])
            if a['responseIdentifier'] in used:
                bad.append('response %s has two interactions' % a['responseIdentifier'])
            used.add(a['responseIdentifier'])
            ids = [dict(c[1]).get('identifier') for c in walk((name, attrs, children)) if c[0] in ('simpleChoice', 'hotspotChoice')]
            if len(set(ids)) < len(ids):
                bad.append('choices with the same identifier %r' % ids)
        if 'outcomeIdentifier' in a and a['outcomeIdentifier'] not in outcomes:
            bad.append('outcome %s is not declared' % a['outcomeIdentifier'])
        if name == 'setOutcomeValue' and a['identifier'] not in outcomes:
            bad.append('outcome %s is not declared' % a['identifier'])
        if name == 'variable' and a['identifier'] not in responses | outcomes:
            bad.append('variable %s is not declared' % a['identifier'])
    return bad


# ------------------------------------------------------------------ rules
def material(text):
    return u'<material><mattext>%s</mattext></material>' % text


def label(ident, text, rest=''):
    return u'<response_label ident="%s"%s>%s</response_label>' % (ident, rest, material(text))


def area(ident, kind, coords):
    return u'<response_label ident="%s" rarea="%s">%s</response_label>' % (ident, kind, coords)


class Response(object):
    """a response: its version 1 form, the responses a candidate can give as (version 1 value, how to give it)"""

    def __init__(self, name, kind, cardinality, xml, values, atoms, ident='R', slots=1):
        self.name, self.kind, self.cardinality, self.xml, self.values, self.atoms, self.ident, self.slots = name, kind, cardinality, xml, values, atoms, ident, slots


def var(test, ident, value, rest=''):
    return u'<%s respident="%s"%s>%s</%s>' % (test, ident, rest, value, test)


def known(fn):
    return lambda v: None if v is None else fn(v)


def has(x):
    return known(lambda v: x in v)


def idatoms(ident, values, many):
    out = []
    for x in values:
        out.append((var('varequal', ident, x, ' case="Yes"'), has(x) if many else known(lambda v, x=x: v == x)))
    out.append((var('varequal', ident, ' %s\n' % values[0], ''), has(values[0]) if many else known(lambda v: v == values[0])))
    return out


def numatoms(ident, x, text):
    return [(var(t, ident, text), known(f)) for t, f in (
        ('varequal', lambda v: v == x), ('varlt', lambda v: v < x), ('varlte', lambda v: v <= x), ('vargt', lambda v: v > x), ('vargte', lambda v: v >= x))]


def common_atoms(ident):
    return [(var('unanswered', ident, ''), lambda v: v is None), (u'<other/>', lambda v: True), (var('durlt', ident, 'PT5S'), None)]


UNIMPLEMENTED = ('<unanswered', '<varsubstring', '<varsubset', '<dur')


def subsets(xs):
    out = []
    for n in range(len(xs) + 1):
        out += itertools.combinations(xs, n)
    return [(tuple(s) or None) for s in out]


def responses():
    out = []
    render = u'<render_choice%s>%s</render_choice>'
    ab = label('A', 'alpha') + label('B', 'beta')
    for ident in ('R', '1 r:x'):
        out.append(Response('choice' + ident, 'identifier', 'Single', u'<response_lid ident="%s">%s</response_lid>' % (ident, render % ('', ab)),
                            [None, 'A', 'B'], idatoms(ident, ['A', 'B', 'Z'], False), ident))
    out.append(Response('odd labels', 'identifier', 'Single', u'<response_lid ident="R" rcardinality="Single">%s</response_lid>' % (
        render % ('', label('1', 'alpha') + label('b c', 'beta'))), [None, '1', 'b c'], idatoms('R', ['1', 'b c'], False)))
    for attrs, rest in (('', ''), (' maxnumber="2"', ''), (' maxnumber="3" minnumber="1" shuffle="Yes"', ' rshuffle="No"')):
        labels = ''.join(label(x, x, rest) for x in 'ABC')
        out.append(Response('choices' + attrs, 'identifier', 'Multiple', u'<response_lid ident="R" rcardinality="Multiple">%s</response_lid>' % (
            render % (attrs, labels)), subsets('ABC'), idatoms('R', ['A', 'C'], True)))
    fib = u'<render_fib%s>%s<response_label ident="L"/></render_fib>'
    for attrs in ('', ' rows="3" columns="20"', ' fibtype="String" maxchars="10"'):
        out.append(Response('text' + attrs, 'string', 'Single', u'<response_str ident="R">%s</response_str>' % (fib % (attrs, material('before'))),
                            [None, 'Ab', 'ab', 'b', 'xAby'],
                            [(var('varequal', 'R', 'Ab', ' case="Yes"'), known(lambda v: v == 'Ab')), (var('varequal', 'R', 'Ab'), known(lambda v: v.lower() == 'ab')),
                             (var('varsubstring', 'R', 'Ab', ' case="Yes"'), known(lambda v: 'Ab' in v)), (var('varsubstring', 'R', 'Ab'), known(lambda v: 'ab' in v.lower())),
                             (var('varlt', 'R', 'Ab'), None), (var('varsubset', 'R', 'Ab,b'), None)]))
    for kind, base, two in (('Integer', 'integer', '2'), ('Decimal', 'float', '2.0'), ('Scientific', 'float', '2.0e0')):
        conv = int if base == 'integer' else float
        out.append(Response('number' + kind, base, 'Single', u'<response_num ident="R" numtype="%s">%s</response_num>' % (kind, fib % (' fibtype="%s"' % kind, '')),
                            [None, conv(0), conv(2), conv(5), conv(-1)], numatoms('R', 2, two)))
    for start, step in ((None, None), (3, 2)):
        slider = u'<render_slider lowerbound="1" upperbound="9"%s%s orientation="Vertical"/>' % ('' if start is None else ' startval="%i"' % start, '' if step is None else ' step="%i"' % step)
        out.append(Response('slider%r' % start, 'integer', 'Single', u'<response_num ident="R" numtype="Integer">%s%s</response_num>' % (material('slide'), slider),
                            [None if start is None else start, 1, 2, 9], numatoms('R', 2, '2')))
    image = u'<material><matimage uri="x.png" width="100" height="80"/></material>'
    hot = u'<render_hotspot%s>%s</render_hotspot>'
    spots = area('A', 'Rectangle', '10,10,20,30') + area('B', 'Ellipse', '50 50 20 20')
    for attrs, card, values in (('', 'Single', [None, 'A', 'B']), (' maxnumber="2"', 'Multiple', subsets('AB'))):
        out.append(Response('hotspot' + card, 'identifier', card, u'<response_lid ident="R" rcardinality="%s">%s%s</response_lid>' % (card, image, hot % (attrs, spots)),
                            values, idatoms('R', ['A', 'B'], card == 'Multiple')))
    rect = lambda p: 10 <= p[0] < 40 and 10 <= p[1] < 30
    circle = lambda p: (p[0] - 50) ** 2 + (p[1] - 50) ** 2 <= 100
    points = [None, (10, 10), (9, 10), (38, 28), (40, 28), (38, 30), (20, 27), (28, 38), (50, 50), (60, 50), (61, 50), (50, 40), (57, 57), (58, 58)]
    pointatoms = lambda many: [(var('varinside', 'R', '10,10,20,30', ' areatype="Rectangle"'), known(rect)), (var('varinside', 'R', '50, 50 20,20', ' areatype="Ellipse"'), known(circle))]
    out.append(Response('point', 'point', 'Single', u'<response_xy ident="R">%s%s</response_xy>' % (image, hot % ('', area('A', 'Rectangle', '10,10,20,30'))), points, pointatoms(False)))
    for card in ('Multiple', 'Ordered'):
        two = u'<response_str ident="R" rcardinality="%s"><render_fib><response_label ident="L"/>%s<response_label ident="M"/></render_fib></response_str>' % (card, material('and'))
        values = [None] + [(a, b) for a in (None, 'x', 'y') for b in (None, 'x', 'y') if a or b]
        if card == 'Multiple':
            atoms = [(var('varequal', 'R', 'x', ' case="Yes"'), has('x')), (var('varequal', 'R', 'y', ' case="Yes"'), has('y'))]
        else:
            given = lambda v, i: ([x for x in v if x is not None] + [None, None])[i]
            atoms = [(var('varequal', 'R', x, ' case="Yes" index="%i"' % (i + 1)), known(lambda v, i=i, x=x: None if given(v, i) is None else given(v, i) == x))
                     for i in (0, 1) for x in 'xy']
            atoms.append((var('varequal', 'R', 'x', ' case="Yes"'), has('x')))
        out.append(Response('texts' + card, 'string', card, two, values, atoms, slots=2))
    for kind, text in (('lid', u'<response_lid ident="R" rcardinality="Ordered">%s</response_lid>' % (render % ('', ab))),
                       ('grp', u'<response_grp ident="R">%s</response_grp>' % (render % ('', ab))),
                       ('str choice', u'<response_str ident="R">%s</response_str>' % (render % ('', ab))),
                       ('xy fib', u'<response_xy ident="R">%s</response_xy>' % (fib % ('', ''))),
                       ('ext', u'<response_lid ident="R"><render_extension><x/></render_extension></response_lid>'),
                       ('xy slider', u'<response_xy ident="R"><render_slider lowerbound="1" upperbound="9"/></response_xy>'),
                       ('lid fib', u'<response_lid ident="R">%s</response_lid>' % (fib % ('', '')))):
        out.append(Response('unimplemented ' + kind, 'identifier', 'Single', text, [None], [(var('varequal', 'R', 'A'), None)]))
    return out


def not3(x):
    return None if x is None else not x


def and3(xs):
    return False if False in xs else None if None in xs else True


def or3(xs):
    return True if True in xs else None if None in xs else False


def trees(atoms, thorough):
    """conditions: (xml, function of the response), function None if it may be unimplemented"""
    for x, f in atoms:
        yield x, f
        yield u'<not>%s</not>' % x, f and (lambda v, f=f: not3(f(v)))
    pairs = list(itertools.product(atoms, atoms)) if thorough else [(atoms[i], atoms[j]) for i in range(len(atoms)) for j in (0, (i + 1) % len(atoms))]
    for (x, f), (y, g) in pairs:
        ok = f and g
        yield u'<and>%s%s</and>' % (x, y), ok and (lambda v, f=f, g=g: and3([f(v), g(v)]))
        yield u'<or>%s%s</or>' % (x, y), ok and (lambda v, f=f, g=g: or3([f(v), g(v)]))
        yield x + y, ok and (lambda v, f=f, g=g: and3([f(v), g(v)]))
        yield u'<not><or>%s%s</or></not>' % (x, y), ok and (lambda v, f=f, g=g: not3(or3([f(v), g(v)])))
        if thorough:
            yield u'<or><and>%s%s</and><not>%s</not></or>' % (x, y, y), ok and (lambda v, f=f, g=g: or3([and3([f(v), g(v)]), not3(g(v))]))


FEEDBACK = u'<itemfeedback ident="F1">%s</itemfeedback><itemfeedback ident="2 f" view="Candidate" title="t">%s</itemfeedback>' % (material('first'), material('second'))
FEEDBACKS = {'F1': 'first', '2 f': 'second'}


def action(a):
    if a[0] == 'feedback':
        return u'<displayfeedback feedbacktype="Response" linkrefid="%s"/>' % a[1]
    return u'<setvar%s%s>%s</setvar>' % ('' if a[2] is None else ' varname="%s"' % a[2], '' if a[0] is None else ' action="%s"' % a[0], a[1])


def program(rules):
    return u''.join(u'<respcondition%s><conditionvar>%s</conditionvar>%s</respcondition>' % (
        '' if cont is None else ' continue="%s"' % ('Yes' if cont else 'No'), cond, ''.join(action(a) for a in sorted(actions, key=lambda a: a[0] == 'feedback')))
        for cond, test, cont, actions in rules)


def reference(rules, value, score, integer):
    """(score, feedback) the rules of version 1 give"""
    shown = set()
    for cond, test, cont, actions in rules:
        if test(value) is True:
            for a in sorted(actions, key=lambda a: a[0] == 'feedback'):
                if a[0] == 'feedback':
                    shown.add(FEEDBACKS[a[1]])
                    continue
                x = float(a[1])
                if a[0] in (None, 'Set'):
                    score = x
                elif a[0] == 'Add':
                    score += x
                elif a[0] == 'Subtract':
                    score -= x
                elif a[0] == 'Multiply':
                    score *= x
                elif x == 0:
                    score = None
                    return score, shown
                else:
                    score /= x
            if not cont:
                break
    return score, shown


def session(doc):
    """a session of the item in which nothing is drawn (most interactions have no rendering)"""
    doc.root.RenderHTML = lambda *args: None
    state = variables.ItemSessionState(doc.root)
    state.BeginSession()
    state.BeginAttempt(None)
    return state


def respond(state, r, value, n=None):
    """gives the response to the migrated item"""
    item = state.item
    if r.slots == 1:
        d = [d for d in item.ResponseDeclaration][0]
        v = state.map[d.identifier]
        if value is None:
            v.SetValue(None)
        elif r.kind == 'identifier' and r.cardinality == 'Multiple':
            v.SetValue([core2.ValidateIdentifier(x) for x in value])
        elif r.kind == 'identifier':
            v.SetValue(core2.ValidateIdentifier(value))
        elif r.cardinality == 'Single':
            v.SetValue(value)
        else:
            v.SetValue(list(value))
    else:
        ds = sorted(d.identifier for d in item.ResponseDeclaration)
        for name, x in zip(ds, value or (None, None)):
            v = state.map[name]
            if isinstance(v, variables.SingleValue):
                v.SetValue(x)
            else:
                v.SetValue(None if x is None else [x])


def feedback(state):
    """the text of the feedback shown at the end of an attempt"""
    out = set()
    shown = state.map['FEEDBACK'] if 'FEEDBACK' in state.map else None
    values = shown.value if shown is not None and shown.value else {}
    tree = dtdgen.canonical(unicode(state.item.GetDocument()), ANY, NS2)
    for name, attrs, children in walk(tree):
        a = dict(attrs)
        if name == 'modalFeedback' and a['outcomeIdentifier'] == 'FEEDBACK' and (a['identifier'] in values) == (a['showHide'] == 'show'):
            out.add(' '.join(''.join(c for x in walk((name, attrs, children)) for c in x[2] if isinstance(c, basestring)).split()))
    return out


def item(r, rules, decvar, feedbacks=True):
    return u'<item ident="I"><presentation>%s</presentation><resprocessing><outcomes>%s</outcomes>%s</resprocessing>%s</item>' % (
        r.xml, decvar, program(rules), FEEDBACK if feedbacks else '')


def rulecase(ctx, r, rules, decvar, integer=True, start=0, feedbacks=True, key=None, implemented=True, identifier='SCORE'):
    xml = item(r, rules, decvar, feedbacks)
    ctx.case({'part': 'rules', 'item': xml})
    key = 'rules|%s|%s|%s' % (r.name, key or '', xml)
    ctx.transitions += 1
    try:
        m = migrate(xml)
    except Failed, e:
        ctx.violation(key, '%s %s' % (xml, e))
        return
    ctx.outcome((r.name, m is None))
    may = [rule for rule in rules if rule[1] is None] or r.name.startswith('unimplemented') or not implemented
    if m is None:
        ctx.check(may or [x for x in UNIMPLEMENTED if x in xml], key, '%s is not implemented' % xml)
        return
    doc, text, log = m
    bad = references(text)
    if not ctx.check(not bad, key, '%s: %s: %s' % (xml, '; '.join(bad), text)):
        return
    if may:
        # what is migrated with no reference to compare it with must at least say so
        return
    for value in r.values:
        ctx.transitions += 1
        expect, shown = reference(rules, value, start, integer)
        try:
            state = session(doc)
            respond(state, r, value)
            state.EndAttempt()
            got = state.map[identifier].value if identifier in state.map else None
            seen = feedback(state)
        except mclib.StopExploring:
            raise
        except:
            ctx.violation(key + '|%r' % (value,), '%s: response %r fails after migration: %s: %s' % (xml, value, problem(), text))
            continue
        same = got == expect
        if not same and integer and expect is not None and got is not None:
            same = expect != int(expect) and abs(got - expect) < 1
        ctx.check(same, key + '|%r' % (value,), '%s: response %r scores %r, not %r, after migration: %s' % (xml, value, got, expect, text))
        ctx.check(seen == shown, key + '|%r' % (value,), '%s: response %r gives feedback %r, not %r: %s' % (xml, value, sorted(seen), sorted(shown), text))
        ctx.state((xml, repr(value)))


DECVAR = u'<decvar varname="SCORE" vartype="Integer" defaultval="0"/>'


def rules(ctx):
    rs = responses()
    ctx.bounds['kinds of response'] = len(rs)
    for r in rs:
        for cond, test in trees(r.atoms + common_atoms(r.ident), ctx.thorough):
            if not ctx.mine():
                continue
            rulecase(ctx, r, [(cond, test, None, [('Set', '1', 'SCORE'), ('feedback', 'F1')])], DECVAR)
    # sequences of conditions
    for r in [r for r in rs if r.name in ('choiceR', 'textsMultiple') or ctx.thorough and r.name in ('choices', 'numberInteger')]:
        conds = r.atoms[:2] + [(u'<other/>', lambda v: True)]
        acts = [[('Add', '1', 'SCORE')], [('Set', '2', None)], [('Multiply', '3', 'SCORE'), ('feedback', '2 f')], [('feedback', 'F1')], []]
        steps = [(c, t, cont, a) for c, t in conds for cont in (None, True, False) for a in acts]
        for p in itertools.product(steps, steps):
            if not ctx.thorough and (p[0][2] is None or p[1][2] is False):
                continue
            if not ctx.mine():
                continue
            rulecase(ctx, r, list(p), DECVAR, key='two')
        for n in (3, 4) if ctx.thorough else (3,):
            for shape in itertools.product([(c, t, cont) for c, t in conds for cont in (True, False)], repeat=n):
                if n == 4 and len(set(s[0] for s in shape)) < 2 or not ctx.mine():
                    continue
                rulecase(ctx, r, [(c, t, cont, [('Add', str(10 ** i), 'SCORE')] + ([('feedback', 'F1')] if i == 1 else [('feedback', '2 f')] if i == 2 else []))
                                  for i, (c, t, cont) in enumerate(shape)], DECVAR, key='many')
    # outcomes
    r = rs[0]
    for kind, integer in (('Integer', True), ('Decimal', False), ('Scientific', False), (None, True)):
        for name, ident in (('SCORE', 'SCORE'), (None, 'SCORE'), ('my score', 'my_score'), ('1', '_1')):
            for default in (None, '0', '4'):
                decvar = u'<decvar%s%s%s/>' % ('' if name is None else ' varname="%s"' % name, '' if kind is None else ' vartype="%s"' % kind, '' if default is None else ' defaultval="%s"' % default)
                for limits in ('', ' minvalue="0" maxvalue="5" cutvalue="2"'):
                    for a in (None, 'Set', 'Add', 'Subtract', 'Multiply', 'Divide'):
                        for amount in ('1', '2', '-3', '0') if integer else ('1', '2', '0.5', '-3', '0'):
                            if not ctx.mine():
                                continue
                            rulecase(ctx, r, [(r.atoms[0][0], r.atoms[0][1], False, [(a, amount, name)])], decvar.replace('/>', limits + '/>'), integer,
                                     int(default or 0), True, 'outcome', True, ident)
    for decvar, value, expect in ((u'<decvar varname="S" vartype="String" defaultval="none"/>', 'abc', ('none', 'abc')), (u'<decvar varname="S" vartype="Boolean" defaultval="false"/>', 'true', (False, True)),
                                  (u'<decvar varname="S" vartype="Enumerated" members="a,b" defaultval="a"/>', 'b', ('a', 'b')), (u'<decvar varname="S" vartype="Set"/>', 'b', (None, 'b')),
                                  (u'<decvar varname="S" vartype="String"/><interpretvar varname="S"><material><mattext>what it means</mattext></material></interpretvar>', 'abc', (None, 'abc')),
                                  (u'<decvar varname="S" vartype="String"/><interpretvar varname="S"><material><mattext>what</mattext></material></interpretvar>'
                                   u'<interpretvar varname="S" view="Tutor"><material><mattext>it means</mattext></material></interpretvar>', 'abc', (None, 'abc'))):
        if not ctx.mine():
            continue
        xml = item(r, [(r.atoms[0][0], r.atoms[0][1], False, [('Set', value, 'S')])], decvar)
        key = 'rules|typed|%s' % xml
        ctx.case({'part': 'rules', 'item': xml})
        try:
            doc, text, log = migrate(xml)
            got = []
            for v in (None, 'A'):
                state = session(doc)
                respond(state, r, v)
                state.EndAttempt()
                got.append(state.map['S'].value)
            ctx.check(tuple(got) == expect, key, '%s gives %r, not %r' % (xml, got, expect))
            ctx.check(not references(text), key, '%s: %s' % (xml, references(text)))
            if 'interpretvar' in xml:
                words = [dict(n[1]).get('interpretation', '') for n in walk(dtdgen.canonical(text, ANY, NS2)) if n[0] == 'outcomeDeclaration' and dict(n[1])['identifier'] == 'S']
                ctx.check(' '.join(words[0].replace(';', '').split()) in ('what it means',), key, '%s is interpreted as %r' % (xml, words))
        except mclib.StopExploring:
            raise
        except Failed, e:
            ctx.violation(key, '%s %s' % (xml, e))
        except:
            ctx.violation(key, '%s: %s' % (xml, problem()))
    # an outcome that is not declared, feedback that nothing shows, an interpretation of nothing
    for k, xml in enumerate((item(r, [(r.atoms[0][0], None, False, [('Set', '1', 'X')])], DECVAR), item(r, [(r.atoms[0][0], None, False, [])], DECVAR),
                             item(r, [], DECVAR), item(r, [], DECVAR + u'<interpretvar varname="X">%s</interpretvar>' % material('m')),
                             item(rs[0], [], DECVAR).replace('<resprocessing>', '<resprocessing><outcomes/></resprocessing><resprocessing>'),
                             u'<item ident="I"/>', u'<item ident="1 2"><itemfeedback ident="F"><hint>%s</hint><solution feedbackstyle="Complete">%s</solution></itemfeedback></item>' % (
                                 u'<hintmaterial>%s</hintmaterial>' % material('h'), u'<solutionmaterial>%s</solutionmaterial>' % material('s')),
                             item(rs[0], [], DECVAR).replace('</resprocessing>', '<itemproc_extension><humanraterdata><material><mattext>marks</mattext></material></humanraterdata></itemproc_extension></resprocessing>'))):
        if not ctx.mine():
            continue
        ctx.case({'part': 'rules', 'item': xml})
        try:
            m = migrate(xml)
            if m:
                bad = references(m[1])
                ctx.check(not bad, 'rules|declared|%i' % k, '%s: %s: %s' % (xml, '; '.join(bad), m[1]))
        except Failed, e:
            ctx.violation('rules|declared|%i' % k, '%s %s' % (xml, e))


# ------------------------------------------------------------------ content
INLINE = ('em', 'i', 'span', 'img', 'object', 'br', 'textEntryInteraction')
INTERACTIONS = ('textEntryInteraction', 'extendedTextInteraction')
THINGS = 'TLEIBRHP'
BREAKS = ('none', 'may', 'must')


class Builder(object):
    """builds version 1 content and what is to be seen of it: words with their emphasis, language and class, and
    whether there is to be a line break before each"""

    def __init__(self, lang=None):
        self.n, self.tokens, self.pending, self.refs, self.places = 0, [], 0, [], []
        self.langs, self.classes = [lang], []

    def word(self, marks=(), lang=None, break_=None):
        self.n += 1
        w = 'w%i.' % self.n
        self.emit(w, marks, lang)
        return w

    def emit(self, w, marks=(), lang=None):
        self.tokens.append((w, tuple(sorted(marks)), lang or ([None] + [x for x in self.langs if x])[-1] if w[0] == 'w' else None,
                            tuple(self.classes) if w[0] != '#' else (), BREAKS[self.pending], self.places[-1] if self.places else ''))
        self.pending = 0

    def atleast(self, n):
        self.pending = max(self.pending, n)

    def thing(self, k):
        if k == 'T':
            return u'<mattext>%s</mattext>' % self.word()
        if k == 'L':
            return u'<mattext xml:lang="fr">%s</mattext>' % self.word((), 'fr')
        if k == 'E':
            return u'<matemtext>%s</matemtext>' % self.word(('em',))
        if k == 'I':
            self.n += 1
            self.emit('#w%i.png' % self.n)
            return u'<matimage imagtype="image/png" uri="http://www.example.com/w%i.png"/>' % self.n
        if k == 'B':
            self.atleast(2)
            return u'<matbreak/>'
        if k == 'R':
            saved = self.langs
            self.langs = self.langs[:1]
            self.refs.append(u'<mattext label="X%i">%s</mattext>' % (self.n, self.word()))
            self.langs = saved
            return u'<matref linkrefid="X%i"/>' % (self.n - 1)
        if k == 'H':
            a = self.word()
            return u'<mattext texttype="text/html"><![CDATA[%s <i>%s</i>]]></mattext>' % (a, self.word(('i',)))
        if k == 'P':
            self.atleast(2)
            out = u'<mattext texttype="text/html"><![CDATA[<p>%s</p>' % self.word()
            self.atleast(2)
            out += u'<p>%s</p>]]></mattext>' % self.word()
            self.atleast(2)
            return out

    def material(self, things, lang=None):
        self.atleast(1)
        self.langs.append(lang)
        out = u'<material%s>%s</material>' % ('' if lang is None else ' xml:lang="%s"' % lang, u''.join([self.thing(k) for k in things]))
        self.langs.pop()
        self.atleast(1)
        return out

    def reference(self, things):
        """a reference to some material"""
        saved, self.langs = self.langs, self.langs[:1]
        m = self.material(things)
        self.langs = saved
        self.refs.append(m.replace(u'<material', u'<material label="M%i"' % self.n, 1))
        return u'<material_ref linkrefid="M%i"/>' % self.n

    def block(self, fn, classname=None):
        self.atleast(2)
        if classname:
            self.classes.append(classname)
        out = fn()
        if classname:
            self.classes.pop()
        self.atleast(2)
        return out

    def shape(self, s, things, flow, lang=None):
        """M material, r reference, f( ... ) flow, c( ... ) flow with a class"""
        out, i = u'', 0
        while i < len(s):
            if s[i] == 'M':
                out += self.material(things, lang)
            elif s[i] == 'r':
                out += self.reference(things)
            else:
                depth, j = 1, i + 2
                while depth:
                    depth += {'(': 1, ')': -1}.get(s[j], 0)
                    j += 1
                name = 'k%i' % (len(self.classes) + 1) if s[i] == 'c' else None
                inner = s[i + 2:j - 1]
                out += u'<%s%s>%s</%s>' % (flow, ' class="%s"' % name if name else '', self.block(lambda: self.shape(inner, things, flow, lang), name), flow)
                i = j - 1
            i += 1
        return out


SHAPES = ('M', 'MM', 'f(M)', 'c(M)', 'f(MM)', 'f(r)', 'f(M)M', 'Mf(M)', 'f(M)f(M)', 'c(M)c(M)', 'f(M)c(M)', 'c(M)M', 'Mc(M)', 'f(f(M))', 'c(f(M))', 'f(c(M))', 'c(c(M))',
          'f(Mf(M))', 'f(f(M)M)', 'c(Mf(M))', 'c(f(M)M)', 'f(f(M)f(M))', 'c(f(M)f(M))M', 'f(Mr)', 'f(rM)', 'Mf(M)M', 'f(M)Mf(M)')


def places(thorough):
    """(name, the element, the flow, may it hold a flow, make the item)"""
    yield 'itemBody', 'flow', lambda b, fn: u'<presentation>%s</presentation>' % fn()
    yield 'rubricBlock', 'flow_mat', lambda b, fn: u'<objectives view="Candidate">%s</objectives>' % fn()
    yield 'rubricBlock', 'flow_mat', lambda b, fn: u'<rubric view="Scorer">%s</rubric>' % fn()
    yield 'itemBody', 'flow_mat', lambda b, fn: u'<rubric>%s</rubric>' % fn()
    yield 'modalFeedback', 'flow_mat', lambda b, fn: u'<itemfeedback ident="F">%s</itemfeedback>' % fn()
    yield 'modalFeedback', 'flow_mat', lambda b, fn: u'<itemfeedback ident="F"><hint><hintmaterial>%s</hintmaterial></hint></itemfeedback>' % fn()
    yield 'modalFeedback', 'flow_mat', lambda b, fn: u'<itemfeedback ident="F"><solution><solutionmaterial>%s</solutionmaterial></solution></itemfeedback>' % fn()
    yield 'simpleChoice', 'flow_mat', lambda b, fn: u'<presentation><response_lid ident="R"><render_choice><response_label ident="A">%s</response_label></render_choice></response_lid></presentation>' % fn()
    yield 'itemBody', 'flow_mat', lambda b, fn: u'<presentation><response_lid ident="R">%s<render_choice><response_label ident="A"/></render_choice></response_lid></presentation>' % fn()
    yield 'itemBody', 'flow_mat', lambda b, fn: u'<presentation><response_str ident="R"><render_fib>%s<response_label ident="A"/></render_fib></response_str></presentation>' % fn()
    yield 'itemBody', 'flow_mat', lambda b, fn: u'<presentation><response_str ident="R">%s<render_fib><response_label ident="A"/></render_fib></response_str></presentation>' % fn()
    yield 'itemBody', 'flow_mat', lambda b, fn: u'<presentation><response_str ident="R">%s<render_fib rows="3"><material><matbreak/></material><response_label ident="A"/></render_fib></response_str></presentation>' % fn()
    yield 'itemBody', 'flow_mat', lambda b, fn: u'<presentation><response_num ident="R">%s<render_slider lowerbound="1" upperbound="3"/></response_num></presentation>' % fn()


def seen(text):
    """the words and so on of a version 2 item, as Builder gives them"""
    tree = dtdgen.canonical(text, ANY, NS2)
    out, state = [], [0]

    def visit(t, marks, lang, classes, path):
        name, attrs, children = t
        a = dict(attrs)
        if name.startswith('{') or name in ('value', 'outcomeDeclaration', 'responseDeclaration'):
            return
        lang = a.get('xml:lang', lang)
        if name in ('em', 'i'):
            marks = marks | frozenset([name])
        if name in ('div', 'span') and a.get('class', 'rubric') != 'rubric':
            classes = classes + (a['class'],)
        if name in INTERACTIONS:
            out.append(('@entry', (), None, classes, state[0], path + (name,)))
            state[0] = 0
        if name == 'img':
            out.append(('#' + a['src'].split('/')[-1], tuple(sorted(marks)), None, (), state[0], path + (name,)))
            state[0] = 0
        block = name not in INLINE
        if block or name == 'br':
            state[0] = 2
        for c in children:
            if isinstance(c, basestring):
                for w in re.findall(r'w\d+\.', c):
                    out.append((w, tuple(sorted(marks)), lang, classes, state[0], path + (name,)))
                    state[0] = 0
            else:
                visit(c, marks, lang, classes, path + (name,))
        if block:
            state[0] = 2
    visit(tree, frozenset(), None, (), ())
    return out


def contentcase(ctx, b, xml, key):
    if b.refs:
        xml = xml.replace(u'</item>', u'<reference>%s</reference></item>' % u''.join(b.refs))
    ctx.case({'part': 'content', 'item': xml})
    ctx.transitions += 1
    ctx.state(xml)
    try:
        m = migrate(xml)
    except Failed, e:
        ctx.violation(key, '%s %s' % (xml, e))
        return
    if not ctx.check(m is not None, key, '%s is not implemented' % xml):
        return
    text = m[1]
    got = seen(text)
    words = [x[0] for x in got]
    if not ctx.check(words == [x[0] for x in b.tokens], key, '%s has %r after migration, not %r: %s' % (xml, words, [x[0] for x in b.tokens], text)):
        return
    bad = []
    for x, y in zip(b.tokens, got):
        for i, what in ((1, 'emphasis'), (2, 'language'), (3, 'classes')):
            if x[i] != y[i]:
                bad.append('%s of %s is %r, not %r' % (what, x[0], y[i], x[i]))
        if x[4] == 'must' and x is not b.tokens[0] and not y[4]:
            bad.append('no break before %s' % x[0])
        if x[4] == 'none' and y[4] and x is not b.tokens[0]:
            bad.append('a break before %s' % x[0])
        if x[5] and x[5] not in y[5]:
            bad.append('%s is in %s' % (x[0], '/'.join(y[5])))
    ctx.outcome((len(got), tuple(sorted(set(x[5] for x in got)))))
    ctx.check(not bad, key, '%s: %s: %s' % (xml, '; '.join(bad), text))


def content(ctx):
    ps = list(places(ctx.thorough))
    n = 3 if ctx.thorough else 2
    ctx.bounds.update({'material': n, 'shapes': len(SHAPES), 'places': len(ps)})
    for i, (where, flow, make) in enumerate(ps):
        direct = 'response_' in make(None, lambda: '')
        for size in range(1, n + 1):
            for things in itertools.product(THINGS, repeat=size):
                for lang in (None, 'de'):
                    for itemlang in (None, 'en', 'de') if ctx.thorough or size == 1 else ('en',):
                        if set(things) <= set('B') or not ctx.mine():
                            continue
                        b = Builder(itemlang)
                        b.places.append(where)
                        xml = u'<item ident="I"%s>%s</item>' % ('' if itemlang is None else ' xml:lang="%s"' % itemlang, make(b, lambda: b.material(things, lang)))
                        if 'response_str' in xml:
                            b.emit('@entry')
                        contentcase(ctx, b, xml, 'content|%i|%s' % (i, xml))
        if direct and where != 'simpleChoice':
            continue
        for s in SHAPES:
            for things in ('T', 'E', 'P', 'H', 'I', 'TB', 'L', 'R', 'TP') if ctx.thorough else ('T', 'P', 'H', 'L'):
                for lang in (None, 'de'):
                    if not ctx.mine():
                        continue
                    b = Builder()
                    b.places.append(where)
                    xml = u'<item ident="I">%s</item>' % make(b, lambda: b.shape(s, things, flow, lang))
                    contentcase(ctx, b, xml, 'content|%i|%s' % (i, xml))
    # blanks in text
    for rows in ('', ' rows="3"'):
        for size in range(1, 5 if ctx.thorough else 4):
            for parts in itertools.product('MLFP' if ctx.thorough else 'MLF', repeat=size):
                for outer in ('', 'flow'):
                    labels = parts.count('L') + parts.count('F')
                    if not labels or rows and labels > 1 or not ctx.mine():
                        continue
                    b = Builder()
                    out, n = u'', 0
                    for p in parts:
                        if p in 'MP':
                            out += b.material('T' if p == 'M' else 'P')
                        else:
                            n += 1
                            x = u'<response_label ident="L%i"/>' % n
                            b.atleast(1)
                            b.emit('@entry')
                            out += x if p == 'L' else u'<flow_label>%s</flow_label>' % x
                            b.atleast(1)
                    xml = u'<response_str ident="R"%s><render_fib%s>%s</render_fib></response_str>' % (' rcardinality="Ordered"' if labels > 1 else '', rows, out)
                    xml = u'<item ident="I"><presentation>%s</presentation></item>' % (xml if not outer else u'<flow>%s</flow>' % xml)
                    contentcase(ctx, b, xml, 'content|fib|%s' % xml)
    # several responses and material
    for size in range(1, 4):
        for parts in itertools.product('MSCF' if not ctx.thorough else 'MSCFGP', repeat=size):
            if not ctx.mine():
                continue
            b = Builder()
            out = u''
            for k, p in enumerate(parts):
                if p in 'MP':
                    out += b.material('T' if p == 'M' else 'P')
                elif p == 'S':
                    b.atleast(1)
                    b.emit('@entry')
                    b.atleast(1)
                    out += u'<response_str ident="R%i"><render_fib><response_label ident="A"/></render_fib></response_str>' % k
                elif p == 'C':
                    b.atleast(2)
                    label = []
                    for x in 'AB':
                        label.append(u'<response_label ident="%s">%s</response_label>' % (x, b.material('T')))
                        b.atleast(2)
                    out += u'<response_lid ident="R%i"><render_choice>%s</render_choice></response_lid>' % (k, u''.join(label))
                elif p == 'F':
                    b.atleast(2)
                    out += u'<flow>%s' % b.material('T')
                    b.emit('@entry')
                    b.atleast(2)
                    out += u'<response_str ident="R%i"><render_fib><response_label ident="A"/></render_fib></response_str></flow>' % k
                else:
                    b.atleast(2)
                    b.classes.append('k')
                    out += u'<flow class="k">%s</flow>' % b.material('E')
                    b.classes.pop()
                    b.atleast(2)
            xml = u'<item ident="I"><presentation>%s</presentation></item>' % out
            contentcase(ctx, b, xml, 'content|responses|%s' % xml)
    # a hot spot and the image it is in
    for parts in itertools.product('MI', repeat=2):
        for prompt in ('I', 'TI', 'IT', 'P', ''):
            if not ctx.mine():
                continue
            imgs = parts.count('I') + prompt.count('I')
            if imgs != 1:
                continue
            b = Builder()
            out = u''
            image = u'<material><matimage imagtype="image/png" uri="http://www.example.com/i.png" width="10" height="20"/></material>'
            bits = []
            for k, p in enumerate(parts):
                if k == 1:
                    intro = u''
                    if prompt:
                        intro = u''.join(b.material(x) if x != 'I' else image for x in prompt)
                    b.atleast(2)
                    bits.append(u'<response_lid ident="R">%s<render_hotspot>%s</render_hotspot></response_lid>' % (
                        intro, u''.join(u'<response_label ident="%s" rarea="Rectangle">1,2,3,4%s</response_label>' % (x, u'<material><mattext>name%s</mattext></material>' % x) for x in 'AB')))
                bits.append(b.material('T') if p == 'M' else image)
            xml = u'<item ident="I"><presentation>%s</presentation></item>' % u''.join(bits)
            key = 'content|hotspot|%s' % xml
            ctx.case({'part': 'content', 'item': xml})
            try:
                m = migrate(xml)
            except Failed, e:
                ctx.violation(key, '%s %s' % (xml, e))
                continue
            if not ctx.check(m, key, '%s is not implemented' % xml):
                continue
            tree = list(walk(dtdgen.canonical(m[1], ANY, NS2)))
            objects = [dict(t[1]) for t in tree if t[0] == 'object']
            ctx.check([(o.get('data'), o.get('type'), o.get('width'), o.get('height')) for o in objects] == [('http://www.example.com/i.png', 'image/png', '10', '20')] and
                      not [t for t in tree if t[0] == 'img'], key, '%s: the images are %r, %r: %s' % (xml, objects, [t[1] for t in tree if t[0] == 'img'], m[1]))
            choices = [tuple(sorted(dict(t[1]).items())) for t in tree if t[0] == 'hotspotChoice']
            ctx.check(choices == [(('coords', '1,2,4,4'), ('hotspotLabel', 'name' + x), ('identifier', x), ('shape', 'rect')) for x in 'AB'], key, '%s: the choices are %r' % (xml, choices))
            ctx.check([x[0] for x in seen(m[1])] == [x[0] for x in b.tokens], key, '%s: the words are %r: %s' % (xml, seen(m[1]), m[1]))


# ------------------------------------------------------------------ maps
VIEWS = {'Administrator': ['proctor'], 'AdminAuthority': ['proctor'], 'Assessor': ['scorer'], 'Author': ['author'], 'Candidate': ['candidate'], 'InvigilatorProctor': ['proctor'],
         'Psychometrician': ['testConstructor'], 'Scorer': ['scorer'], 'Tutor': ['tutor']}


def maps(ctx):
    for view in VIEWS:
        for name in ('objectives', 'rubric', 'itemrubric'):
            for written in (view, view.lower()):
                if not ctx.mine():
                    continue
                xml = u'<item ident="I"><%s view="%s">%s</%s></item>' % (name, written, material('m'), name)
                ctx.case({'part': 'maps', 'item': xml})
                key = 'maps|view|%s' % xml
                try:
                    m = migrate(xml)
                    got = [dict(t[1]).get('view', '').split() for t in walk(dtdgen.canonical(m[1], ANY, NS2)) if t[0] == 'rubricBlock']
                    ctx.check(got == [VIEWS[view]], key, '%s is for %r' % (xml, got))
                except Failed, e:
                    ctx.violation(key, '%s %s' % (xml, e))
    sep = (',', ' ', ', ', ' , ', '\n')
    for area_, count in (('Rectangle', 4), ('Ellipse', 4), ('Ellipse', 3), ('Bounded', 6), ('Bounded', 8)):
        for numbers in itertools.product((0, 5, 20), repeat=min(count, 4)):
            numbers = (numbers + (7, 30, 9, 0))[:count]
            for s in sep:
                if min(numbers[2:4]) == 0 or not ctx.mine():
                    continue
                value = s.join(str(n) for n in numbers)
                if area_ == 'Rectangle':
                    x, y, h, w = numbers
                    expect = ('rect', [x, y, x + w - 1, y + h - 1])
                elif area_ == 'Ellipse':
                    h, v = (numbers + numbers[-1:])[2:4]
                    expect = ('circle', [numbers[0], numbers[1], h // 2]) if h == v else ('ellipse', [numbers[0], numbers[1], h // 2, v // 2])
                else:
                    expect = ('poly', list(numbers))
                xml = u'<item ident="I"><presentation><material><matimage uri="x.png"/></material><response_lid ident="R"><render_hotspot>%s</render_hotspot></response_lid></presentation></item>' % area('A', area_, value)
                ctx.case({'part': 'maps', 'item': xml})
                key = 'maps|area|%s' % xml
                ctx.state(xml)
                try:
                    m = migrate(xml)
                    got = [(dict(t[1])['shape'], [int(n) for n in dict(t[1])['coords'].split(',')]) for t in walk(dtdgen.canonical(m[1], ANY, NS2)) if t[0] == 'hotspotChoice']
                    ctx.check(got == [expect], key, '%s is %r, not %r' % (xml, got, expect))
                except mclib.StopExploring:
                    raise
                except Failed, e:
                    ctx.violation(key, '%s %s' % (xml, e))
    for orientation in (None, 'Horizontal', 'Vertical'):
        for bounds in ((0, 10), (-5, 5)):
            for step in (None, 1, 2):
                for start in (None, 0, 4):
                    if not ctx.mine():
                        continue
                    xml = u'<item ident="I"><presentation><response_num ident="R" numtype="Integer"><render_slider lowerbound="%i" upperbound="%i"%s%s%s/></response_num></presentation></item>' % (
                        bounds + ('' if orientation is None else ' orientation="%s"' % orientation, '' if step is None else ' step="%i"' % step, '' if start is None else ' startval="%i"' % start))
                    ctx.case({'part': 'maps', 'item': xml})
                    key = 'maps|slider|%s' % xml
                    try:
                        m = migrate(xml)
                        tree = list(walk(dtdgen.canonical(m[1], ANY, NS2)))
                        got = [(float(a['lowerBound']), float(a['upperBound']), a.get('orientation'), a.get('step')) for a in [dict(t[1]) for t in tree if t[0] == 'sliderInteraction']]
                        default = [t[2][0] for t in tree if t[0] == 'value']
                        ctx.check(got == [(float(bounds[0]), float(bounds[1]), (orientation or 'Horizontal').lower(), None if step is None else str(step))], key, '%s is %r' % (xml, got))
                        ctx.check(default == ([] if start is None else [str(start)]), key, '%s has default %r' % (xml, default))
                    except Failed, e:
                        ctx.violation(key, '%s %s' % (xml, e))
    for shuffle in (None, 'Yes', 'No'):
        for rshuffle in (None, 'Yes', 'No'):
            for card in ('Single', 'Multiple'):
                for most in (None, 1, 2):
                    for least in (None, 0, 1):
                        if not ctx.mine():
                            continue
                        xml = u'<item ident="I"><presentation><response_lid ident="R" rcardinality="%s"><render_choice%s%s%s>%s</render_choice></response_lid></presentation></item>' % (
                            card, '' if shuffle is None else ' shuffle="%s"' % shuffle, '' if most is None else ' maxnumber="%i"' % most, '' if least is None else ' minnumber="%i"' % least,
                            label('A', 'a', '' if rshuffle is None else ' rshuffle="%s"' % rshuffle) + label('B', 'b'))
                        ctx.case({'part': 'maps', 'item': xml})
                        key = 'maps|choice|%s' % xml
                        try:
                            m = migrate(xml)
                            tree = list(walk(dtdgen.canonical(m[1], ANY, NS2)))
                            a = [dict(t[1]) for t in tree if t[0] == 'choiceInteraction'][0]
                            fixed = [dict(t[1]).get('fixed', 'false') for t in tree if t[0] == 'simpleChoice']
                            d = [dict(t[1]) for t in tree if t[0] == 'responseDeclaration'][0]
                            got = (a.get('shuffle', 'false'), a.get('maxChoices', '1'), a.get('minChoices', '0'), d['cardinality'], d['baseType'])
                            expect = ('true' if shuffle == 'Yes' else 'false', str(most if most is not None else 1 if card == 'Single' else 0), str(least or 0), card.lower(), 'identifier')
                            ctx.check(got == expect, key, '%s is %r, not %r' % (xml, got, expect))
                            ctx.check(shuffle != 'Yes' or fixed == ['true' if rshuffle == 'No' else 'false', 'false'], key, '%s fixes %r' % (xml, fixed))
                        except Failed, e:
                            ctx.violation(key, '%s %s' % (xml, e))


def explore(ctx):
    import os
    p = os.environ.get('C15_PARTS', 'rcm')
    if 'r' in p:
        rules(ctx)
    if 'c' in p:
        content(ctx)
    if 'm' in p:
        maps(ctx)


def replay(ctx, case):
    ctx.case(case)
    if case['part'] == 'rules':
        xml = case['item']
        try:
            m = migrate(xml)
            print m and m[1]
        except Failed, e:
            ctx.violation('rules|replay', '%s %s' % (xml, e))
    explore(ctx)
