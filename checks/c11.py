# -*- coding: utf-8 -*-
"""C11: QTI v2 delivery: forms, item sessions, template and response processing, test sessions.

forms      every section structure (two levels, every combination of the flags) under every outcome of the
           random generator: the set of forms is exactly the set the selection and ordering rules permit
rules      every small response/template processing program against a reference interpreter
sessions   every history of attempts, saves and submissions of an item, good and bad parameters
tests      every placement of pre-conditions and branch rules in a small test, every sequence of answers,
           under a clock under control: questions asked, variables, durations and session keys"""
import itertools
import StringIO
import mclib
from c10 import CH, control_random, canon

control_random()

import pyslet.imsqtiv2p1
import pyslet.html40_19991224 as html
import pyslet.qtiv2.core as core
import pyslet.qtiv2.variables as v2
import pyslet.qtiv2.tests as tests
import pyslet.qtiv2.items as items

NS = 'xmlns="http://www.imsglobal.org/xsd/imsqti_v2p1"'


def read(text):
    doc = core.QTIDocument()
    doc.Read(src=StringIO.StringIO(text.encode('utf-8')))
    return doc


def flag(name, v):
    return '' if v is None else ' %s="%s"' % (name, 'true' if v else 'false')


def failure(err):
    return ('failed', type(err).__name__, str(err)[:120])


# ------------------------------------------------------------------ forms
# a part of a section: ('i', id, required, fixed) or ('s', id, required, fixed, visible, keepTogether, select, replace, shuffle, parts)
def partxml(p):
    if p[0] == 'i':
        return '<assessmentItemRef identifier="%s" href="%s.xml"%s%s/>' % (p[1], p[1], flag('required', p[2]), flag('fixed', p[3]))
    kind, name, required, fixed, visible, keep, select, replace, shuffle, parts = p
    return '<assessmentSection identifier="%s" title="%s" visible="%s"%s%s%s>%s%s%s</assessmentSection>' % (
        name, name, 'true' if visible else 'false', flag('required', required), flag('fixed', fixed), flag('keepTogether', keep),
        '' if select is None else '<selection select="%i"%s/>' % (select, flag('withReplacement', replace)),
        '' if shuffle is None else '<ordering%s/>' % flag('shuffle', shuffle), ''.join(partxml(c) for c in parts))


TEST = u'<assessmentTest %s identifier="T" title="T">%s</assessmentTest>'


def formdoc(section):
    return read(TEST % (NS, '<testPart identifier="P" navigationMode="linear" submissionMode="individual">%s</testPart>' % partxml(section)))


class NoForm(Exception):
    pass


def selections(section):
    """every selection, as a sorted tuple of indexes"""
    kind, name, required, fixed, visible, keep, select, replace, shuffle, parts = section
    need = [i for i, c in enumerate(parts) if c[2]]
    n = len(parts) if select is None else select
    if len(need) > n:
        raise NoForm
    if not replace or select is None:
        if n > len(parts):
            raise NoForm
        return [t for t in itertools.combinations(range(len(parts)), n) if not [i for i in need if i not in t]]
    if not parts and n:
        raise NoForm
    return [t for t in itertools.combinations_with_replacement(range(len(parts)), n) if not [i for i in need if i not in t]]


def arrangements(units, nslots):
    """every way to put the units into the slots: at least one in each as far as they go"""
    out = set()
    for perm in set(itertools.permutations(units)):
        # cut the permutation into nslots runs
        for cuts in itertools.combinations_with_replacement(range(len(perm) + 1), nslots - 1):
            bounds = (0,) + cuts + (len(perm),)
            runs = [perm[bounds[i]:bounds[i + 1]] for i in range(nslots)]
            if len(perm) >= nslots and min(len(r) for r in runs) < 1:
                continue
            if len(perm) < nslots and max(len(r) for r in runs) > 1:
                continue
            out.add(tuple(runs))
    return out


def forms(section):
    """the set of possible contents of the section: tuples of identifiers, or 'ERR'"""
    out = set()
    try:
        sels = selections(section)
    except NoForm:
        return set(['ERR'])
    for sel in sels:
        for seq in arranged(section, sel, True):
            out.add(seq)
    return out


def mixed(section):
    """the units of a section whose parts are mixed with those of its parent: sets of tuples of parts"""
    out = set()
    try:
        sels = selections(section)
    except NoForm:
        return set(['ERR'])
    for sel in sels:
        alternatives = [((section[9][i],),) for i in sel]
        if section[8]:
            alternatives = [mixed(section[9][i]) if splits(section[9][i]) else [(section[9][i],)] for i in sel]
        else:
            alternatives = [[(section[9][i],)] for i in sel]
        for combo in itertools.product(*alternatives):
            if 'ERR' in combo:
                out.add('ERR')
                continue
            units = sum(combo, ())
            if [u for u in units if u[3]]:
                out.add('ERR')
            else:
                out.add(tuple(sorted(units, key=lambda u: u[1])))
    return out


def splits(part):
    """an invisible section that may be split when it is shuffled"""
    return part[0] == 's' and not part[4] and part[5] is False and not part[3]


def expand(part):
    if part[0] == 'i':
        return set([(part[1],)])
    return set('ERR' if f == 'ERR' else (part[1],) + f + ('-' + part[1],) for f in forms(part))


def product(parts):
    out = set([()])
    for p in parts:
        out = set('ERR' if 'ERR' in (a, b) else a + b for a in out for b in expand(p))
    return out


def arranged(section, sel, top):
    parts = section[9]
    if not section[8]:
        return product([parts[i] for i in sel])
    out = set()
    alternatives = []
    for i in sel:
        p = parts[i]
        if p[3]:
            continue
        alternatives.append(mixed(p) if splits(p) else [(p,)])
    nslots = len(alternatives)
    for combo in itertools.product(*alternatives):
        if 'ERR' in combo:
            out.add('ERR')
            continue
        units = sum(combo, ())
        if not nslots:
            out |= product([parts[i] for i in sel])
            continue
        for runs in arrangements(units, nslots):
            seq, k = [], 0
            for i in sel:
                if parts[i][3]:
                    seq.append(parts[i])
                else:
                    seq += runs[k]
                    k += 1
            out |= product(seq)
    return out


def checkforms(ctx, section):
    text = partxml(section)
    ctx.case(['form', text])
    test = formdoc(section).root
    expected = forms(section)

    def one():
        ctx.transitions += 1
        try:
            f = list(tests.TestForm(test))
        except core.SelectionError:
            return 'ERR'
        except mclib.StopExploring:
            raise
        except Exception, err:
            return failure(err)
        if f[:3] != ['', 'P', 'S'] or f[-2:] != ['-S', '-P']:
            return ('frame', repr(f))
        return tuple(f[3:-2])
    got = set(CH.run(one))
    ctx.state(text)
    for g in got:
        ctx.outcome(g)
    ctx.check(got == expected, 'form|' + text, '%s\ncan be (but should not): %r\ncannot be (but should): %r' % (
        text, sorted(got - expected)[:4], sorted(expected - got)[:4]))


def someforms(ctx):
    """one level: every section of up to three items"""
    for n in (0, 1, 2, 3):
        for flags in itertools.product(((None, None), (True, None), (False, True), (True, True)), repeat=n):
            parts = tuple(('i', 'Q%i' % i, r, f) for i, (r, f) in enumerate(flags))
            for select in (None, 0, 1, 2, 3, 4):
                for replace in ((None,) if select is None else (None, True)):
                    for shuffle in (None, False, True):
                        yield ('s', 'S', None, None, True, None, select, replace, shuffle, parts)


def nestedforms(ctx):
    """two levels: a sub-section with every combination of flags before, between or after items"""
    subs = []
    for required, fixed in ((None, None), (True, None), (None, True)):
        for visible in (True, False):
            for keep in (None, True, False):
                for select, replace in ((None, None), (0, None), (1, None), (2, None), (2, True), (3, None)):
                    for shuffle in (None, True):
                        for items_ in (((None, None),), ((None, None), (None, None)), ((True, None), (None, True)), ()):
                            subs.append((required, fixed, visible, keep, select, replace, shuffle, items_))
    for sub in subs:
        required, fixed, visible, keep, select, replace, shuffle, items_ = sub
        part = ('s', 'X', required, fixed, visible, keep, select, replace, shuffle, tuple(('i', 'X%i' % i, r, f) for i, (r, f) in enumerate(items_)))
        for others in (((), ()), ((None,), ()), ((), (None,)), ((True,), (None,)), ((None,), (True,)), ((None, None), ())):
            parts = [('i', 'A%i' % i, None, f) for i, f in enumerate(others[0])] + [part] + [('i', 'B%i' % i, None, f) for i, f in enumerate(others[1])]
            if not ctx.thorough and len(parts) > 2 and required:
                continue
            for sel, rep in ((None, None), (1, None), (2, True)) if ctx.thorough or len(parts) == 2 else ((None, None),):
                for shuf in (True, None):
                    yield ('s', 'S', None, None, True, None, sel, rep, shuf, tuple(parts))
    # three levels
    for visible, keep, shuffle, v2_, k2, sh2 in itertools.product((True, False), (True, False), (None, True), (True, False), (True, False), (None, True)):
        inner = ('s', 'Y', None, None, v2_, k2, None, None, sh2, (('i', 'Y0', None, None), ('i', 'Y1', None, None)))
        mid = ('s', 'X', None, None, visible, keep, None, None, shuffle, (inner, ('i', 'X0', None, None)))
        yield ('s', 'S', None, None, True, None, None, None, True, (mid, ('i', 'A', None, None)))
        yield ('s', 'S', None, None, True, None, None, None, True, (('i', 'A', None, True), mid))
    # two mixed sections
    for k1, k2, s1, s2 in itertools.product((True, False), (True, False), (None, 1), (None, 0)):
        one = ('s', 'X', None, None, False, k1, s1, None, None, (('i', 'X0', None, None), ('i', 'X1', None, None)))
        two = ('s', 'Y', None, None, False, k2, s2, None, True, (('i', 'Y0', None, None), ('i', 'Y1', None, None)))
        yield ('s', 'S', None, None, True, None, None, None, True, (one, two))
        yield ('s', 'S', None, None, True, None, 2, True, True, (one, two))


# ------------------------------------------------------------------ rules
# variables: S (integer), E (integer), and per kind the commands
CONDS = [('true', '<baseValue baseType="boolean">true</baseValue>'), ('false', '<baseValue baseType="boolean">false</baseValue>'),
         ('null', '<null/>'), ('S1', '<equal toleranceMode="exact"><variable identifier="S"/><baseValue baseType="integer">1</baseValue></equal>'),
         ('ES', '<match><variable identifier="E"/><variable identifier="S"/></match>'),
         ('bad', '<baseValue baseType="integer">1</baseValue>')]
SIMPLE = [('S=1',), ('S+1',), ('E=S',), ('exit',), ('S=null',)]


def cond(c, env):
    if c == 'true':
        return True
    if c in ('false', 'null'):
        return False
    if c == 'S1':
        return env['S'] == 1
    if c == 'ES':
        return env['E'] is not None and env['S'] is not None and env['E'] == env['S']
    raise Refused


class Refused(Exception):
    pass


class Exit(Exception):
    pass


def interpret(rules, env):
    for r in rules:
        op = r[0]
        if op == 'S=1':
            env['S'] = 1
        elif op == 'S+1':
            env['S'] = None if env['S'] is None else env['S'] + 1
        elif op == 'E=S':
            env['E'] = env['S']
        elif op == 'S=null':
            env['S'] = None
        elif op == 'exit':
            raise Exit
        elif op == 'bad':
            raise Refused
        elif op == 'correct':
            env['C'] = env['S']
        elif op == 'default':
            env['D'] = env['S']
        elif op == 'rdefault':
            env['R'] = env['S']
        else:
            branches, otherwise = r[1], r[2]
            for c, body in branches:
                if cond(c, env):
                    interpret(body, env)
                    break
            else:
                interpret(otherwise or [], env)


EXPR = {'S=1': '<baseValue baseType="integer">1</baseValue>', 'S=null': '<null/>', 'E=S': '<variable identifier="S"/>',
        'S+1': '<sum><variable identifier="S"/><baseValue baseType="integer">1</baseValue></sum>'}


def rulexml(r, kind):
    """kind: response or template"""
    op = r[0]
    setter = 'setOutcomeValue' if kind == 'response' else 'setTemplateValue'
    if op in EXPR:
        return '<%s identifier="%s">%s</%s>' % (setter, op[0], EXPR[op], setter)
    if op == 'exit':
        return '<exitResponse/>' if kind == 'response' else '<exitTemplate/>'
    if op == 'bad':
        return '<%s identifier="%s">%s</%s>' % (setter, r[1], r[2], setter)
    if op == 'correct':
        return '<setCorrectResponse identifier="RESP"><variable identifier="S"/></setCorrectResponse>'
    if op == 'default':
        return '<setDefaultValue identifier="OUT"><variable identifier="S"/></setDefaultValue>'
    if op == 'rdefault':
        return '<setDefaultValue identifier="RESP"><variable identifier="S"/></setDefaultValue>'
    out = '<%sCondition>' % kind
    for i, (c, body) in enumerate(r[1]):
        tag = kind + ('ElseIf' if i else 'If')
        out += '<%s>%s%s</%s>' % (tag, dict(CONDS)[c], ''.join(rulexml(b, kind) for b in body), tag)
    if r[2] is not None:
        out += '<%sElse>%s</%sElse>' % (kind, ''.join(rulexml(b, kind) for b in r[2]), kind)
    return out + '</%sCondition>' % kind


def programs(ctx, kind):
    bodies = [[]] + [[b] for b in SIMPLE] + [[('S=1',), ('exit',)], [('exit',), ('S=1',)], [('S+1',), ('S+1',)]]
    conds = [c for c, x in CONDS]
    singles = []
    for c in conds:
        for b in bodies:
            for e in (None, [('S=1',)], [('exit',)]):
                singles.append(('if', [(c, b)], e))
    for c1, c2 in itertools.product(conds, repeat=2):
        for b1, b2 in ((bodies[1], bodies[2]), (bodies[4], bodies[1]), ([], bodies[2]), (bodies[2], [])):
            for e in (None, [('E=S',)]):
                singles.append(('if', [(c1, b1), (c2, b2)], e))
    for c in itertools.product(('true', 'false', 'S1', 'null'), repeat=3):
        singles.append(('if', [(c[0], [('S=1',)]), (c[1], [('S+1',)]), (c[2], [('E=S',)])], [('S=null',)]))
    nested = []
    for s in singles[:60:2]:
        for c in ('true', 'false'):
            nested.append(('if', [(c, [s, ('S+1',)])], [s, ('E=S',)]))
    small = [(s,) for s in SIMPLE]
    for s in singles + nested:
        yield [s]
        yield [('S=1',), s, ('S+1',)]
        yield [s, ('E=S',)]
    for n in (1, 2, 3):
        for t in itertools.product(SIMPLE, repeat=n):
            yield list(t)
    for a, b in itertools.product(singles[::7], singles[3::11]):
        yield [a, b, ('S+1',)]
    if kind == 'template':
        for n in (1, 2, 3):
            for t in itertools.product([('S=1',), ('S+1',), ('correct',), ('default',), ('rdefault',), ('exit',)], repeat=n):
                yield list(t)
        bad = [('RESP', EXPR['S=1']), ('OUT', EXPR['S=1']), ('NONE', EXPR['S=1']), ('numAttempts', EXPR['S=1'])]
    else:
        bad = [('RESP', EXPR['S=1']), ('T', EXPR['S=1']), ('NONE', EXPR['S=1']), ('numAttempts', EXPR['S=1'])]
    bad += [('S', '<baseValue baseType="string">x</baseValue>'), ('S', '<multiple>%s</multiple>' % EXPR['S=1']), ('S', '<baseValue baseType="float">1</baseValue>')]
    for b in bad:
        yield [('S=1',), ('bad',) + b, ('S+1',)]


ITEM = u"""<assessmentItem %s identifier="I" title="I" adaptive="%s" timeDependent="false">
<responseDeclaration identifier="RESP" cardinality="single" baseType="integer"/>
<outcomeDeclaration identifier="OUT" cardinality="single" baseType="integer"/>
%s%s%s%s
</assessmentItem>"""


def runprogram(ctx, kind, prog):
    name = ''.join(rulexml(r, kind) for r in prog)
    if kind == 'response':
        decl = '<outcomeDeclaration identifier="S" cardinality="single" baseType="integer"/><outcomeDeclaration identifier="E" cardinality="single" baseType="integer"/>'
        tdecl = '<templateDeclaration identifier="T" cardinality="single" baseType="integer"/>'
        text = ITEM % (NS, 'true', decl, tdecl, '', '<responseProcessing>%s</responseProcessing>' % name)
        env = {'S': 0, 'E': 0}
    else:
        decl = '<templateDeclaration identifier="S" cardinality="single" baseType="integer"><defaultValue><value>0</value></defaultValue></templateDeclaration>'
        decl += '<templateDeclaration identifier="E" cardinality="single" baseType="integer"/>'
        text = ITEM % (NS, 'false', decl, '', '<templateProcessing>%s</templateProcessing>' % name, '')
        env = {'S': 0, 'E': None, 'C': None, 'D': None, 'R': None}
    ctx.case([kind, prog])
    exp = 'done'
    try:
        interpret(prog, env)
    except Exit:
        pass
    except Refused:
        exp = 'refused'
    doc = read(text)
    st = v2.ItemSessionState(doc.root)
    ctx.transitions += 1
    got = 'done'
    try:
        if kind == 'response':
            st.BeginSession()
            st.BeginAttempt()
            st.EndAttempt()
        else:
            st.SelectClone()
            st.BeginSession()
            st.BeginAttempt()
    except (core.ProcessingError, ValueError):
        got = 'refused'
    except mclib.StopExploring:
        raise
    except Exception, err:
        got = failure(err)
    res = dict((k, st[k].value) for k in ('S', 'E'))
    if kind == 'template':
        res.update(C=st['RESP.CORRECT'].value, D=st['OUT.DEFAULT'].value, R=st['RESP.DEFAULT'].value)
        if exp == got == 'done':
            res['out'] = st['OUT'].value
            res['resp'] = st['RESP'].value
            env['out'] = env['D'] or 0
            env['resp'] = env['R']
    ctx.outcome(repr((got, sorted(res.items()))))
    ctx.state(name)
    ctx.check((exp, env) == (got, res), '%s|%s' % (kind, name), '%s: expected %s %r, got %s %r' % (name, exp, env, got, res))


# ------------------------------------------------------------------ item sessions
SESSION = u"""<assessmentItem %s identifier="I" title="I" adaptive="%s" timeDependent="false">
<responseDeclaration identifier="R" cardinality="single" baseType="identifier">%s<correctResponse><value>B</value></correctResponse></responseDeclaration>
<responseDeclaration identifier="M" cardinality="multiple" baseType="identifier">%s</responseDeclaration>
<responseDeclaration identifier="L" cardinality="ordered" baseType="identifier"/>
<responseDeclaration identifier="K" cardinality="ordered" baseType="integer"/>
<responseDeclaration identifier="F" cardinality="single" baseType="float"/>
<outcomeDeclaration identifier="SCORE" cardinality="single" baseType="integer"/>
<outcomeDeclaration identifier="N" cardinality="single" baseType="integer"><defaultValue><value>5</value></defaultValue></outcomeDeclaration>
<outcomeDeclaration identifier="W" cardinality="single" baseType="identifier"/>
<templateDeclaration identifier="T" cardinality="single" baseType="integer"><defaultValue><value>7</value></defaultValue></templateDeclaration>
<itemBody><choiceInteraction responseIdentifier="R" shuffle="false" maxChoices="1"><simpleChoice identifier="A">A</simpleChoice><simpleChoice identifier="B">B</simpleChoice><simpleChoice identifier="AB">AB</simpleChoice></choiceInteraction>
<choiceInteraction responseIdentifier="M" shuffle="false" maxChoices="0"><simpleChoice identifier="A">A</simpleChoice><simpleChoice identifier="B">B</simpleChoice></choiceInteraction>
<choiceInteraction responseIdentifier="R" shuffle="false" maxChoices="2"><simpleChoice identifier="A">A</simpleChoice><simpleChoice identifier="B">B</simpleChoice><simpleChoice identifier="AB">AB</simpleChoice></choiceInteraction></itemBody>
<responseProcessing>
<setOutcomeValue identifier="N"><sum><variable identifier="N"/><baseValue baseType="integer">1</baseValue></sum></setOutcomeValue>
<responseCondition><responseIf><match><variable identifier="R"/><correct identifier="R"/></match><setOutcomeValue identifier="SCORE"><variable identifier="numAttempts"/></setOutcomeValue></responseIf></responseCondition>
<setOutcomeValue identifier="W"><variable identifier="R"/></setOutcomeValue>
</responseProcessing></assessmentItem>"""

PARAMS = [{}, {'R': 'A'}, {'R': 'B'}, {'R': 'AB', 'M': 'A'}, {'M': ['A', 'B']}, {'M': ['B', 'B']}, {'L.1': 'A', 'L.2': 'B'}, {'L.2': 'A', 'L.1': 'B'},
          {'L.B': '1', 'L.A': '2'}, {'L.10': 'A', 'L.9': 'B'}, {'K.1': '5', 'K.2': '3'}, {'F': '1.5'}, {'R': 'B', 'F': '2'}]
BADPARAMS = [{'X': 'A'}, {'SCORE': '1'}, {'T': '1'}, {'numAttempts': '9'}, {'completionStatus': 'completed'}, {'R': ['A', 'B']}, {'R': 'A', 'F': 'x'},
             {'F': ['1']}, {'L.1': 'A', 'L.B': '1'}, {'L.A': 'x'}, {'L.1': ['A']}, {'K.1': 'x'}, {'K.A': '1'}, {'M': ['A', 'a b']}, {'R': 'a b'}, {'F': '1', 'X': '1'}]


class ItemModel(object):

    def __init__(self, adaptive, defaults):
        self.adaptive = adaptive
        self.d = {'R': 'A' if defaults else None, 'M': {'B': 1, 'A': 1} if defaults else None, 'L': None, 'K': None, 'F': None}
        self.r = dict.fromkeys('RMLKF')
        self.saved = {}
        self.n = None
        self.out = {'SCORE': None, 'N': None, 'W': None}
        self.status = None

    def begin(self):
        self.n = 0
        self.status = 'not_attempted'
        self.out = {'SCORE': 0, 'N': 5, 'W': None}

    def attempt(self):
        self.n += 1
        if self.n == 1:
            self.r = dict(self.d)
            self.status = 'unknown'

    def parse(self, params):
        out = {}
        for k, v in params.items():
            if k in ('R',):
                out['R'] = v
            elif k == 'F':
                out['F'] = float(v)
            elif k == 'M':
                vs = [v] if isinstance(v, str) else v
                out['M'] = dict((x, vs.count(x)) for x in vs)
        for name in 'LK':
            ranks = {}
            for k, v in params.items():
                if k.startswith(name + '.'):
                    x = k[2:]
                    if x.isdigit():
                        ranks[int(x)] = v
                    else:
                        ranks[int(v)] = x
            if ranks:
                vs = [ranks[i] for i in sorted(ranks)]
                out[name] = [int(v) for v in vs] if name == 'K' else vs
        return out

    def save(self, params):
        self.saved.update(self.parse(params))

    def submit(self, params):
        self.save(params)
        self.r.update(self.saved)
        self.saved = {}
        if not self.adaptive:
            self.out = {'SCORE': 0, 'N': 5, 'W': None}
        self.out['N'] += 1
        if self.r['R'] == 'B':
            self.out['SCORE'] = self.n
        self.out['W'] = self.r['R']

    def values(self):
        d = dict(self.r)
        d.update(self.out)
        d.update(numAttempts=self.n, completionStatus=self.status, T=7)
        for k in self.saved:
            d[k + '.SAVED'] = self.saved[k]
        for k in self.d:
            d[k + '.DEFAULT'] = self.d[k]
        d['R.CORRECT'] = 'B'
        return d

    def boxes(self):
        """what is checked in the page"""
        m = self.saved.get('M', self.r['M'])
        r = self.saved.get('R', self.r['R'])
        return [('radio', 'R', c, r == c) for c in ('A', 'B', 'AB')] + [('checkbox', 'M', c, c in (m or {})) for c in 'AB'] + [
            ('checkbox', 'R', c, r == c) for c in ('A', 'B', 'AB')]


def page(div):
    return [(html.InputType.EncodeValue(i.type), i.name, i.value, bool(i.checked)) for i in div.FindChildrenDepthFirst(html.Input)]


def itemvalues(st):
    d = {}
    for k in st:
        v = st[k].value
        if k.endswith('duration') or k in ('SCORE.DEFAULT', 'N.DEFAULT', 'W.DEFAULT') or k.endswith('.CORRECT') and k[0] != 'R':
            continue
        d[k] = v
    return d


def itemsession(ctx, adaptive, defaults, prefix, history):
    doc = DOCS.get((adaptive, defaults))
    if doc is None:
        dflt = '<defaultValue><value>A</value></defaultValue>' if defaults else ''
        dm = '<defaultValue><value>A</value><value>B</value></defaultValue>' if defaults else ''
        doc = DOCS[(adaptive, defaults)] = read(SESSION % (NS, 'true' if adaptive else 'false', dflt, dm))
    st = v2.ItemSessionState(doc.root)
    st.formPrefix = prefix
    model = ItemModel(adaptive, defaults)
    st.BeginSession()
    model.begin()
    for i, (op, params) in enumerate(history):
        ctx.transitions += 1
        last = i == len(history) - 1
        sent = dict((prefix + k, v) for k, v in (params or {}).items())
        if prefix:
            # not for this item
            sent.update({'SUBMIT': 'key', 'Q2.R': 'AB', 'RR': 'A'})
        bad = params in BADPARAMS
        before = itemvalues(st)
        div = html.Div(None)
        try:
            if op == 'attempt':
                model.attempt()
                st.BeginAttempt(div)
            elif op == 'save':
                if not bad:
                    model.save(params)
                st.SaveSession(sent, div)
            else:
                if not bad:
                    model.submit(params)
                st.SubmitSession(sent, div)
            got = 'done'
        except v2.BadSessionParams:
            got = 'refused'
        except mclib.StopExploring:
            raise
        except Exception, err:
            got = failure(err)
        if not last:
            if got != ('refused' if bad else 'done'):
                # reported with the shorter history
                return None
            continue
        key = 'item|%s|%s|%s|%r' % (adaptive, defaults, prefix, history)
        if bad:
            ctx.check(got == 'refused', key, 'bad parameters: %r' % (got,))
            after = itemvalues(st)
            if got == 'refused':
                ctx.check(before == after, key, 'a refused request changes %r' % [(k, before.get(k), after.get(k)) for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k)])
        else:
            ctx.check(got == 'done', key, repr(got))
            if got == 'done':
                vals = itemvalues(st)
                exp = model.values()
                ctx.check(vals == exp, key, 'variable: expected, got: %r' % [(k, exp.get(k), vals.get(k)) for k in sorted(set(vals) | set(exp)) if vals.get(k) != exp.get(k)])
                want = [(t, prefix + n, c, x) for t, n, c, x in model.boxes()]
                shown = page(div)
                ctx.check(shown == want, key + '|page', 'page shows %r, not %r' % (shown, want))
    return repr((sorted(itemvalues(st).items())))


DOCS = {}


def itemsessions(ctx):
    depth = 5 if ctx.thorough else 3
    ops = [('save', p) for p in PARAMS] + [('submit', p) for p in PARAMS] + [('attempt', None)]
    badops = [(o, p) for o in ('save', 'submit') for p in BADPARAMS]
    start = (('attempt', None),)
    for adaptive, defaults, prefix in itertools.product((False, True), (False, True), ('', 'Q1.')):
        if not ctx.thorough and defaults != bool(prefix):
            continue
        for first in [None] + ops:
            if not ctx.mine():
                continue
            ctx.case(['item', adaptive, defaults, prefix, first])
            if first is None:
                for h in [start] + [start + (op,) for op in ops + badops]:
                    ctx.state(repr(itemsession(ctx, adaptive, defaults, prefix, h)))
                continue
            level, seen = [start + (first,)], set()
            for d in range(2, depth):
                nxt = []
                for h in level:
                    for op in ops + badops:
                        s = itemsession(ctx, adaptive, defaults, prefix, h + (op,))
                        if s is None or op in badops or s in seen:
                            continue
                        seen.add(s)
                        ctx.state(s)
                        nxt.append(h + (op,))
                level = nxt


# ------------------------------------------------------------------ test sessions
class Clock(object):
    now = 1000.0

    def time(self):
        return Clock.now


v2.time = Clock()
ENTROPY = [0]


def _urandom(n):
    ENTROPY[0] += 1
    return ('salt%i' % ENTROPY[0])[:n].ljust(n, 'x')


TITEM = u"""<assessmentItem %s identifier="%s" title="I" adaptive="false" timeDependent="false">
<responseDeclaration identifier="R" cardinality="single" baseType="boolean"/>
<outcomeDeclaration identifier="SCORE" cardinality="single" baseType="integer"/>
<templateDeclaration identifier="T" cardinality="single" baseType="integer"><defaultValue><value>0</value></defaultValue></templateDeclaration>
<responseProcessing><responseCondition><responseIf><variable identifier="R"/><setOutcomeValue identifier="SCORE"><baseValue baseType="integer">1</baseValue></setOutcomeValue></responseIf></responseCondition></responseProcessing>
</assessmentItem>"""

# a test: tree of (id, parts) with items as leaves
STRUCTURES = [
    [('P', [('S', ['Q1', 'Q2', 'Q3'])])],
    [('P', [('S', ['Q1', ('X', ['Q2', 'Q3']), 'Q4']), ('Z', ['Q5'])])],
    [('P', [('S', ['Q1', 'Q2'])]), ('R', [('Z', ['Q3'])])],
    [('P', [('S', ['Q1', ('X', ['Q2']), ('Y', ['Q3']), 'Q4'])]), ('R', [('Z', ['Q5'])])],
    [('P', [('S', []), ('X', ['Q1'])]), ('R', [])],
]
BOOL = [('true', '<baseValue baseType="boolean">true</baseValue>'), ('false', '<baseValue baseType="boolean">false</baseValue>'), ('null', '<null/>'),
        ('Q1.R', '<variable identifier="Q1.R"/>'), ('Q1.S', '<match><variable identifier="Q1.SCORE"/><baseValue baseType="integer">1</baseValue></match>')]


def walk(parts, parent=None, kind=0):
    """(id, kind, parent): kind 0 test part, 1 section, 2 item"""
    for p in parts:
        if isinstance(p, str):
            yield p, 2, parent
        else:
            yield p[0], min(kind, 1), parent
            for x in walk(p[1], p[0], kind + 1):
                yield x


def testxml(parts, pre, branch, kind=0):
    out = ''
    for p in parts:
        name = p if isinstance(p, str) else p[0]
        rules = ''.join('<preCondition>%s</preCondition>' % dict(BOOL)[c] for c in pre.get(name, []))
        rules += ''.join('<branchRule target="%s">%s</branchRule>' % (t, dict(BOOL)[c]) for c, t in branch.get(name, []))
        if isinstance(p, str):
            out += '<assessmentItemRef identifier="%s" href="%s.xml">%s<templateDefault templateIdentifier="T"><sum><variable identifier="BASE"/><baseValue baseType="integer">%s</baseValue></sum></templateDefault></assessmentItemRef>' % (p, p, rules, p[1])
        elif kind == 0:
            out += '<testPart identifier="%s" navigationMode="linear" submissionMode="individual">%s%s</testPart>' % (name, rules, testxml(p[1], pre, branch, 1))
        else:
            out += '<assessmentSection identifier="%s" title="S" visible="true">%s%s</assessmentSection>' % (name, rules, testxml(p[1], pre, branch, kind + 1))
    return out


class TestModel(object):
    """the questions of a test, one after the other"""

    def __init__(self, parts, pre, branch):
        self.parts, self.pre, self.branch = parts, pre, branch
        self.kind = dict((n, k) for n, k, p in walk(parts))
        self.parent = dict((n, p) for n, k, p in walk(parts))
        self.answers = {}
        self.form = []

        def flat(ps):
            for p in ps:
                if isinstance(p, str):
                    self.form.append(p)
                else:
                    self.form.append(p[0])
                    flat(p[1])
                    self.form.append('-' + p[0])
        flat(parts)

    def cond(self, c):
        if c == 'true':
            return True
        if c in ('false', 'null'):
            return False
        return bool(self.answers.get('Q1'))

    def leave(self, name, pos):
        """the position after component name, whose last component is at pos"""
        for c, t in self.branch.get(name, []):
            if not self.cond(c):
                continue
            if t == 'EXIT_TEST':
                return len(self.form)
            if t in self.kind:
                for i in range(pos + 1, len(self.form)):
                    if self.form[i] == t:
                        return i
                return len(self.form)
            p = self.parent[name]
            if t == 'EXIT_TESTPART':
                while self.kind[p] != 0:
                    p = self.parent[p]
            # past the end, without the branch rules of what is left
            return self.form.index('-' + p) + 1
        return pos + 1

    def next(self, pos):
        """the next question from pos; 'EXIT' targets lead to the end of a section, whose own branch rules then apply"""
        while pos < len(self.form):
            name = self.form[pos]
            if name[0] == '-':
                pos = self.leave(name[1:], pos)
            elif [c for c in self.pre.get(name, []) if not self.cond(c)]:
                # skipped, with everything in it
                pos = (self.form.index('-' + name) if self.kind[name] < 2 else pos) + 1
            elif self.kind[name] == 2:
                return pos
            else:
                pos += 1
        return None

    def openparts(self, pos):
        out = []
        p = self.parent[self.form[pos]]
        while p:
            out.append(p)
            p = self.parent[p]
        return out


def testsession(ctx, parts, pre, branch, answers, full):
    """runs a test with one sequence of answers; returns the number of questions"""
    text = TEST % (NS, '<outcomeDeclaration identifier="BASE" cardinality="single" baseType="integer"><defaultValue><value>10</value></defaultValue></outcomeDeclaration>' + testxml(parts, pre, branch))
    key = 'test|%r|%r|%r|%r' % (parts, pre, branch, answers)
    doc = read(text)
    test = doc.root
    for name, kind, parent in walk(parts):
        if kind == 2:
            if name not in ITEMS:
                ITEMS[name] = read(TITEM % (NS, name))
            test.GetPart(name).item = ITEMS[name].root
    model = TestModel(parts, pre, branch)
    form = tests.TestForm(test)
    ctx.check(list(form) == [''] + model.form, key + '|form', repr(list(form)))
    st = v2.TestSessionState(form)
    Clock.now += 3
    dur = dict((n, None) for n in model.kind)
    keys = [st.key]
    total = 0.0

    def where():
        q = st.GetCurrentQuestion()
        return None if q is None else q.identifier

    def expired(k, op, exc):
        before = (st.key, st.cQuestion, repr(sorted((x, st[x].value) for x in st)))
        try:
            if op == 'BEGIN':
                st.BeginSession(k)
            else:
                st.HandleEvent({op: k, 'Q1.R': 'false'})
            got = 'accepted'
        except exc:
            got = 'refused'
        except mclib.StopExploring:
            raise
        except Exception, err:
            got = failure(err)
        after = (st.key, st.cQuestion, repr(sorted((x, st[x].value) for x in st)))
        ctx.check(got == 'refused' and before == after, key + '|key', '%s with key %r: %r; changed: %s' % (op, k, got, before != after))

    try:
        if full:
            expired('wrong', 'BEGIN', v2.SessionKeyMismatch)
        st.BeginSession(st.key)
        pos = model.next(0)
        asked = []
        for a in list(answers) + [None]:
            ctx.transitions += 1
            exp = None if pos is None else model.form[pos]
            ctx.check(where() == exp, key, 'after %r the question is %s, not %s' % (asked, where(), exp))
            if where() != exp:
                return 0
            if st.key in keys:
                ctx.violation(key + '|key', 'session key used twice')
                return 0
            keys.append(st.key)
            part = st.GetCurrentTestPart()
            expart = model.openparts(pos)[-1] if pos is not None else None
            ctx.check((part and part.identifier) == expart, key, 'test part %r' % part)
            # what can be looked up
            if exp is not None:
                dur[exp] = dur[exp] or 0.0
                ctx.check(st[exp + '.T'].value == 10 + int(exp[1]), key, 'template default of %s: %r' % (exp, st[exp + '.T'].value))
                ctx.check(st[exp + '.numAttempts'].value == 1 and st[exp + '.completionStatus'].value == 'unknown', key, 'attempt of %s has not begun' % exp)
            for n in model.kind:
                got = st[n + '.duration'].value
                want = dur[n]
                ctx.check(got == want or want is None and not got, key + '|duration', 'duration of %s: %r, not %r' % (n, got, want))
                if model.kind[n] == 2:
                    ctx.check(st[n + '.R'].value == model.answers.get(n), key, '%s.R is %r' % (n, st[n + '.R'].value))
                    if n in model.answers:
                        ctx.check(st[n + '.SCORE'].value == int(model.answers[n]), key, '%s.SCORE is %r' % (n, st[n + '.SCORE'].value))
            ctx.check(st['duration'].value == total, key + '|duration', 'duration of the test: %r, not %r' % (st['duration'].value, total))
            ctx.check(st['BASE'].value == 10, key, 'BASE')
            if a is None or exp is None:
                break
            if full:
                expired(keys[-2], 'SUBMIT', v2.SessionKeyExpired)
                expired(keys[0], 'SAVE', v2.SessionKeyExpired)
                expired('wrong', 'SUBMIT', v2.SessionKeyMismatch)
                dt = [0.0, 2.0, 0.5][len(asked) % 3]
                Clock.now += dt
                st.HandleEvent({'SAVE': st.key, exp + '.R': 'false'})
                ctx.check(st[exp + '.R'].value is None and st[exp + '.R.SAVED'].value is False and where() == exp, key, 'save submits')
                if st.key in keys:
                    ctx.violation(key + '|key', 'session key used twice')
                    return 0
                keys.append(st.key)
                for n in [exp] + model.openparts(pos):
                    dur[n] = (dur[n] or 0.0) + dt
                total += dt
            dt = [1.0, 0.0, 4.0][len(asked) % 3]
            Clock.now += dt
            st.HandleEvent({'SUBMIT': st.key, exp + '.R': 'true' if a else 'false', 'Q9.R': 'true'})
            for n in [exp] + model.openparts(pos):
                dur[n] = (dur[n] or 0.0) + dt
            total += dt
            asked.append(exp)
            model.answers[exp] = a
            pos = model.next(model.leave(exp, pos))
    except mclib.StopExploring:
        raise
    except Exception, err:
        ctx.violation(key, 'failed: %s' % failure(err))
        return 0
    ctx.outcome(repr(asked))
    return len(asked)


ITEMS = {}


def targets(parts, name, kind, parent):
    """forward targets a branch rule may have"""
    order = [n for n, k, p in walk(parts)]
    kinds = dict((n, k) for n, k, p in walk(parts))
    parents = dict((n, p) for n, k, p in walk(parts))

    def within(n, a):
        while n:
            if n == a:
                return True
            n = parents[n]
        return False

    def root(n):
        while parents[n]:
            n = parents[n]
        return n
    later = [n for n in order[order.index(name) + 1:] if not within(n, name)]
    if kind == 0:
        return ['EXIT_TEST'] + [n for n in later if kinds[n] == 0]
    out = ['EXIT_TEST', 'EXIT_TESTPART'] + [n for n in later if kinds[n] > 0 and root(n) == root(name)]
    if kinds[parent] == 1:
        out.append('EXIT_SECTION')
    return out


def testsessions(ctx):
    v2.os.urandom = _urandom
    for parts in STRUCTURES:
        comps = list(walk(parts))
        nq = len([c for c in comps if c[1] == 2])
        pres = [{}] + [{n: [c]} for n, k, p in comps for c, x in BOOL if c in ('false', 'null', 'Q1.R', 'Q1.S') or n == 'Q1'] + [{n: [a, b]} for n, k, p in comps[:3] for a in ('true', 'Q1.R') for b in ('false', 'true')]
        branches = [{}]
        for n, k, p in comps:
            for t in targets(parts, n, k, p):
                for c in ('true', 'Q1.R', 'null'):
                    branches.append({n: [(c, t)]})
                branches.append({n: [('false', 'EXIT_TEST'), ('Q1.S', t)]})
        pairs = [(p, {}) for p in pres] + [({}, b) for b in branches]
        two = list(itertools.product(pres[1:], branches[1:]))
        pairs += two if ctx.thorough else two[::37]
        # branch rules on two components
        bb = [dict(a.items() + b.items()) for a, b in itertools.product(branches[1:], repeat=2) if a.keys() != b.keys()]
        pairs += [({}, b) for b in (bb if ctx.thorough else bb[::67])]
        for pre, branch in pairs:
            if not ctx.mine():
                continue
            ctx.case(['test', repr(parts), pre, repr(branch)])
            for first in (True, False):
                rest = itertools.product((True, False), repeat=0)
                answers = [first] + [bool(i % 2) for i in range(nq - 1)]
                n = testsession(ctx, parts, pre, branch, answers, first)
            ctx.state(repr((parts, pre, branch)))


def explore(ctx):
    for s in someforms(ctx):
        if ctx.mine():
            checkforms(ctx, s)
    for s in nestedforms(ctx):
        if ctx.mine():
            checkforms(ctx, s)
    for kind in ('response', 'template'):
        for p in programs(ctx, kind):
            if ctx.mine():
                runprogram(ctx, kind, p)
    itemsessions(ctx)
    testsessions(ctx)


def replay(ctx, case):
    ctx.nshards, ctx.shard, ctx.index = 1, 0, -1
    explore(ctx)
