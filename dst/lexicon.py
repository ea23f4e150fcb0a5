# -*- coding: utf-8 -*-
""" Source lexicons: generator, OpenCorpora XML writer, and an independent model
of what a compiled dictionary has to contain. """
from xml.sax.saxutils import quoteattr, escape

PARENTS = [('POST', '', 'ЧР'), ('ANim', '', 'Од-неод'), ('GNdr', '', 'хр'), ('NMbr', '', 'Число'), ('CAse', '', 'Падеж'),
           ('ASpc', '', 'Вид'), ('TRns', '', 'Перех'), ('PErs', '', 'Лицо'), ('TEns', '', 'Время'), ('MOod', '', 'Накл'), ('VOic', '', 'Залог')]
LEAVES = [('NOUN', 'POST', 'СУЩ'), ('ADJF', 'POST', 'ПРИЛ'), ('ADJS', 'POST', 'КР_ПРИЛ'), ('COMP', 'POST', 'КОМП'),
          ('VERB', 'POST', 'ГЛ'), ('INFN', 'POST', 'ИНФ'), ('PRTF', 'POST', 'ПРИЧ'), ('GRND', 'POST', 'ДЕЕПР'),
          ('NUMR', 'POST', 'ЧИСЛ'), ('ADVB', 'POST', 'Н'), ('NPRO', 'POST', 'МС'), ('PREP', 'POST', 'ПР'),
          ('CONJ', 'POST', 'СОЮЗ'), ('PRCL', 'POST', 'ЧАСТ'), ('INTJ', 'POST', 'МЕЖД'),
          ('anim', 'ANim', 'од'), ('inan', 'ANim', 'неод'), ('masc', 'GNdr', 'мр'), ('femn', 'GNdr', 'жр'), ('neut', 'GNdr', 'ср'),
          ('sing', 'NMbr', 'ед'), ('plur', 'NMbr', 'мн'), ('nomn', 'CAse', 'им'), ('gent', 'CAse', 'рд'), ('datv', 'CAse', 'дт'),
          ('accs', 'CAse', 'вн'), ('ablt', 'CAse', 'тв'), ('loct', 'CAse', 'пр'), ('voct', 'CAse', 'зв'),
          ('gen1', 'gent', 'рд1'), ('gen2', 'gent', 'рд2'), ('acc2', 'accs', 'вн2'), ('loc1', 'loct', 'пр1'), ('loc2', 'loct', 'пр2'),
          ('perf', 'ASpc', 'сов'), ('impf', 'ASpc', 'несов'), ('tran', 'TRns', 'перех'), ('intr', 'TRns', 'неперех'),
          ('1per', 'PErs', '1л'), ('2per', 'PErs', '2л'), ('3per', 'PErs', '3л'), ('pres', 'TEns', 'наст'), ('past', 'TEns', 'прош'),
          ('futr', 'TEns', 'буд'), ('indc', 'MOod', 'изъяв'), ('impr', 'MOod', 'повел'), ('actv', 'VOic', 'действ'), ('pssv', 'VOic', 'страд'),
          ('Name', '', 'имя'), ('Surn', '', 'фам'), ('Patr', '', 'отч'), ('Geox', '', 'гео'), ('Supr', '', 'прев'), ('Qual', '', 'кач'), ('Apro', '', 'мест-п'),
          ('Init', '', 'иниц'), ('Fixd', '', '0'), ('Abbr', '', 'аббр'), ('Infr', '', 'разг'), ('Sgtm', '', 'sg'), ('Pltm', '', 'pl'), ('ms-f', '', 'ор'), ('Ms-f', '', 'мж')]
ALL_GRAMMEMES = [(n, p, a, 'о ' + n) for n, p, a in PARENTS + LEAVES]
EXCLUDED_LINKS = ('7', '21', '23', '27')


def xml(lex):
    """ The source file, as bytes. """
    out = ['<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n<dictionary version=%s revision=%s>\n<grammemes>\n'
           % (quoteattr(lex['version']), quoteattr(lex['revision']))]
    for n, p, a, d in lex['grammemes']:
        out.append('<grammeme parent=%s><name>%s</name><alias>%s</alias><description>%s</description></grammeme>\n'
                   % (quoteattr(p), escape(n), escape(a), escape(d)))
    out.append('</grammemes>\n<lemmata>\n')
    for lm in lex['lemmata']:
        if lm.get('deleted'):
            out.append('<lemma id="%s" rev="1"/>\n' % lm['id'])
            continue
        g = lambda gs: ''.join('<g v=%s/>' % quoteattr(x) for x in gs)
        out.append('<lemma id="%s" rev="%s"><l t=%s>%s</l>' % (lm['id'], lm['id'], quoteattr(lm['f'][0][0]), g(lm['g'])))
        for t, gs in lm['f']:
            out.append('<f t=%s>%s</f>' % (quoteattr(t), g(gs)))
        out.append('</lemma>\n')
    out.append('</lemmata>\n<link_types><type id="1">ADJF-ADJS</type></link_types>\n<links>\n')
    for i, (a, b, t) in enumerate(lex['links']):
        out.append('<link id="%d" from="%s" to="%s" type="%s"/>\n' % (i + 1, a, b, t))
    out.append('</links>\n</dictionary>\n')
    return ''.join(out).encode('utf8')


def model(lex):
    """ The expected content: a sorted list of [word, tag, normal form] and the
    expected number of lexemes and links. """
    def grset(tag):
        return frozenset(canon(tag).replace(' ', ',').split(','))

    def canon(tag):
        for a, b in (('loc1', 'loct'), ('gen1', 'gent'), ('acc1', 'accs')):
            tag = tag.replace(a, b)
        return tag

    lexemes = {}
    order = []
    for lm in lex['lemmata']:
        forms = []
        if not lm.get('deleted'):
            for t, gs in lm['f']:
                tag = (','.join(lm['g']) + ' ' + ','.join(gs)).strip()
                if not tag:
                    forms = []
                    break
                forms.append([t.lower(), tag])
        lexemes[lm['id']] = forms
        order.append(lm['id'])
    # one spelling per set of grammemes: the most frequent one
    counts = {}
    for forms in lexemes.values():
        for _, tag in forms:
            by = counts.setdefault(grset(tag), {})
            by[tag] = by.get(tag, 0) + 1
    best = {}
    for by in counts.values():
        pos = [t.find(' ') for t in by]
        if len(by) > 1 and len(set(pos)) != len(pos):
            top = max(by.items(), key=lambda kv: kv[1])[0]
            for t in by:
                best[t] = top
    for k, forms in lexemes.items():
        new = []
        for w, tag in forms:
            c = canon(tag)
            c = best.get(c, c)
            if 'Init' not in c:
                new.append([w, c])
        lexemes[k] = new
    owner = {}

    def root(x):
        while x in owner:
            x = owner[x]
        return x
    for a, b, t in lex['links']:
        if t in EXCLUDED_LINKS:
            continue
        r = root(a)
        lexemes[r] = lexemes[r] + lexemes[b]
        lexemes[b] = []
        owner[b] = r
    out = set()
    for forms in lexemes.values():
        for w, tag in forms:
            out.add((w, tag, forms[0][0]))
    return [sorted(map(list, out)), len(lexemes), len(lex['links'])]


LETTERS = 'абвгдежзийклмнопрстуфхцчшщъыьэюя' + 'оаеиоаеи'
STEMS = ['кот', 'дом', 'стал', 'ёж', 'мыл', 'рам', 'бутяв', 'хорош', 'весел', 'смотр', 'бежа', 'зам', 'печ', 'к', 'вод', 'полка', 'тёпл', "об'ї", 'їжак', 'ґанок', 'a-b', 'ё']
NOUN_ENDS = [[('', 'nomn'), ('а', 'gent'), ('у', 'datv'), ('а', 'accs'), ('ом', 'ablt'), ('е', 'loct')],
             [('а', 'nomn'), ('ы', 'gent'), ('е', 'datv'), ('у', 'accs'), ('ой', 'ablt'), ('е', 'loct'), ('', 'voct')],
             [('о', 'nomn'), ('а', 'gen1'), ('у', 'gen2'), ('о', 'accs'), ('ом', 'ablt'), ('е', 'loc1'), ('у', 'loc2')]]
PLUR_ENDS = [('ы', 'nomn'), ('ов', 'gent'), ('ам', 'datv'), ('ов', 'accs'), ('ами', 'ablt'), ('ах', 'loct')]
ADJ_ENDS = [('ый', ['masc', 'sing', 'nomn']), ('ого', ['masc', 'sing', 'gent']), ('ая', ['femn', 'sing', 'nomn']), ('ой', ['femn', 'sing', 'gent']), ('ые', ['plur', 'nomn'])]
VERB_ENDS = [('ю', ['sing', '1per', 'pres', 'indc']), ('ет', ['sing', '3per', 'pres', 'indc']), ('ют', ['plur', '3per', 'pres', 'indc']), ('л', ['masc', 'sing', 'past', 'indc']), ('й', ['sing', 'impr'])]


def gen(rng, size=None, uk=False):
    """ A random lexicon. """
    n = size or rng.choice([1, 2, 3, 5, 8, 12])
    ids = sorted(rng.sample(range(1, 3000), n * 3))
    lem = []
    links = []
    used = []
    pool = []

    def stem():
        x = rng.random()
        if x < 0.55:
            s = rng.choice(STEMS)
        else:
            s = ''.join(rng.choice(LETTERS) for _ in range(rng.randrange(1, 7)))
        if rng.random() < 0.1:
            s = s.title()
        return s

    k = 0

    def nid():
        nonlocal k
        k += 1
        return str(ids[k - 1])
    for _ in range(n):
        x = rng.random()
        s = stem()
        if x < 0.4:
            e = rng.choice(NOUN_ENDS)
            f = [[s + a, ['sing', c]] for a, c in e]
            if rng.random() < 0.6:
                f += [[s + a, ['plur', c]] for a, c in PLUR_ENDS]
            if rng.random() < 0.3:
                f = f[:rng.randrange(1, len(f) + 1)]
            g = ['NOUN', rng.choice(['anim', 'inan']), rng.choice(['masc', 'femn', 'neut'])]
            if rng.random() < 0.25:
                g.append(rng.choice(['Name', 'Surn', 'Geox', 'Sgtm', 'Init', 'Infr']))
            lem.append({'id': nid(), 'g': g, 'f': f})
        elif x < 0.65:
            i = nid()
            lem.append({'id': i, 'g': ['ADJF', 'Qual'], 'f': [[s + a, c] for a, c in ADJ_ENDS]})
            if rng.random() < 0.7:
                j = nid()
                lem.append({'id': j, 'g': ['COMP'], 'f': [[s + 'ее', []], ['по' + s + 'ее', ['Infr']]]})
                links.append([i, j, '2'])
            if rng.random() < 0.5:
                j = nid()
                lem.append({'id': j, 'g': ['ADJF', 'Supr', 'Qual'], 'f': [['наи' + s + a, c] for a, c in ADJ_ENDS]})
                links.append([i, j, rng.choice(['19', '15', '21'])])
        elif x < 0.85:
            i = nid()
            j = nid()
            lem.append({'id': j, 'g': ['VERB', 'impf', 'tran'], 'f': [[s + a, c] for a, c in VERB_ENDS]})
            lem.append({'id': i, 'g': ['INFN', 'impf', 'tran'], 'f': [[s + 'ть', []]]})
            links.append([i, j, '3'])
            if rng.random() < 0.4:
                m = nid()
                lem.append({'id': m, 'g': ['GRND', 'impf', 'tran'], 'f': [[s + 'я', ['pres']]]})
                links.append([j, m, '5'] if rng.random() < 0.5 else [i, m, '5'])
        elif x < 0.95:
            lem.append({'id': nid(), 'g': [rng.choice(['ADVB', 'CONJ', 'PREP', 'INTJ', 'NPRO'])], 'f': [[s + rng.choice(['', 'о', 'и']), []]]})
        else:
            lem.append({'id': nid(), 'deleted': True})
    if rng.random() < 0.3:
        # the same word once more, under another lexeme
        a = rng.choice([x for x in lem if not x.get('deleted')] or [None])
        if a:
            lem.append({'id': str(3000 + k), 'g': a['g'], 'f': [list(x) for x in a['f'][:3]]})
    if not any(not x.get('deleted') for x in lem):
        lem.append({'id': '4000', 'g': ['CONJ'], 'f': [['и', []]]})
    if rng.random() < 0.5:
        rng.shuffle(lem)
    if rng.random() < 0.5:
        rng.shuffle(links)
    gr = [list(g) for g in ALL_GRAMMEMES]
    if uk:
        for g in gr:
            if g[2] and rng.random() < 0.5:
                g[2] = g[2] + 'у'
    if rng.random() < 0.3:
        gr.append(['Dist' + rng.choice('abc'), '', 'иск', 'x & <y>'])
    lex = {'version': '0.%d' % rng.randrange(100), 'revision': str(rng.randrange(10 ** 6)), 'grammemes': gr, 'lemmata': lem, 'links': links}
    return lex


def shrink(lex):
    lem = lex['lemmata']
    for i in range(len(lem)):
        if len(lem) > 1:
            dead = lem[i]['id']
            links = [l for l in lex['links'] if dead not in l[:2]]
            yield dict(lex, lemmata=lem[:i] + lem[i + 1:], links=links)
    for i in range(len(lex['links'])):
        yield dict(lex, links=lex['links'][:i] + lex['links'][i + 1:])
    for i, lm in enumerate(lem):
        if not lm.get('deleted') and len(lm['f']) > 1:
            yield dict(lex, lemmata=lem[:i] + [dict(lm, f=lm['f'][:len(lm['f']) // 2])] + lem[i + 1:])
