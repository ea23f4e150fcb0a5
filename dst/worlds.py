# -*- coding: utf-8 -*-
""" The small dictionaries used by the simulations.

They are committed in data/ in the library's on-disk format, so that checks of
other parts do not depend on the compiler of the tree under test.  Regenerate
with ``/opt/venv/bin/python worlds.py`` (on an unmodified tree). """
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
DATA = os.path.join(HERE, 'data')

NAMES = ['ru1', 'uk1', 'tiny']
MORE = ['odd']          # grammemes are arranged in another way


def path(name):
    return os.path.join(DATA, name)


def words(name):
    with open(os.path.join(DATA, name + '.words.json'), encoding='utf8') as f:
        return json.load(f)


def _build(only=()):
    import random
    import shutil
    import sys
    sys.path.insert(0, '/repo')
    import lexicon
    from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
    from pymorphy2 import MorphAnalyzer
    from pymorphy2.dawg import ConditionalProbDistDAWG
    from pymorphy2.opencorpora_dict.storage import update_meta
    specs = {
        'ru1': (7, 40, False, 'ru', ['', 'по', 'наи'], []),
        'uk1': (11, 30, True, 'uk', ['', 'по', 'най', 'наи'], ['UkrA', 'UkrB']),
        'tiny': (3, 3, False, 'xx', ['', 'наи'], ['Tiny']),
        'odd': (19, 14, False, 'yy', ['', 'по', 'наи'], ['Odda', 'Oddb']),
    }
    # other parents, other names and another order than in the other dictionaries
    odd = {'Name': 'NPRO', 'Abbr': 'NPRO', 'Geox': 'Apro', 'Surn': 'Apro', 'gen2': 'loct', 'loc2': 'gent', 'inan': 'NMbr', 'Patr': 'femn', 'Odda': 'PREP', 'Oddb': 'CONJ',
           'neut': 'Fixd', 'Sgtm': 'NUMB', 'Supr': 'PRCL', 'Qual': 'INTJ', 'pssv': 'NOUN', '2per': 'CAse', 'Infr': 'VERB', 'ADVB': 'Sgtm', 'COMP': 'plur', 'Pltm': 'GRND', 'impf': 'nomn'}
    for name, (seed, n, uk, lang, prefixes, extra) in sorted(specs.items()):
        if only and name not in only:
            continue
        rng = random.Random(seed)
        lex = lexicon.gen(rng, n, uk)
        for i, g in enumerate(extra):
            lex['grammemes'].append([g, '', 'Ц' + g.lower(), 'only here'])
            for lm in lex['lemmata'][i::3]:
                if not lm.get('deleted'):
                    lm['g'] = lm['g'] + [g]
        if name == 'tiny':
            used = set(g for lm in lex['lemmata'] if not lm.get('deleted') for g in lm['g'] + sum((f[1] for f in lm['f']), []))
            keep = used | set(['POST', 'NMbr', 'CAse', 'GNdr', 'ANim', 'ADVB', 'NOUN', 'anim', 'masc', 'femn', 'Sgtm', 'Name', 'Patr', 'Fixd', 'Abbr', 'Init',
                               'nomn', 'sing', 'gent', 'datv', 'accs', 'ablt', 'loct'])
            lex['grammemes'] = [g for g in lex['grammemes'] if g[0] in keep]
        if name == 'odd':
            lex['grammemes'] = [[g[0], odd.get(g[0], g[1]), g[2] + '\'', g[3]] for g in lex['grammemes'] if g[1] != 'TRns']
            known = set(g[0] for g in lex['grammemes'])
            for lm in lex['lemmata']:
                if not lm.get('deleted'):
                    lm['g'] = [g for g in lm['g'] if g in known]
            rng.shuffle(lex['grammemes'])
        d = path(name)
        shutil.rmtree(d, ignore_errors=True)
        src = '/tmp/_%s.xml' % name
        with open(src, 'wb') as f:
            f.write(lexicon.xml(lex))
        convert_to_pymorphy2(src, d, 'toy-' + name, lang, compile_options=dict(
            paradigm_prefixes=prefixes, min_ending_freq=1, min_paradigm_popularity=1, max_suffix_length=5))
        os.remove(src)
        m = MorphAnalyzer(d, probability_estimator_cls=None)
        ws = sorted(set(p.word for p in m.iter_known_word_parses()))
        if name == 'ru1':
            data = []
            for w in ws:
                tags = sorted(set(map(str, m.tag(w))))
                if len(tags) > 1:
                    for i, t in enumerate(tags):
                        data.append(((w, t), (i + 1.0) / (len(tags) * (len(tags) + 1) / 2.0)))
            ConditionalProbDistDAWG(data).save(os.path.join(d, 'p_t_given_w.intdawg'))
            update_meta(os.path.join(d, 'meta.json'), [('P(t|w)', True), ('P(t|w)_outcomes', 5)])
            print('probabilities', len(data))
        with open(os.path.join(DATA, name + '.words.json'), 'w', encoding='utf8') as f:
            json.dump(ws, f, ensure_ascii=False)
        want = lexicon.model(lex)[0]
        got = sorted(set((p.word, str(p.tag), p.normal_form) for p in m.iter_known_word_parses()))
        assert [list(x) for x in got] == want, name
        print(name, len(ws), 'words', [str(t) for t in m.tag(ws[0])])


if __name__ == '__main__':
    import sys
    _build(sys.argv[1:])
