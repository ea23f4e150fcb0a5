# -*- coding: utf-8 -*-
""" The vocabulary of queries, their generator and their canonical answers. """
import itertools
import json
import os

WORDS = {
    'known': '''кот стали кошка кошке стать сталь люди человек который мне ей она он их его весь вся три первый
        день дом дома мыла рама раму вода окно окнами идти шёл хороший лучший красивая быстро бежать бегущий
        замок замка печь пила стекло мой моя своего большой больше по в на и а же или как так уже ещё ежа
        говорить сказал пилюлю газета программист университет синий синяя пять двумя сорок душа сапоги
        привет слово словарь тетрадь лица глаз года лет город граница иванович клюева мария петров'''.split(),
    'yo': 'еж ёж котенок котёнок все всё тяжелый тяжёлый легок лёгок елка ёлка мед мёд береза берёза осел осёл нес нёс'.split(),
    'unknown': '''бутявка бутявкой сапают кюди разквакались депыртаментов кашиварнее покашиварней измохратился
        гжукать мурморот пуськи бятые зюзюка трямбальный гуглил хабровчанин байткод айтишник печенюшки
        шмяндекс килотонка дрымбать нафигачил фыволдж ололокать'''.split(),
    'prefix': '''псевдокошка псевдокошкой мегакоту мегасверхнаистарейшему сверхнаистарейший супердом антикот
        недочеловек экс-мэр мини-будильник квазипсевдонаистарейшего небесконечен автокресло киномеханик
        макси-юбка псевдоякобы небезызвестный видеоигра лжеучёный антропокошка электрокошками гальваностол
        противостолами радиокоту ультракошку интеркотами микрофотокошке сверхумными'''.split(),
    'hyphen': '''человек-гора интернет-магазин команд-участниц воздушно-капельный кот-бутявка компания-производитель
        бизнес-ланч плащ-палатка жар-птица диван-кровать кот-ёж царь-пушка синий-синий привет-пока- -кот кот--ёж
        гжукать-кот ваза-фыволдж'''.split(),
    'particle': 'смотри-ка кот-то идти-таки пойдем-ка дай-ка бутявка-то она-то кошку-с пилюлю-тка ёж-де человек-то-ка'.split(),
    'adverb': 'по-западному по-русски по-кошачьи по-хорошему по-бутявочному по-моему по-котовски по-синему'.split(),
    'shape': '''pdf Maßstab LATIN XIV iv MMX II 12 12.4 12,4 007 3-е 3.14.15 … , ?! -- ( «» . 1e5 inf nan VIII-й
        foo-bar C++ I V'''.split(),
    'initial': 'И А Д С Ё Ж и а д с И. Ю Я'.split(),
    'case': 'КОТ Кот кОТ СТАЛИ Человек-Гора ПСЕВДОКОШКА По-Западному Ёж ЕЖ МОСКВА Москва БУТЯВКОЙ Pdf ЛАТЫНЬ'.split(),
    'odd': ['', ' ', '-', '\u0301', 'ко\u0301т', 'ъ', 'ыыыы', '日本語', 'a1б2', 'кот кошка', '\u00a0', 'ё', 'Œuvre', '\U0001F600', 'İstanbul'],
}
# words of the installed dictionary that are alike and have statistics
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'ru.clusters.json'), encoding='utf8') as _f:
    CLUSTERS = json.load(_f)
THEMES = sorted(WORDS)
ALPHABETS = ['абвгдежзийклмнопрстуфхцчшщъыьэюя', 'abcdefghijklmnopqrstuvwxyz', 'àéîöüßçñøåæœłžščřđ', 'ёіїєґўѓќћђѕџљњјѣѵ', 'αβγδεζηθικλμνξοπρστυφχψω',
             'աբգդեզէըթժիլխ', '0123456789', 'ivxlcdm', '.,:;!?()-–—«»"\'', 'אבגדהוז', 'ابتثجحخ', 'あいうえおかきく']
ENDINGS = 'а у ой ами ому ему и ть л ла ый ая ого ство ние ов ах ей ет ит ют ски ий ое ую ыми о е ю ям ться лся'.split()


def theme(rng):
    """ What the words of one run have in common. """
    x = rng.random()
    if x < 0.72:
        return rng.choice(THEMES)
    if x < 0.88:
        return 'cluster%d' % rng.randrange(len(CLUSTERS))
    if x < 0.94:
        return 'neighbour' + rng.choice(WORDS['known'] + WORDS['unknown'] + WORDS['prefix'] * 2)
    return 'letters'


def some_letters(rng):
    abc = rng.choice(ALPHABETS)
    n = rng.choice([1, 1, 1, 2, 3, 5, 9])
    w = ''.join(rng.choice(abc) for _ in range(n))
    x = rng.random()
    if x < 0.2:
        w = w.upper()
    elif x < 0.3:
        w += rng.choice(rng.choice(ALPHABETS))
    return w


def decorate(rng, w):
    """ A word made of ``w`` that other analysis steps deal with, or just not. """
    x = rng.randrange(14)
    if x == 0:
        return 'по-' + w
    if x == 1:
        return 'по-' + w[:max(2, len(w) - 2)] + rng.choice(['ому', 'ему', 'и', 'цки', 'ски', 'ом', 'ки'])
    if x == 2:
        return w + rng.choice(['-то', '-ка', '-таки', '-де', '-тко', '-с', '-ста', '-тося', '-то-то', '-'])
    if x == 3:
        return rng.choice(['авиа', 'анти', 'кино', 'лже', 'недо', 'полу', 'сверх', 'пол-', 'зав', 'бр', 'мега', 'экс-', 'псевдо', 'супер-', 'не', 'наи']) + w
    if x == 4:
        return w + '-' + rng.choice(WORDS['known'])
    if x == 5:
        return rng.choice(WORDS['known']) + '-' + w
    if x == 6:
        return w[:max(2, len(w) - rng.choice([1, 2, 3]))] + rng.choice(ENDINGS)
    if x == 7:
        return rng.choice([w.upper(), w.title(), w.capitalize(), w.swapcase()])
    if x == 8:
        return w.replace('ё', 'е') if 'ё' in w else w.replace('е', 'ё')
    if x == 9:
        return w[1:] or w
    if x == 10:
        return w[:-1] or w
    if x == 11:        # alike at the start, or at the end
        return w[:rng.choice([2, 3, 4, 5, 6, 7, 8])] + rng.choice(WORDS[rng.choice(['known', 'known', 'unknown'])])
    if x == 12:
        return rng.choice(WORDS[rng.choice(['known', 'unknown'])]) + w[-rng.choice([2, 3, 4, 5]):]
    return w + '-' + w


GRAMMEMES = [['plur'], ['sing'], ['masc'], ['pres'], ['anim'], ['sing', 'gent'], ['gent'], ['datv'], ['ablt', 'plur'], ['loc2'], ['gen2'], ['femn'], ['VERB'],
             ['past'], ['ADJF'], ['voct'], ['Geox'], ['LATN'], ['3per', 'sing'], ['accs', 'anim'], ['nomn', 'sing', 'neut'], ['PRTF', 'plur']]
NUMS = [0, 1, 2, 5, 11, 12, 21, 101, 1012, 24]
PREFIXES = ['кош', 'приве', 'ёж', 'наиста', 'бутяв', 'псе', 'дом', 'стал', 'яяя', 'програм']
TRANSL = ['NOUN,anim,masc sing,nomn', 'plur', 'ROMN', 'VERB,perf,tran plur,impr,excl', 'LATN', 'foo', 'СУЩ,од', 'мн', 'РИМ', 'UNKN', 'Init', 'Ms-f']
MEMBER = ['NOUN', 'plur', 'LATN', 'UNKN', 'Init', 'Geox', 'nomn', 'intg', 'nonsense', 'Patr', 'ROMN', 'PNCT']
ATTRS = ['POS', 'animacy', 'aspect', 'case', 'gender', 'involvement', 'mood', 'number', 'person', 'tense', 'transitivity', 'voice']

# the toy dictionaries' own words (data/*.words), filled by worlds.py
TOY = {}


def gen_word(rng, theme=None, toy=None):
    if theme == 'letters':
        return some_letters(rng)
    if theme and theme.startswith('neighbour') and rng.random() < 0.7:
        w = theme[9:]
        return w if rng.random() < 0.3 else decorate(rng, w)
    if theme and theme.startswith('cluster') and rng.random() < 0.75 and not toy:
        w = rng.choice(CLUSTERS[int(theme[7:])])
        return w if rng.random() < 0.8 else decorate(rng, w)
    if theme not in WORDS:
        theme = None
    if toy and rng.random() < 0.55:
        w = rng.choice(TOY[toy])
        x = rng.random()
        if x > 0.75:
            return decorate(rng, w)
        if x < 0.12:
            w = rng.choice(['псевдо', 'супер', 'не', 'по-', 'авто', 'зю']) + w
        elif x < 0.22:
            w = w + rng.choice(['-то', '-ка', '-таки']) if rng.random() < 0.5 else w + '-' + rng.choice(TOY[toy])
        elif x < 0.3:
            w = w.upper() if rng.random() < 0.4 else w.title()
        elif x < 0.4:
            w = 'бр' + w[1:]
        return w
    t = theme if theme and rng.random() < 0.75 else rng.choice(THEMES)
    w = rng.choice(WORDS[t])
    if rng.random() < 0.03:
        return some_letters(rng)
    if rng.random() < 0.08:
        return decorate(rng, w)
    if t in ('known', 'unknown', 'yo') and rng.random() < 0.2:
        x = rng.random()
        if x < 0.3:
            w = rng.choice(['псевдо', 'мега', 'не', 'экс-', 'зю', 'архи']) + w
        elif x < 0.6:
            w = w + '-' + rng.choice(WORDS['known'])
        elif x < 0.8:
            w = w.title()
        else:
            w = w + rng.choice(['-то', '-ка', '-с'])
    return w


def noise(seed, n):
    """ Many cheap and different questions, to make memos full. """
    import random
    rng = random.Random(seed)
    out = []
    for i in range(n):
        x = rng.random()
        if x < 0.45:
            w = some_letters(rng)
        elif x < 0.7:
            w = rng.choice(CLUSTERS[rng.randrange(len(CLUSTERS))])
        elif x < 0.85:
            w = rng.choice(WORDS[rng.choice(THEMES)])
        else:
            w = decorate(rng, rng.choice(WORDS['known']))
        out.append([rng.choice(['tag', 'tag', 'parse', 'nf', 'tagobs', 'lexeme']), w] + [0])
        if out[-1][0] in ('tag', 'parse', 'nf'):
            out[-1].pop()
    return out


def gen_noise(rng):
    """ How much of it: mostly none, else often about a power of two. """
    if rng.random() < 0.75:
        return [0, 0]
    n = rng.choice([rng.randrange(5, 40), 60 + rng.randrange(70), 60 + rng.randrange(10), 124 + rng.randrange(10), 250 + rng.randrange(60), 500 + rng.randrange(30), 1000 + rng.randrange(60)])
    return [rng.randrange(1 << 30), n]


KINDS = [('parse', 30), ('tag', 22), ('nf', 8), ('lexeme', 9), ('inflect', 9), ('agree', 4), ('normalized', 6),
         ('isknown', 3), ('known', 5), ('iter', 3), ('transl', 3), ('tagobs', 8), ('mktag', 3), ('unit', 5), ('words', 2)]
_TOTAL = sum(w for _, w in KINDS)


def gen_op(rng, theme=None, toy=None, kinds=None):
    if kinds:
        k = rng.choice(kinds)
    else:
        x = rng.randrange(_TOTAL)
        for k, w in KINDS:
            x -= w
            if x < 0:
                break
    w = gen_word(rng, theme, toy)
    i = rng.choice([0, 0, 0, 1, 2])
    if k in ('parse', 'tag', 'nf'):
        return [k, w]
    if k in ('lexeme', 'normalized', 'isknown', 'tagobs'):
        return [k, w, i]
    if k == 'inflect':
        return [k, w, i, rng.choice(GRAMMEMES)]
    if k == 'agree':
        return [k, w, i, rng.choice(NUMS)]
    if k == 'known':
        return [k, w, rng.random() < 0.4]
    if k == 'iter':
        return [k, w[:rng.choice([2, 3])] if rng.random() < 0.6 else rng.choice(PREFIXES), rng.choice([1, 3, 8])]
    if k == 'unit':
        return [k, w, i, rng.choice([0, 0, 1, 2]), rng.choice(UNIT_CALLS)]
    if k == 'words':
        return [k, w[:rng.choice([1, 2, 3])], rng.choice([1, 3, 8])]
    if k == 'transl':
        return [k, rng.choice(['lat2cyr', 'cyr2lat']), rng.choice(TRANSL)]
    if k == 'mktag':
        return [k, rng.choice(['NOUN,anim,masc sing,nomn', 'LATN', 'UNKN', 'NOUN,foo', 'VERB', 'NUMB,intg', 'ADVB', 'nonsense'])]
    raise AssertionError(k)


UNIT_CALLS = ['tag', 'parse', 'lexeme', 'normalized']


def unit_call(morph, w, i, j, how, seen=None):
    """ What one of the analysis steps that took part in a parse says itself. """
    p = _nth(morph, w, i)
    m = p[4][j % len(p[4])]
    seen = set() if seen is None else seen
    if how == 'tag':
        return m[0].tag(w, w.lower(), seen)
    if how == 'parse':
        return m[0].parse(w, w.lower(), seen)
    m = p[4][-1]
    if how == 'lexeme':
        return m[0].get_lexeme(p)
    return [m[0].normalized(p)]


def c_parse(p):
    return [p[0], str(p[1]), p[2], repr(p[3]), repr(p[4])]


def c_tag(tag, member=MEMBER):
    out = [str(tag), repr(tag), sorted(tag.grammemes), sorted(map(str, tag.grammemes_cyr)), tag.cyr_repr, len(tag)]
    for a in ATTRS:
        v = getattr(tag, a)
        out.append(None if v is None else str(v))
    for g in member:
        try:
            out.append(g in tag)
        except ValueError as e:
            out.append('!' + str(e))
    out.append(tag.is_productive())
    return out


PREPARED = ('lexeme', 'inflect', 'agree', 'normalized', 'isknown', 'tagobs')


def prepare(morph, op, shared=None):
    """ A function which asks the question.  For ['pre', question] the word is
    parsed now and only the rest happens when the function is called. """
    if op[0] != 'pre':
        return lambda: run_op(morph, op)
    op = op[1]
    k = json.dumps(op[1:3], ensure_ascii=False)
    if shared is None:
        p = _nth(morph, op[1], op[2])
    else:
        if k not in shared:
            shared[k] = _nth(morph, op[1], op[2])
        p = shared[k]
    return lambda: run_op(morph, op, p)


def gen_prepared(rng, theme=None, toy=None, kinds=None):
    op = gen_op(rng, theme, toy, kinds or PREPARED)
    return ['pre', op]


def run_op(morph, op, p=None):
    """ Execute one query through the public interface.

    The answer is plain data; an exception is an answer too, except for
    exceptions injected by the simulator, which are passed on. """
    from sim.sched import is_injected
    if op[0] == 'pre':
        op = op[1]
    try:
        return _run_op(morph, op, p)
    except Exception as e:
        if is_injected(e):
            raise
        return ['!', type(e).__name__, str(e)]


def _nth(morph, word, i):
    ps = morph.parse(word)
    return ps[min(i, len(ps) - 1)]


def _run_op(morph, op, parsed=None):
    k = op[0]
    if k == 'parse':
        return [c_parse(p) for p in morph.parse(op[1])]
    if k == 'tag':
        return [str(t) for t in morph.tag(op[1])]
    if k == 'nf':
        return list(morph.normal_forms(op[1]))
    if k == 'lexeme':
        p = parsed or _nth(morph, op[1], op[2])
        return [c_parse(f) for f in (p.lexeme if hasattr(p, 'lexeme') else morph.get_lexeme(p))]
    if k == 'inflect':
        p = parsed or _nth(morph, op[1], op[2])
        if not hasattr(p, 'inflect'):
            return [c_parse(f) for f in morph.get_lexeme(p)]
        r = p.inflect(set(op[3]))
        return None if r is None else c_parse(r)
    if k == 'agree':
        p = parsed or _nth(morph, op[1], op[2])
        if not hasattr(p, 'make_agree_with_number'):
            return sorted(map(str, p[1].numeral_agreement_grammemes(op[3])))
        r = p.make_agree_with_number(op[3])
        return [sorted(map(str, p.tag.numeral_agreement_grammemes(op[3]))), None if r is None else c_parse(r)]
    if k == 'normalized':
        p = parsed or _nth(morph, op[1], op[2])
        return c_parse(p.normalized) if hasattr(p, 'normalized') else morph.normal_forms(op[1])
    if k == 'isknown':
        p = parsed or _nth(morph, op[1], op[2])
        return p.is_known if hasattr(p, 'is_known') else morph.word_is_known(p[0])
    if k == 'known':
        return morph.word_is_known(op[1], strict=op[2])
    if k == 'iter':
        return [c_parse(p) for p in itertools.islice(morph.iter_known_word_parses(op[1]), op[2])]
    if k == 'transl':
        return getattr(morph, op[1])(op[2])
    if k == 'unit':
        r = unit_call(morph, *op[1:5])
        return [str(t) for t in r] if op[4] == 'tag' else [c_parse(f) for f in r]
    if k == 'words':
        return [x if isinstance(x, str) else [x[0], str(x[1]), x[2:]] for x in itertools.islice(morph.dictionary.iter_known_words(op[1]), op[2])]
    if k == 'tagobs':
        return c_tag((parsed or _nth(morph, op[1], op[2]))[1])
    if k == 'mktag':
        return c_tag(morph.TagClass(op[1]))
    raise AssertionError(op)


def simpler_words(w):
    """ Candidates for shrinking a word. """
    for c in ('кот', 'И', 'pdf', 'стали', 'бутявка', 'псевдокошка'):
        if c != w and len(c) <= len(w):
            yield c
    for i in range(len(w)):
        if len(w) > 1:
            yield w[:i] + w[i + 1:]
