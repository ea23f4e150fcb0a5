# -*- coding: utf-8 -*-
""" What a user may pass to the constructor: importable, hence picklable. """
import worlds
from pymorphy2 import analyzer, units as U
from pymorphy2.units.base import BaseAnalyzerUnit


class MyParse(analyzer.Parse):
    @property
    def shout(self):
        return self.normal_form.upper()


class QuietParse(analyzer.Parse):
    def inflect(self, required_grammemes):
        return None


class Est(object):
    """ An estimator that puts parses in the reverse order. """
    def __init__(self, path):
        self.path = path

    def apply_to_parses(self, word, word_lower, parses):
        return [(w, t, n, round(1.0 / (i + 2), 6), m) for i, (w, t, n, s, m) in enumerate(reversed(parses))]

    def apply_to_tags(self, word, word_lower, tags):
        return list(reversed(tags))


class Echo(BaseAnalyzerUnit):
    """ A custom step with parameters. """
    def __init__(self, suffix, tags=('Echo',)):
        self.suffix = suffix
        self.tags = tags

    def init(self, morph):
        super(Echo, self).init(morph)
        for t in self.tags:
            morph.TagClass.add_grammemes_to_known(t, t.lower())
        self.tag_objects = [morph.TagClass(t) for t in self.tags]

    def parse(self, word, word_lower, seen_parses):
        if not word_lower.endswith(self.suffix):
            return []
        return [(word_lower, t, word_lower, 0.5, ((self, word),)) for t in self.tag_objects]

    def get_lexeme(self, form):
        return [form]

    def normalized(self, form):
        return form


class Inner(BaseAnalyzerUnit):
    """ A step with an analyzer of its own, made when the step is set up. """
    def init(self, morph):
        super(Inner, self).init(morph)
        self.inner = analyzer.MorphAnalyzer(worlds.path('tiny'), probability_estimator_cls=None)

    def parse(self, word, word_lower, seen_parses):
        # knows what the other dictionary knows, under the name of a grammeme of this one
        if not self.inner.word_is_known(word_lower):
            return []
        tag = self.morph.TagClass('UNKN')
        return [(word_lower, tag, p.normal_form, 0.5, ((self, word),)) for p in self.inner.parse(word_lower)[:1]]

    def get_lexeme(self, form):
        return [form]

    def normalized(self, form):
        return form


class SubMorph(analyzer.MorphAnalyzer):
    DICT_PATH_ENV_VARIABLE = 'MY_DICT_PATH'
    DEFAULT_SUBSTITUTES = {'а': 'о'}

    def parse(self, word):
        return super(SubMorph, self).parse(word.replace('!', ''))


class InitMorph(analyzer.MorphAnalyzer):
    """ Extra state of its own, set after the construction. """
    def __init__(self, *args, **kwargs):
        super(InitMorph, self).__init__(*args, **kwargs)
        self.asked = 0

    def parse(self, word):
        self.asked += 1
        return super(InitMorph, self).parse(word)


def units(kind):
    if kind == 'inner':
        return [Inner(), U.DictionaryAnalyzer(), U.LatinAnalyzer(), [U.KnownSuffixAnalyzer()], U.UnknAnalyzer()]
    if kind == 'custom':
        return [U.DictionaryAnalyzer(), Echo('ка', tags=('Echo', 'Ekho')), (U.KnownPrefixAnalyzer(['псевдо', 'не'], min_remainder_length=4), U.KnownSuffixAnalyzer(min_word_length=3, score_multiplier=0.25)), U.UnknAnalyzer()]
    if kind == 'scores':
        return [[U.DictionaryAnalyzer(), U.AbbreviatedFirstNameAnalyzer('абвгдежик', score=0.3)], U.NumberAnalyzer(score=0.4), U.PunctuationAnalyzer(0.2), [U.RomanNumberAnalyzer(), U.LatinAnalyzer(score=0.6)],
                U.HyphenSeparatedParticleAnalyzer(['-ка', '-то'], score_multiplier=0.5), U.HyphenAdverbAnalyzer(score_multiplier=0.35), U.HyphenatedWordsAnalyzer(skip_prefixes=['псевдо'], score_multiplier=0.55),
                [U.KnownPrefixAnalyzer(['супер'], score_multiplier=0.45, min_remainder_length=2), U.UnknownPrefixAnalyzer(score_multiplier=0.15), U.KnownSuffixAnalyzer(score_multiplier=0.95, min_word_length=5)], U.UnknAnalyzer()]
    if kind == 'patronymic':
        return [[U.DictionaryAnalyzer(), U.AbbreviatedPatronymicAnalyzer(['а', 'б', 'к'])], U.KnownSuffixAnalyzer(), U.UnknAnalyzer()]
    if kind == 'none':
        return []
    raise AssertionError(kind)
