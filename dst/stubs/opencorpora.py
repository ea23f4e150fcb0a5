# -*- coding: utf-8 -*-
""" A stand-in for opencorpora-tools (not installed): a corpus is a JSON file
with a list of [word, [tag, ...]]. """
import json


class CorpusReader(object):
    def __init__(self, filename):
        self.filename = filename

    def iter_parsed_words(self):
        with open(self.filename, encoding='utf8') as f:
            data = json.load(f)
        for word, tags in data:
            yield word, [(word.lower(), t) for t in tags]
