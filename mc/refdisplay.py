""" Display form of a string, from its definition """
import unicodedata

SYMBOLS = {'\t': '\u2b7e', '\n': '\u21b3', ' ': '\u2423', '\b': '\u2326', '\u202f': '[NNBSP]'}

def initials (name):
    """ initials of the words, the word TO is left out. The first and last
    word always count """
    w = name.replace ('-', ' ').split (' ')
    return ''.join (x[0] for i, x in enumerate (w) if x and not (x == 'TO' and 0 < i < len (w)-1))

def display (text):
    if text is None:
        return None
    if all (unicodedata.combining (c) for c in text):
        return '\u25cc' + text
    if len (text) == 1 and unicodedata.category (text) == 'Cf':
        name = unicodedata.name (text, None)
        if name:
            return f'[{initials (name)}]'
    return SYMBOLS.get (text, text)
