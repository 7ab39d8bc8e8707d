""" C10: document filters """
import bz2, io, itertools, json, os, re, stat, zipfile
from .. import kit, core
from ..core import Suite, Violation, need, same, words, Scratch, cli
from lulua import text as T

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small documents (trees of text, paragraphs, blocks, containers, scripts, styles, comments; XML sentences; chapters; dumps) run through the real filters; expected text computed directly from the generated tree'
RULE = 'a case is a document (or a set of documents sharing a prefix); all documents within the bounds are generated once'
ASSUMPTIONS = ['documents are well-formed trees (paragraphs contain inline elements only), so that error recovery of the HTML parser plays no role',
    'text/body/p/s elements of TEI documents are not nested in themselves; text of a sentence is what stands directly inside it']

# ------------------------------------------------------------------- HTML
# nodes: ('t', html, text) | ('c',) comment | ('br',) | ('x', tag) raw text element | (tag, attrs, children)
TEXT = [('t', 'a', 'a'), ('t', ' b\u0627 ', ' b\u0627 '), ('t', '\n\t', '\n\t'), ('t', '&amp;&lt;&#x628;', '&<\u0628'), ('t', 'x  y', 'x  y')]
MARK = [('c', ), ('br', ), ('x', 'script'), ('x', 'style')]
CONT = {'aljazeera': ('div', ' id="DynamicContentContainer"'), 'bbcarabic': ('div', ' property="articleBody"')}

def html (n, site):
    k = n[0]
    if k == 't':
        return n[1]
    if k == 'c':
        return '<!-- comment -->'
    if k == 'br':
        return '<br>'
    if k == 'x':
        return f'<{n[1]}>var x = "nothing";</{n[1]}>'
    if k == 'svg2':
        return '<svg><style>n<style>o<g>t</g></style>hing<script>x</script></style><script>a<script></script>b</script></svg>'
    if k == 'svg':
        return '<svg><style><g>nothing</g><g></g>more</style></svg>'
    tag, attrs = (CONT[site] if k == 'C' else {'other': ('div', ' id="Other" property="other"'), 'spanid': ('span', ' id="DynamicContentContainer" property="articleBody"')}.get (k, (k, '')))
    return f'<{tag}{attrs}>' + ''.join (html (c, site) for c in n[1]) + f'</{tag}>'

SPACE = ' \t\n\r\x0c'
def piece (s):
    if not s:
        return ''
    body = s.strip (SPACE)
    if not body:
        return ' '
    return (' ' if s[0] in SPACE else '') + body + (' ' if s[-1] in SPACE else '')

def expect (children, inside):
    """ text of a list of sibling nodes """
    out, buf = [], ''
    for n in children:
        k = n[0]
        if k == 't':
            buf += n[2]
            continue
        if buf:
            if inside:
                out.append (piece (buf))
            buf = ''
        if k in ('c', 'br', 'x', 'svg', 'svg2'):
            continue
        here = inside or k == 'C'
        out.append (expect (n[1], here))
        if here and k in ('p', 'div', 'C', 'other'):
            out.append ('\n\n')
    if buf and inside:
        out.append (piece (buf))
    return ''.join (out)

def page (body, site):
    return '<!DOCTYPE html><html><head><meta charset="utf-8"><title>title</title><style>p { }</style><script>var a;</script></head><body>' + ''.join (html (n, site) for n in body) + '</body></html>'

def runHtml (site, doc, bytes_=False):
    fd = io.BytesIO (doc.encode ('utf-8')) if bytes_ else io.StringIO (doc)
    return list (T.filterAvail[site] (fd))

def checkPage (site, body, rec):
    doc = page (body, site)
    want = [expect (body, False)]
    got = runHtml (site, doc, len (doc) % 2 == 0)
    rec.step ()
    if got != want:
        raise Violation (f'{site}: {doc}\ngives {got!r}, expected {want!r}')
    rec.state (doc)

INLINE = ('span', 'b', 'spanid')
def elems (kinds, kids, n):
    for k in kinds:
        pool = kids if k not in ('p', ) + INLINE else [x for x in kids if x[0] in ('t', 'c', 'br', 'x', 'svg', 'svg2') + INLINE]
        for ch in words (pool, n):
            yield (k, ch)

class Html1 (Suite):
    name = 'html-container-content'
    bounds = 'one container (both sites) with all sequences of up to 3 children out of 10 leaves and 6 element kinds with up to 1 (thorough 2) leaves each'
    def kids (self, tier):
        leaves = TEXT[:4] + MARK + [('svg', ), ('svg2', )]
        return leaves + list (elems (('p', 'div', 'span', 'other', 'C', 'spanid'), TEXT[:2] + MARK[2:3], 1 if tier == 'quick' else 2))

    def cases (self, tier):
        kids = self.kids (tier)
        for site in CONT:
            for a in kids:
                yield (tier, site, a)

    def check (self, case, rec):
        tier, site, a = case
        kids = self.kids (tier)
        for rest in words (kids, 2):
            checkPage (site, [('C', (a, ) + rest)], rec)
            rec.trace ()

class Html2 (Suite):
    name = 'html-page-structure'
    bounds = 'all pages of up to 3 (thorough 4) top level nodes out of 12 (containers, nested containers, containers in blocks, look-alikes, scripts, comments, text), both sites'
    def nodes (self):
        a, b = TEXT[0], TEXT[1]
        return [('C', ()), ('C', (a, )), ('C', (('C', (b, )), a)), ('div', (('C', (a, )), b)), ('other', (a, )), ('spanid', (a, )), ('p', (b, )), ('x', 'script'), ('c', ), TEXT[2], a,
            ('C', (('div', (('x', 'style'), ('p', (a, b)))), ('svg', ), b)), ('div', (('other', (('C', (('p', (a, )), TEXT[2], ('p', (b, )))), )), ))]

    def cases (self, tier):
        for site in CONT:
            for a in self.nodes ():
                yield (tier, site, a)

    def check (self, case, rec):
        tier, site, a = case
        for rest in words (self.nodes (), 2 if tier == 'quick' else 3):
            checkPage (site, (a, ) + rest, rec)
            rec.trace ()

class Html3 (Suite):
    """ deep nesting """
    name = 'html-nesting'
    bounds = 'all chains of up to 6 (thorough 7) nested elements out of container, block, look-alike block, with text before, in and after each, plus a script at every level; chains of 25 and 60 elements with containers at every one or two levels'
    def cases (self, tier):
        for site in CONT:
            for n in (25, 60):
                for a in range (n):
                    yield ('deep', site, (n, a))
        for site in CONT:
            for k in words (('C', 'div', 'other'), 3, 1):
                yield (tier, site, k)

    def check (self, case, rec):
        tier, site, head = case
        if tier == 'deep':
            n, a = head
            for b in range (a, n):
                node = None
                for i in reversed (range (n)):
                    kids = [('t', f's{i} ', f's{i} ')] + ([node] if node is not None else []) + [('t', f' e{i}', f' e{i}')]
                    node = ('C' if i in (a, b) else 'div', tuple (kids))
                checkPage (site, [node], rec)
                rec.trace ()
            return
        for rest in words (('C', 'div', 'other'), 3 if tier == 'quick' else 4):
            for script in (False, True):
                node = None
                for i, k in enumerate (reversed (head+rest)):
                    kids = [('t', f'<i>{i}</i>'[3:4], str (i))]
                    if script:
                        kids.append (MARK[2 + i % 2])
                    if node is not None:
                        kids.append (node)
                    kids.append (('t', f' e{i}', f' e{i}'))
                    node = (k, tuple (kids))
                checkPage (site, [node], rec)
                rec.trace ()

class Names (Suite):
    """ only scripts and style sheets are left out """
    name = 'html-element-names'
    bounds = 'every ordinary HTML element (66 names, with and without attributes) around text, in the container, directly and in a paragraph or block, before and after a script, and around a container with other content; both sites and EPUB'
    INLINE = 'a abbr acronym b bdi bdo big cite code data del dfn em font i ins kbd label mark q s samp small span strike strong sub sup time tt u var custom-element output nobr noscript'.split ()
    BLOCK = 'address article aside blockquote center details dialog dir dd dl dt fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 header hgroup li main menu nav ol pre section summary ul'.split ()
    ATTR = ['', ' class="x"', ' id="y" style="display: none" lang="en"', ' hidden', ' property="other" dir="ltr"']
    def cases (self, tier):
        for e in self.INLINE + self.BLOCK:
            yield e

    def check (self, e, rec):
        for attr in self.ATTR:
            el = lambda s: f'<{e}{attr}>{s}</{e}>'
            docs = [(f'a{el ("x")}b', 'axb'), (f'<div>a{el ("x")}</div>b', 'ax\n\nb'), (f'{el ("<script>s</script>x")}<style>t</style>y', 'xy'), (f'{el ("x<script>s</script>")}{el ("y")}', 'xy'), (f'a{el (el ("x") if e not in ("a", "nobr", "form", "li", "dd", "dt", "h1", "h2", "h3", "h4", "h5", "h6") else "x")}b', 'axb'), (f'{el ("")}a', 'a')]
            if e in self.INLINE:
                docs += [(f'<p>a{el ("x")}b</p>c', 'axb\n\nc'), (el ('a<b>x</b>b'), 'axb')]
            else:
                docs += [(el ('a<p>x</p>b'), 'ax\n\nb'), (el ('<div>x</div>'), 'x\n\n')]
            for site, (tag, ca) in CONT.items ():
                for inner, want in docs:
                    for outer, final in ((f'z<{tag}{ca}>{inner}</{tag}>{el ("w")}', want + '\n\n'), (f'{el ("w")}<div>{el (f"<{tag}{ca}>{inner}</{tag}>")}w</div>', want + '\n\n')):
                        # some elements must not contain themselves
                        if f'<{e}' in inner and outer[0] != 'z':
                            continue
                        doc = f'<!DOCTYPE html><html><head><title>t</title></head><body>{outer}</body></html>'
                        got = runHtml (site, doc)
                        rec.step ()
                        rec.state (doc)
                        if got != [final]:
                            raise Violation (f'{site}: {doc}\ngives {got!r}, expected {[final]!r}')
            with Scratch () as tmp:
                p = os.path.join (tmp, 'b.epub')
                makeEpub (p, ['<div>' + d.replace (' hidden', ' hidden="hidden"') + '</div>' for d, w in docs])
                got = [x.strip () for x in T.filterAvail['epub'] (p + '\n')]
                squeeze = lambda s: re.sub (r'\s+', ' ', s).strip ()
                for (d, w), g in zip (docs, got):
                    if '<script' not in d:
                        same (squeeze (g), squeeze (w), f'EPUB chapter {d}')
                        rec.step ()
            rec.trace (len (docs)*4)

class Entities (Suite):
    name = 'html-entities'
    bounds = 'all named character references of HTML 5 and numeric references of all Arabic block characters, inside a container'
    def cases (self, tier):
        import html.entities
        names = sorted (k for k in html.entities.html5 if k.endswith (';'))
        for i in range (0, len (names), 100):
            yield ('named', names[i:i+100])
        yield ('numeric', list (range (0x600, 0x700)))

    def check (self, case, rec):
        import html.entities
        kind, lst = case
        for x in lst:
            ref, val = (f'&{x}', html.entities.html5[x]) if kind == 'named' else (f'&#{x};', chr (x))
            checkPage ('bbcarabic', [('C', (('t', f'q{ref}q', f'q{val}q'), ))], rec)
            checkPage ('aljazeera', [('C', (('t', f'{ref}', val), ))], rec)
            rec.trace ()

# -------------------------------------------------------------------- XML
SENT = [('', ''), ('a', 'a'), (' \u0627\u0644 b\n ', ' \u0627\u0644 b\n '), ('x<time id="T1" value="1"/>y', 'xy'), ('&lt;&#x628;&amp;', '<\u0628&'), ('<![CDATA[<q>]]>z', '<q>z'), ('a<t/> <!-- c -->\t<t/>b<?pi x?>\n\n<t/> c', 'a \tb\n\n c')]
NS = len (SENT)

def xmlRun (filt, docs):
    return list (T.apply ([T.filterAvail['xml'], T.filterAvail[filt]], docs))

LANG = (' lang="ar"', ' lang="en"', '', ' lang=""')
class Tei (Suite):
    name = 'tei'
    bounds = 'all documents of up to 3 paragraphs with up to 2 sentences each out of 7 (thorough: up to 3 sentences), in one or two bodies, sentences outside paragraphs and header texts not counted; with and without different languages given'
    def cases (self, tier):
        n = 2 if tier == 'quick' else 3
        for k in words (range (NS), n):
            yield (tier, k)

    def check (self, case, rec):
        tier, first = case
        n = 2 if tier == 'quick' else 2
        for second in [None] + list (words (range (NS), n)):
            for split in (False, True):
                paras = [first] + ([second] if second is not None else [])
                def p (ids, num):
                    return f'<p id="{num}">' + ''.join (f'\n<s id="{num}:{i}"{LANG[(num+i+k)%4]}>{SENT[k][0]}</s>' for i, k in enumerate (ids)) + '\n</p>'
                if split:
                    bodies = ''.join (f'<body>{p (x, i)}</body>' for i, x in enumerate (paras))
                else:
                    bodies = '<body><div>' + '\n'.join (p (x, i) for i, x in enumerate (paras)) + '</div></body>'
                doc = f'<?xml version="1.0" encoding="UTF-8"?>\n<TEI.2><teiHeader><p><s>header</s></p></teiHeader><text>{bodies}</text></TEI.2>'
                want = []
                for x in paras:
                    want.extend (SENT[k][1] for k in x)
                    want.append ('')
                got = xmlRun ('tei2', [io.BytesIO (doc.encode ('utf-8'))])
                same (got, ['\n'.join (want)], f'TEI document {doc}')
                rec.step (len (want))
                rec.trace ()
                rec.state (doc)

class Subtitles (Suite):
    name = 'subtitles'
    bounds = 'all documents of up to 4 (thorough 5) sentences out of 7, indented by spaces or tabs'
    def cases (self, tier):
        for k in words (range (NS), 2):
            yield (tier, k)

    def check (self, case, rec):
        tier, head = case
        for rest in (words (range (NS), 2 if tier == 'quick' else 3) if len (head) == 2 else [()]):
            ids = head+rest
            doc = '<?xml version="1.0" encoding="utf-8"?>\n<document id="1">\n' + ''.join (f'  <s id="{i}">\n    <time id="T{i}S" value="00:00"/>\n    {SENT[k][0]}\n    <time id="T{i}E" value="1"/>\n  </s>\n' for i, k in enumerate (ids)) + '<meta><source><year>1</year></source></meta></document>'
            if sum (ids) % 2:
                doc = doc.replace ('    ', '\t\t')
            want = '\n'.join (SENT[k][1].strip () for k in ids)
            got = xmlRun ('opensubtitles', [io.BytesIO (doc.encode ('utf-8'))])
            same (got, [want], f'subtitles {doc}')
            rec.step (len (ids))
            rec.trace ()
            rec.state (ids)

class Invalid (Suite):
    name = 'invalid-xml'
    bounds = 'all sequences of up to 4 (thorough 5) documents: 2 valid, 9 invalid kinds (empty, truncated, mismatched tags, undefined entity, wrong, unknown, unsupported multi-byte and misdeclared encoding, no XML at all); TEI and subtitles'
    GOOD = ['<d><s>one</s></d>', '<d><s>two</s><s>three</s></d>']
    BAD = [b'', b'<d><s>trunc', b'<d><s>mis</d></s>', b'<d><s>&undefined;</s></d>', b'<?xml version="1.0" encoding="utf-8"?><d><s>\xff</s></d>', b'no xml',
        b'<?xml version="1.0" encoding="utf-7"?><d><s>x</s></d>', b'<?xml version="1.0" encoding="no-such-encoding"?><d><s>x</s></d>', b'<?xml version="1.0" encoding="utf-16"?><d><s>x</s></d>']
    def cases (self, tier):
        for k in words (range (2+len (self.BAD)), 2):
            yield (tier, k)

    def check (self, case, rec):
        tier, head = case
        for rest in (words (range (2+len (self.BAD)), 2 if tier == 'quick' else 3) if len (head) == 2 else [()]):
            ids = head+rest
            docs = [self.GOOD[k].encode () if k < 2 else self.BAD[k-2] for k in ids]
            got = xmlRun ('opensubtitles', [io.BytesIO (d) for d in docs])
            want = [{0: 'one', 1: 'two\nthree'}[k] for k in ids if k < 2]
            same (got, want, f'documents {docs}')
            rec.step (len (ids))
            rec.trace ()
            rec.state (ids)

# ------------------------------------------------------------------- EPUB
def makeEpub (path, chapters):
    # neither the names of the files nor their order in the archive are the
    # order of the chapters
    names = [f'{"cbd"[i%3]}{(i*7+5)%11}-{i//11}' for i in range (len (chapters))]
    z = zipfile.ZipFile (path, 'w')
    z.writestr ('mimetype', 'application/epub+zip')
    z.writestr ('META-INF/container.xml', '<?xml version="1.0"?><container version="1.0" xmlns="urn:oasis:names:tc:opendocument:xmlns:container"><rootfiles><rootfile full-path="OEBPS/content.opf" media-type="application/oebps-package+xml"/></rootfiles></container>')
    man = ''.join (f'<item id="i{names[i]}" href="{names[i]}.xhtml" media-type="application/xhtml+xml"/>' for i in range (len (chapters)))
    spine = ''.join (f'<itemref idref="i{names[i]}"/>' for i in range (len (chapters)))
    z.writestr ('OEBPS/content.opf', f'<?xml version="1.0" encoding="utf-8"?><package xmlns="http://www.idpf.org/2007/opf" unique-identifier="id" version="2.0"><metadata xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:title>t</dc:title><dc:identifier id="id">x</dc:identifier><dc:language>ar</dc:language></metadata><manifest><item id="ncx" href="toc.ncx" media-type="application/x-dtbncx+xml"/><item id="css" href="s.css" media-type="text/css"/>{man}</manifest><spine toc="ncx">{spine}</spine></package>')
    z.writestr ('OEBPS/toc.ncx', '<?xml version="1.0"?><ncx xmlns="http://www.daisy.org/z3986/2005/ncx/" version="2005-1"><head/><docTitle><text>t</text></docTitle><navMap>' + ''.join (f'<navPoint id="n{i}"><navLabel><text>x</text></navLabel><content src="{names[i]}.xhtml"/></navPoint>' for i in range (len (chapters))) + '</navMap></ncx>')
    z.writestr ('OEBPS/s.css', 'p { }')
    for n, c in reversed (list (zip (names, chapters))):
        z.writestr (f'OEBPS/{n}.xhtml', '<?xml version="1.0" encoding="utf-8"?>\n<html xmlns="http://www.w3.org/1999/xhtml"><head><title>T</title></head><body>' + c.replace ('<br>', '<br/>') + '</body></html>')
    z.close ()

class Epub (Suite):
    name = 'epub'
    bounds = 'all books of up to 3 (thorough 4) chapters out of 6, and of 5 to 40 chapters (thorough 400) in turn; neither named nor stored in the order of the chapters; white space at chapter boundaries ignored'
    CH = [(), (('p', (TEXT[0], )), ), (('p', (('t', 'x', 'x'), ('b', (TEXT[1], )), )), TEXT[2], ('div', (('t', 'q', 'q'), ('c', )))), (('div', (('t', '&amp;\u0627', '&\u0627'), )), ), (('div', (('p', (TEXT[4], )), ('p', (('t', 'z', 'z'), ('br', ), TEXT[0])))), ), (('p', (TEXT[0], )), ('p', (TEXT[0], )))]
    def cases (self, tier):
        yield from words (range (len (self.CH)), 3 if tier == 'quick' else 4)
        for n in (5, 10, 11, 12, 40) + ((101, 400) if tier != 'quick' else ()):
            yield tuple (range (len (self.CH)))*n if n > 40 else (tuple (range (len (self.CH)))*n)[:n]

    def check (self, case, rec):
        norm = lambda s: re.sub (' *\n *', '\n', re.sub (' +', ' ', s)).strip (' ')
        with Scratch () as tmp:
            path = os.path.join (tmp, 'b.epub')
            makeEpub (path, [''.join (html (n, 'bbcarabic') for n in self.CH[k]) for k in case])
            got = [norm (x) for x in T.filterAvail['epub'] (path + '\n')]
        want = [norm (expect (self.CH[k], True)) for k in case]
        same (got, want, f'book with chapters {case}')
        rec.step (len (case))
        rec.trace ()
        rec.state (case)

# ------------------------------------------------------------ plain readers
CHARS = ['a', '\u0627', '\n', '\r', '\t', ' ', '"', '\\', '\0', '\u00a0', '\ufeff', '\U0001f600', '\u2028', ',', '7']
class EpubBody (Suite):
    """ text which is not inside of any block """
    name = 'epub-text-in-body'
    bounds = 'all bodies of up to 4 nodes out of text, paragraph, comment and inline element directly in the body (white space aside)'
    KEY = 'C10-epub-leading-text-in-body'
    NODES = [('abc', 'abc'), ('<p>x</p>', 'x '), ('<!-- c -->', ''), ('<i>y</i>', 'y')]
    def cases (self, tier):
        for n in range (1, 5):
            for t in itertools.product (range (4), repeat=n):
                # the library behind drops text before the first node of the
                # body: tell known from new failures
                if t[0] == 0:
                    yield (True, t)
                else:
                    yield (False, t)

    def check (self, case, rec):
        leading, t = case
        squeeze = lambda s: re.sub (r'\s+', '', s)
        with Scratch () as tmp:
            p = os.path.join (tmp, 'b.epub')
            makeEpub (p, [''.join (self.NODES[k][0] for k in t), '<p>next</p>'])
            got = [squeeze (x) for x in T.filterAvail['epub'] (p + '\n')]
        rec.step (2)
        rec.trace ()
        rec.state (case)
        def want (t):
            return [squeeze (''.join (self.NODES[k][1] for k in t)), 'next']
        if got == want (t):
            return
        rest = list (t)
        while rest and rest[0] == 0:
            rest.pop (0)
        if leading and got in (want (rest), want (rest)[1:]):
            raise Violation (f'EPUB: text at the beginning of the body of a chapter is lost: {t}: {got}', key=self.KEY)
        raise Violation (f'EPUB: chapter {[self.NODES[k][0] for k in t]} gives {got}, expected {want (t)}')

class Plain (Suite):
    name = 'plain-readers'
    bounds = 'text, lines and JSON readers: all texts up to length 3 (thorough 4) over 15 characters, and up to length 4 (thorough 5) over 9 characters which look like escapes, single and in pairs, also through files'
    # nothing but the encoding of JSON gives these a meaning
    ESCAPES = ['\\', 'n', 'u', '0', '"', '/', '\n', '&', '%']
    def cases (self, tier):
        for a in [''] + CHARS:
            yield (tier, a)
        for a in itertools.product (self.ESCAPES, repeat=2):
            yield (tier, '', ''.join (a))

    def check (self, case, rec):
        tier, a, *head = case
        F = T.filterAvail
        if head:
            texts = [head[0] + ''.join (t) for t in words (self.ESCAPES, 2 if tier == 'quick' else 3)]
        else:
            texts = [a + ''.join (t) for t in words (CHARS, 2 if tier == 'quick' else 3)] if a else ['']
        for t in texts:
            same (list (F['text'] (io.BytesIO (t.encode ('utf-8')))), [t], 'text reader')
            same (list (F['lines'] (t)), [t], 'lines reader')
            for ascii_ in (True, False):
                same (list (F['json'] (json.dumps (t, ensure_ascii=ascii_) + '\n')), [t], 'JSON reader')
            rec.step (4)
            rec.trace ()
            rec.state (t)
        for f, enc in (('lines', lambda t: t), ('json', json.dumps)):
            same (list (T.apply ([F[f]], [enc (t) for t in texts])), texts, f'sequence of {f} items')
        with Scratch () as tmp:
            names = []
            for i, t in enumerate (texts[:40]):
                p = os.path.join (tmp, f'f {i}.txt')
                with open (p, 'wb') as fd:
                    fd.write (t.encode ('utf-8'))
                names.append (p + '\n')
            same (list (T.apply ([F['file'], F['text']], names)), texts[:40], 'sequence of files')

class FileNames (Suite):
    name = 'file-names'
    bounds = 'all file names of up to 4 (thorough 5) characters out of 7 (letters, blank, dot, percent sign, hash, quote) which do not end in white space, relative to the current directory: the right one of all these files is read by the file reader; as book for names of up to 3 characters'
    CHARS = 'b \u0628.%#"'
    def cases (self, tier):
        for a in itertools.product (self.CHARS, repeat=2):
            yield (4 if tier == 'quick' else 5, ''.join (a))
        yield (1, '')

    def check (self, case, rec):
        n, start = case
        F = T.filterAvail
        names = [start + ''.join (t) for t in words (self.CHARS, n-len (start))]
        names = [x for x in names if x and x.strip ('.') and x == x.rstrip ()]
        old = os.getcwd ()
        with Scratch () as tmp:
            os.chdir (tmp)
            try:
                files = set (names) | {x.strip () for x in names if x.strip ().strip ('.')} | {x + ' ' for x in names}
                for x in files:
                    with open (x, 'wb') as fd:
                        fd.write (x.encode ('utf-8'))
                got = list (T.apply ([F['file'], F['text']], [x + '\n' for x in names]))
                same (got, names, 'contents of files')
                rec.step (len (names))
                rec.trace (len (names))
                for x in names:
                    rec.state (x)
                for x in names:
                    if len (x) > 3:
                        continue
                    os.unlink (x)
                    makeEpub (x, [f'<p>{x.count ("b")} {len (x)}</p>'])
                    same ([t.strip () for t in F['epub'] (x + '\n')], [f'{x.count ("b")} {len (x)}'], f'book {x!r}')
                    rec.step ()
                    rec.trace ()
            finally:
                os.chdir (old)

class Wiki (Suite):
    name = 'wiki-dump'
    bounds = 'all dumps of up to 3 (thorough 4) pages out of 8 (no revision, empty, plain, special characters, markup, several revisions, long, redirect; in different name spaces), single and multi stream compression; fed back through the JSON reader'
    PAGES = [[], [''], ['\u0627\u0644 a'], ['"q" \\ <b>&amp;</b>\n\t\u2028x\n'], ["[[File:x|\u0627]] '''b''' {{t|a=1}}"], ['one', 'two'], ['\u0643\u062a\u0628 '*30000], ['#REDIRECT [[\u0627]]', 'a\rb\r\n']]
    NS = 'http://www.mediawiki.org/xml/export-0.10/'
    def cases (self, tier):
        yield from words (range (8), 3 if tier == 'quick' else 4)

    def check (self, case, rec):
        from xml.sax.saxutils import escape
        doc = [f'<mediawiki xmlns="{self.NS}" version="0.10" xml:lang="ar"><siteinfo><sitename>text</sitename></siteinfo>']
        want = []
        for i, k in enumerate (case):
            doc.append (f'<page><title>text {i}</title><ns>{(0, 1, 10, 14)[(i+k)%4]}</ns><id>{i}</id>' + ('<redirect title="text" />' if k == 7 else '') + ''.join (f'<revision><id>{i}</id><comment>text</comment><text xml:space="preserve" bytes="1">{escape (t, {chr (13): "&#13;"})}</text><sha1>x</sha1></revision>' for t in self.PAGES[k]) + '</page>')
            want.extend (self.PAGES[k])
        doc.append ('</mediawiki>')
        with Scratch () as tmp:
            for multi in (False, True):
                p = os.path.join (tmp, 'dump.bz2')
                with open (p, 'wb') as fd:
                    if multi:
                        for d in doc:
                            fd.write (bz2.compress (d.encode ('utf-8'), 1))
                    else:
                        fd.write (bz2.compress (''.join (doc).encode ('utf-8'), 1))
                r = cli (T.extractMediawiki, [p])
                lines = r.out.decode ('utf-8').split ('\n')
                same (lines.pop (), '', 'end of output')
                got = list (T.apply ([T.filterAvail['json']], lines))
                same (got, want, f'pages {case}')
                rec.step (len (case))
        rec.trace ()
        rec.state (case)

class Pandoc (Suite):
    """ wiki text conversion, with a stand-in for pandoc """
    name = 'wiki-markup'
    bounds = 'all sequences of up to 4 documents accepted or rejected by a stand-in for pandoc: accepted ones are delivered in order, rejected ones skipped'
    parallel = False
    def cases (self, tier):
        yield from words (range (3), 3 if tier == 'quick' else 4)

    def check (self, case, rec):
        old = os.environ['PATH']
        with Scratch () as tmp:
            p = os.path.join (tmp, 'pandoc')
            with open (p, 'w') as fd:
                fd.write ('#!/bin/sh\nx=$(cat; echo .)\ncase "$x" in *reject*) exit 1;; esac\nprintf "<%s>" "${x%.}"\n')
            os.chmod (p, 0o755)
            os.environ['PATH'] = tmp + ':' + old
            try:
                docs = [{0: f'\u0627 {i}\n', 1: 'reject', 2: ''}[k] for i, k in enumerate (case)]
                got = list (T.apply ([T.filterAvail['mediawikimarkdown']], docs))
            finally:
                os.environ['PATH'] = old
        same (got, [f'<{d}>' for d in docs if d != 'reject'], f'documents {docs}')
        rec.step (len (case))
        rec.trace ()
        rec.state (case)

class Everything (Suite):
    name = 'all-characters'
    bounds = 'every character of the Basic Multilingual Plane and every 64th beyond which the format can contain, one by one between letters, in groups of 256, and (except white space) at the start and the end of a sentence, paragraph, line or text and alone: both news sites, TEI, subtitles, EPUB, text, lines, JSON, wiki dump'
    def cases (self, tier):
        n = 0x10000//256
        yield from range (n)
        yield from range (n, n+64)

    def group (self, i):
        if i < 256:
            cps = range (i*256, i*256+256)
        else:
            cps = range (0x10000 + (i-256)*16384, 0x10000 + (i-256)*16384 + 16384, 64)
        return [chr (c) for c in cps if c < 0x110000 and not 0xd800 <= c < 0xe000]

    def check (self, i, rec):
        import unicodedata
        from xml.sax.saxutils import escape
        F = T.filterAvail
        cs = self.group (i)
        if not cs:
            return
        what = f'characters {cs[0]!r} to {cs[-1]!r}'
        plain = ''.join (f'a{c}b' for c in cs)
        same (list (F['text'] (io.BytesIO (plain.encode ('utf-8')))), [plain], f'text: {what}')
        same (list (F['lines'] (plain)), [plain], f'lines: {what}')
        for ascii_ in (True, False):
            same (list (F['json'] (json.dumps (plain, ensure_ascii=ascii_))), [plain], f'JSON: {what}')
        # allowed in XML 1.0, not subject to line end normalisation
        ok = lambda c: c >= '\x20' and c not in '\ufffe\uffff' or c in '\t\n'
        sent = [f'a{c}b' for c in cs if ok (c)]
        doc = '<TEI.2><text><body><p>' + ''.join (f'<s>{escape (s)}</s>' for s in sent) + '</p></body></text></TEI.2>'
        same (xmlRun ('tei2', [io.BytesIO (doc.encode ('utf-8'))]), ['\n'.join (sent + [''])], f'TEI: {what}')
        doc = '<d>' + ''.join (f'<s>{escape (s)}</s>' for s in sent) + '</d>'
        same (xmlRun ('opensubtitles', [io.BytesIO (doc.encode ('utf-8'))]), ['\n'.join (sent)], f'subtitles: {what}')
        rec.step (7)
        with Scratch () as tmp:
            p = os.path.join (tmp, 'dump.bz2')
            with open (p, 'wb') as fd:
                fd.write (bz2.compress ((f'<mediawiki xmlns="{Wiki.NS}"><page><revision><text>' + escape (''.join (sent)) + '</text></revision></page></mediawiki>').encode ('utf-8')))
            r = cli (T.extractMediawiki, [p])
            same ([json.loads (x) for x in r.out.decode ('utf-8').split ('\n') if x], [''.join (sent)], f'wiki dump: {what}')
            # HTML: no control characters, white space is treated separately
            visible = ''.join (f'a{c}b' for c in cs if unicodedata.category (c) not in ('Cc', 'Cn', 'Co') and ok (c))
            for site in CONT:
                for bytes_ in (False, True):
                    got = runHtml (site, page ([('C', (('t', escape (visible), visible), ))], site), bytes_)
                    same (got, [visible + '\n\n'], f'{site}: {what}')
            p = os.path.join (tmp, 'b.epub')
            makeEpub (p, [f'<p>{escape (visible)}</p>'])
            got = list (F['epub'] (p))
            same ([x.strip (' \n') for x in got], [visible], f'EPUB: {what}')
            rec.step (6)
            # at the edges
            edge = [x for c in cs if ok (c) and not c.isspace () and unicodedata.category (c) not in ('Cc', 'Cn', 'Co', 'Zs', 'Zl', 'Zp') and c != '\ufeff' for x in (f'{c}ab', f'ab{c}', c, f'{c}a{c}')]
            if edge:
                what += ' at the start and end'
                for e in edge:
                    for name in ('lines', 'text', 'json'):
                        same (list (F[name] ({'lines': e, 'text': io.BytesIO (e.encode ('utf-8')), 'json': json.dumps (e)}[name])), [e], f'{name}: {what}')
                doc = '<TEI.2><text><body><p>' + ''.join (f'<s>{escape (s)}</s>' for s in edge) + '</p></body></text></TEI.2>'
                same (xmlRun ('tei2', [io.BytesIO (doc.encode ('utf-8'))]), ['\n'.join (edge + [''])], f'TEI: {what}')
                doc = '<d>' + ''.join (f'<s>\n {escape (s)}\n </s>' for s in edge) + '</d>'
                same (xmlRun ('opensubtitles', [io.BytesIO (doc.encode ('utf-8'))]), ['\n'.join (edge)], f'subtitles: {what}')
                p = os.path.join (tmp, 'edge.bz2')
                with open (p, 'wb') as fd:
                    fd.write (bz2.compress ((f'<mediawiki xmlns="{Wiki.NS}">' + ''.join (f'<page><revision><text>{escape (e)}</text></revision></page>' for e in edge) + '</mediawiki>').encode ('utf-8')))
                r = cli (T.extractMediawiki, [p])
                same ([json.loads (x) for x in r.out.decode ('utf-8').split ('\n') if x], edge, f'wiki dump: {what}')
                paras = ''.join (f'<p>{escape (e)}</p>' for e in edge)
                want = ''.join (f'{e}\n\n' for e in edge)
                for site in CONT:
                    same (runHtml (site, page ([('C', (('t', paras, want), ))], site), False), [want + '\n\n'], f'{site}: {what}')
                makeEpub (p, [f'<div>{paras}</div>'])
                same ([[y.strip (' \n') for y in x.split ('\n\n') if y.strip (' \n')] for x in F['epub'] (p)], [edge], f'EPUB: {what}')
                rec.step (6)
        rec.trace (13)
        rec.state (i)

class Encodings (Suite):
    name = 'encodings'
    bounds = 'pages declaring UTF-8, Windows-1256 or ISO 8859-6 in a meta element (two forms), UTF-8 and UTF-16 with byte order mark; XML documents declaring these encodings or with byte order mark or nothing (UTF-8): every sequence of 2 out of 40 Arabic letters, marks and Latin letters which the encoding has'
    LETTERS = [chr (i) for i in range (0x621, 0x63b)] + [chr (i) for i in range (0x641, 0x64b)] + list ('aZ7x')
    def cases (self, tier):
        for enc in ('utf-8', 'windows-1256', 'iso-8859-6', 'utf-8-sig', 'utf-16'):
            for i in range (0, len (self.LETTERS), 8):
                yield (enc, i)

    def check (self, case, rec):
        enc, i = case
        bom = {'utf-8-sig': ['utf-8-sig'], 'utf-16': ['utf-16-le', 'utf-16-be']}.get (enc)
        def encode (text, name):
            if bom is None:
                return text.encode (enc, 'strict')
            return ('\ufeff' + text).encode ('utf-8' if name == 'utf-8-sig' else name)
        sent = []
        for c in itertools.product (self.LETTERS[i:i+8], self.LETTERS):
            t = ''.join (c)
            try:
                t.encode (enc)
            except UnicodeEncodeError:
                continue
            sent.append (t)
        paras = ''.join (f'<p>{t}</p>' for t in sent)
        for name in bom or [enc]:
            for meta in ([f'<meta charset="{enc}">', f'<meta http-equiv="Content-Type" content="text/html; charset={enc}">'] if bom is None else ['', ]):
                for site in CONT:
                    tag, attrs = CONT[site]
                    doc = f'<!DOCTYPE html><html><head>{meta}<title>x</title></head><body><p>n</p><{tag}{attrs}>{paras}</{tag}></body></html>'
                    same (list (T.filterAvail[site] (io.BytesIO (encode (doc, name)))), [''.join (t + '\n\n' for t in sent) + '\n\n'], f'{site} page in {name} {meta}')
                    rec.step ()
            decls = [f'<?xml version="1.0" encoding="{enc}"?>', f"<?xml version='1.0' encoding='{enc.upper ()}' standalone='yes'?>\n"] if bom is None else ['<?xml version="1.0"?>', '']
            if enc == 'utf-8':
                decls += ['<?xml version="1.0"?>', '']
            if enc == 'utf-16':
                decls += ['<?xml version="1.0" encoding="utf-16"?>']
            for decl in decls:
                doc = f'{decl}<TEI.2><text><body><p>' + ''.join (f'<s>{t}</s>' for t in sent) + '</p></body></text></TEI.2>'
                same (xmlRun ('tei2', [io.BytesIO (encode (doc, name))]), ['\n'.join (sent + [''])], f'TEI in {name}, {decl}')
                doc = f'{decl}<d>' + ''.join (f'<s>{t}</s>' for t in sent) + '</d>'
                same (xmlRun ('opensubtitles', [io.BytesIO (encode (doc, name))]), ['\n'.join (sent)], f'subtitles in {name}, {decl}')
                rec.step (2)
        rec.trace (2*len (sent))
        for t in sent:
            rec.state ((enc, t))

class Sizes (Suite):
    name = 'sizes'
    bounds = 'every reader: a document of one text, and of many, with a size from 2^10 to 2^20 (text, lines, JSON and files: 2^24) bytes, just below, at and above each power of two; every 11 characters are different'
    def cases (self, tier):
        for k in range (10, 21):
            for d in (-7, 0, 7):
                yield ((1 << k) + d, )
        for k in (22, 24):
            yield ((1 << k) + 7, )

    def check (self, case, rec):
        from xml.sax.saxutils import escape
        n, = case
        F = T.filterAvail
        text = ' '.join (f'{i:09x}\u0628' for i in range (n//12+1))
        while len (text.encode ('utf-8')) > n:
            text = text[:-1]
        text += 'x'*(n - len (text.encode ('utf-8')))
        text = text[:-1] + 'x'
        data = text.encode ('utf-8')
        def eq (got, want, what):
            if got != want:
                raise Violation (f'{what} of {n} bytes: got {[len (x) for x in got]} characters, expected {[len (x) for x in want]}')
            rec.step ()
        eq (list (F['text'] (io.BytesIO (data))), [text], 'text')
        eq (list (F['lines'] (text + '\n')), [text + '\n'], 'line')
        eq (list (F['json'] (json.dumps (text) + '\n')), [text], 'JSON')
        with Scratch () as tmp:
            p = os.path.join (tmp, 'f')
            with open (p, 'wb') as fd:
                fd.write (data)
            eq (list (T.apply ([F['file'], F['text']], [p + '\n', p + '\n'])), [text, text], 'file')
            if n <= (1 << 20) + 7:
                parts = text.split (' ')
                groups = [[text], [' '.join (parts[i:i+100]) for i in range (0, len (parts), 100)]]
                for sent in groups:
                    doc = '<TEI.2><text><body><p>' + ''.join (f'<s>{s}</s>' for s in sent) + '</p></body></text></TEI.2>'
                    eq (xmlRun ('tei2', [io.BytesIO (doc.encode ('utf-8'))]), ['\n'.join (sent + [''])], 'TEI')
                    doc = '<d>' + ''.join (f'<s>{s}</s>' for s in sent) + '</d>'
                    eq (xmlRun ('opensubtitles', [io.BytesIO (doc.encode ('utf-8'))]), ['\n'.join (sent)], 'subtitles')
                    dump = os.path.join (tmp, 'd')
                    with open (dump, 'wb') as fd:
                        fd.write (bz2.compress ((f'<mediawiki xmlns="{Wiki.NS}">' + ''.join (f'<page><revision><text>{s}</text></revision></page>' for s in sent) + '</mediawiki>').encode ('utf-8'), 1))
                    r = cli (T.extractMediawiki, [dump])
                    eq ([json.loads (x) for x in r.out.decode ('utf-8').split ('\n') if x], sent, 'wiki dump')
                    if n <= (1 << 18) + 7:
                        paras = ''.join (f'<p>{s}</p>' for s in sent)
                        for site in CONT:
                            tag, attrs = CONT[site]
                            doc = f'<!DOCTYPE html><html><head><meta charset="utf-8"></head><body><p>n</p><{tag}{attrs}>{paras}</{tag}></body></html>'
                            eq (list (F[site] (io.BytesIO (doc.encode ('utf-8')))), [''.join (s + '\n\n' for s in sent) + '\n\n'], site)
                        book = os.path.join (tmp, 'e.epub')
                        makeEpub (book, [f'<p>{s}</p>' for s in sent[:20]])
                        eq ([x.strip (' \n') for x in F['epub'] (book)], sent[:20], 'EPUB')
        rec.trace ()
        rec.state (n)

SUITES = [Everything (), Sizes (), Encodings (), Html1 (), Html2 (), Html3 (), Names (), Entities (), Tei (), Subtitles (), Invalid (), Epub (), EpubBody (), Plain (), FileNames (), Wiki (), Pandoc ()]
