""" C25: from corpus files to analysis and report """
import collections, io, itertools, json, os, pickle, signal, subprocess
from xml.sax.saxutils import escape
import brotli, yaml
from .. import kit, ref, core, imp, seq, refeffort as R
from ..core import Suite, Violation, need, same, words
from . import c10, c11, c22, c23
from lulua import text as T, stats as S, layout as L, keyboard as K

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small corpora (all lists of documents in every documented format, all distributions over archives and files, all numbers of workers) run through the real commands one after another (import, combine, analysis, report), every output compared with the counts of the known texts'
RULE = 'states are the distinct (formats, corpora, distributions, workers, layouts); transitions are the values compared'
ASSUMPTIONS = ['documents are well-formed', 'workers run one after another except in suite real-processes (C07 shows that the schedule makes no difference)']

ALEF, YAH, WAW = '\u0627', '\u064a', '\u0648'
# texts a document consists of: Arabic words, mapped characters, characters no
# layout has, repeated letters, one which ends within a word
TEXTS = [
    '\u0628\u0627\u062a \u0628\u064a\u062a. \u0643\u0645',
    '\u0623\u0644\u0641 \u0644\u0648, 12% ?',
    ' \u0647\u0646\u062f\u4e2d\u062f\u0648\u062f\u0648 \ufef7\u062d\u062f',
    'x',
    '\u0627\u0627\u0627 \u0625\u064a \u0624',
    ]

def pageOf (site, text):
    t = lambda s: ('t', escape (s), s)
    a, _, b = text.partition (' ')
    body = [t ('\u0628\u0628'), ('C', (('p', (t (a), )), ('p', (t (b), )))), ('p', (t ('\u0645'), ))]
    return c10.page (body, site).encode ('utf-8'), a + '\n\n' + b + '\n\n\n\n'

def tei (text):
    a, _, b = text.partition (' ')
    return f'<?xml version="1.0" encoding="utf-8"?><TEI.2><teiHeader><s>\u0645\u0645</s></teiHeader><text><body><p><s>{escape (a)}</s><s>{escape (b)}</s></p><p><s>{escape (text)}</s></p></body></text></TEI.2>'.encode ('utf-8'), f'{a}\n{b}\n\n{text}\n'

def subtitles (text):
    a, _, b = text.partition (' ')
    return f'<?xml version="1.0" encoding="utf-8"?><document id="1">\n <s id="1">\n  <time id="T1S" value="00:00:01,000" />\n{escape (a)}\n </s>\n <s id="2">{escape (b)}</s></document>'.encode ('utf-8'), f'{a}\n{b}'

class Pipeline:
    """ how a corpus is stored: groups of texts -> input of the import command and the texts expected """
    def __init__ (self, filters, document=None):
        self.filters, self.document = filters, document

    def store (self, d, groups):
        lines, texts = [], []
        for i, g in enumerate (groups):
            docs = [self.document (TEXTS[k]) for k in g]
            p = os.path.join (d, f'{i} part.tar.br')
            with open (p, 'wb') as fd:
                fd.write (brotli.compress (imp.tarOf ([x for x, t in docs])))
            lines.append (p + '\n')
            texts.extend (t for x, t in docs)
        return lines, texts

class Text (Pipeline):
    """ one file for every group """
    def store (self, d, groups):
        lines, texts = [], []
        for i, g in enumerate (groups):
            p = os.path.join (d, f'{i}.txt')
            t = '\r\n'.join (TEXTS[k] for k in g)
            with open (p, 'wb') as fd:
                fd.write (t.encode ('utf-8'))
            lines.append (p + '\n')
            texts.append (t)
        return lines, texts

class Epub (Pipeline):
    """ one book for every group. White space at the boundaries of chapters is up to the filter """
    def store (self, d, groups):
        lines, texts = [], []
        for i, g in enumerate (groups):
            p = os.path.join (d, f'{i}.epub')
            c10.makeEpub (p, [f'<p>{escape (TEXTS[k])}</p>' for k in g])
            lines.append (p + '\n')
            got = list (T.filterAvail['epub'] (p + '\n'))
            same ([x.strip () for x in got], [TEXTS[k].strip () for k in g], f'book {g}')
            texts.extend (got)
        return lines, texts

class Json (Pipeline):
    """ one line for every document """
    def store (self, d, groups):
        t = [TEXTS[k] + '\n' + TEXTS[(k+1) % len (TEXTS)] for g in groups for k in g]
        return [json.dumps (x, ensure_ascii=len (groups) % 2 == 0) + '\n' for x in t], t

class Lines (Pipeline):
    def store (self, d, groups):
        t = [TEXTS[k] + '\n' for g in groups for k in g]
        return t, t

PIPELINES = dict (
    bbcarabic=Pipeline (['file', 'brotli', 'tar', 'bbcarabic'], lambda t: pageOf ('bbcarabic', t)),
    aljazeera=Pipeline (['file', 'brotli', 'tar', 'aljazeera'], lambda t: pageOf ('aljazeera', t)),
    tei2=Pipeline (['file', 'brotli', 'tar', 'xml', 'tei2'], tei),
    opensubtitles=Pipeline (['file', 'brotli', 'tar', 'xml', 'opensubtitles'], subtitles),
    text=Text (['file', 'text']),
    epub=Epub (['epub']),
    json=Json (['json']),
    lines=Lines (['lines']),
    )

def expected (layout, texts):
    real, lay = kit.shipped (layout)
    c = ref.Counts ()
    for t in texts:
        c.add (ref.count (ref.typeText (lay, c11.before (t))[0]))
    return c

def combine (data):
    r = core.cli (S.main, ['combine'], stdin=data)
    need (r.ret in (None, 0), f'combine: exit status {r.ret} {r.err[-300:]}')
    return r.out

def importCorpus (layout, name, groups, jobs):
    """ (output of the import command, texts) """
    p = PIPELINES[name]
    with core.Scratch () as d:
        lines, texts = p.store (d, groups)
        r = seq.run (T.write, ['-j', str (jobs), layout] + p.filters, ''.join (lines).encode ('utf-8'))
    need (r.ret in (None, 0), f'{name} {groups}: exit status {r.ret} {r.err[-300:]}')
    return r.out, texts

def checkCombined (data, c, what):
    outs = imp.results (data)
    same (len (outs), 1, f'{what}: number of combined results')
    d = kit.diff (kit.countsOf (outs[0]), c)
    need (not d, lambda: f'{what}: {d}')
    return len (c.combinations) + len (c.triads) + len (c.words) + len (c.buttons) + len (c.unknown)

def usable (c):
    """ the effort of all triads is known and not zero altogether """
    m = R.MODELS['mod01']
    return c.triads and all (x in m.base for t in c.triads for k in t for x in list (k[0])+[k[1]]) and R.total (m, c.triads)

def analyse (world, layout, data, c, what):
    n = c22.checkHeatmap (world, layout, data, c, what)
    n += c22.checkLayoutstats (world, layout, data, c, what)
    n += c22.checkLatinime (world, layout, data, c, what)
    n += c22.checkLetterfreq (world, layout, data, c, what)
    n += c22.checkCorpusstats (world, layout, data, c, what, dict (name='x', source=dict (name=dict (en='a', ar='\u0628'))))
    if usable (c):
        n += c22.checkPretty (world, layout, data, c, what)
        n += c22.checkTriadfreq (world, layout, data, c.triads, what, 1.0, 'weight', True, limits=(2, ))
        n += c22.checkEffortData (world, layout, data, c.triads, what)[0]
    return n

class Pipelines (Suite):
    name = 'pipelines'
    bounds = 'the 8 documented import pipelines x all corpora of up to 2 (thorough 3) documents out of 5 in every distribution over consecutive archives, books or files, also with an empty one first or last, x 1 and 2 workers (thorough: 3) x 2 layouts; combined counts each time, all analysis commands once per corpus'
    def cases (self, tier):
        for name in PIPELINES:
            for docs in words (range (len (TEXTS)), 2 if tier == 'quick' else 3):
                yield (name, docs, 2 if tier == 'quick' else 3)

    def check (self, case, rec):
        name, docs, maxJobs = case
        with c22.World () as world:
            for layout in ('ar-lulua', 'ar-linux'):
                done = None
                parts = list (c23.partitions (docs)) if docs else [[]]
                if name != 'epub':
                    # empty archives and files
                    parts += [parts[-1] + [[]], [[]] + parts[-1]]
                for groups in parts:
                    for jobs in range (1, maxJobs+1):
                        what = f'{layout}, {name} corpus {groups} with {jobs} workers'
                        out, texts = importCorpus (layout, name, groups, jobs)
                        data = combine (out)
                        c = expected (layout, texts)
                        rec.step (checkCombined (data, c, what))
                        rec.trace ()
                        rec.state ((case, layout, groups, jobs))
                        # the combined result may be combined again
                        rec.step (checkCombined (combine (data), c, f'{what}, combined twice'))
                        done = data, c, what
                rec.step (analyse (world, layout, *done))
                rec.trace ()

class Together (Suite):
    name = 'all-corpora'
    bounds = 'all pairs of pipelines (thorough: and all orders of 3) with 2 documents each: every corpus combined on its own, then everything combined; combined counts and all analysis commands'
    def cases (self, tier):
        for n in (2, ) if tier == 'quick' else (2, 3):
            yield from itertools.product (PIPELINES, repeat=n)

    def check (self, names, rec):
        layout = 'ar-lulua'
        files, texts = [], []
        for i, name in enumerate (names):
            out, t = importCorpus (layout, name, [[i, (i+2) % len (TEXTS)]], 1)
            files.append (combine (out))
            texts += t
        c = expected (layout, texts)
        data = combine (b''.join (files))
        what = f'{names} together'
        rec.step (checkCombined (data, c, what))
        with c22.World () as world:
            rec.step (analyse (world, layout, data, c, what))
        rec.trace ()
        rec.state (names)

class OtherKeyboard (Suite):
    name = 'other-keyboard'
    bounds = 'import, combination and all analysis commands with another keyboard (selected by option, stored in a local file) which has a key the standard keyboard lacks, used by the layout as key or as modifier: the 8 pipelines x all single documents out of 5, x with and without the texts of that key; 1 and 2 workers'
    def cases (self, tier):
        yield from itertools.product (('key', 'modifier'), PIPELINES, range (len (TEXTS)))

    def layers (self, kind):
        layers = [([list (m) for m in ms], dict (l)) for ms, l in kit.shipped ('ar-lulua')[1].layers]
        # 4e2d is in a text
        if kind == 'key':
            layers[0][1]['Fl_fn'] = '\u4e2d'
        else:
            layers.append (([['Fl_fn']], {'Dl3': '\u4e2d', 'Dl4': 'x'}))
        return layers

    def check (self, case, rec):
        kind, name, doc = case
        layers = self.layers (kind)
        data = kit.dataFile ('keyboards', 'ibmpc105')
        data['name'] = 'other'
        data['rows'][-1][0].insert (1, dict (name='Fl_fn', width=1))
        data['rows'][-1][1].reverse ()
        kbd = K.PhysicalKeyboard.deserialize (data)
        p = PIPELINES[name]
        with c22.World () as world:
            world.options = ['-k', 'other.yaml']
            lay = f'own-{kind}'
            for fn, x in (('other.yaml', data), (lay, dict (name=lay, layout=[dict (modifier=ms, layer=l) for ms, l in layers]))):
                with open (os.path.join (world.dir, fn), 'w') as fd:
                    yaml.dump (x, fd)
            c22.LOCAL[lay], c22.LOCALKBD[lay] = layers, kbd
            try:
                lines, texts = p.store (world.dir, [[doc]])
                c = ref.Counts ()
                for t in texts:
                    c.add (ref.count (ref.typeText (ref.Layout (layers), c11.before (t))[0]))
                for jobs in (1, 2):
                    what = f'{case} on another keyboard with {jobs} workers'
                    r = seq.run (T.write, [*world.options, '-j', str (jobs), lay] + p.filters, ''.join (lines).encode ('utf-8'), cwd=world.dir)
                    need (r.ret in (None, 0), f'{what}: exit status {r.ret} {r.err[-300:]}')
                    r = core.cli (S.main, [*world.options, 'combine'], stdin=r.out, cwd=world.dir)
                    need (r.ret in (None, 0), f'{what}: combine: exit status {r.ret} {r.err[-300:]}')
                    rec.step (checkCombined (r.out, c, what))
                    rec.trace ()
                    rec.state ((case, jobs))
                rec.step (analyse (world, lay, r.out, c, what))
                rec.trace ()
            finally:
                del c22.LOCAL[lay], c22.LOCALKBD[lay]

class Separators (Suite):
    name = 'separators'
    bounds = 'text files, JSON strings (not escaped where JSON allows it) and lines containing one of 14 control characters and separators which are not a line feed, in 2 contexts, with 1 and 2 workers'
    CHARS = '\x0b\x0c\x1c\x1d\x1e\x1f\x85\u2028\u2029\x00\x1a\x04\ufeff\u200e'
    def cases (self, tier):
        yield from itertools.product (('text', 'json', 'lines'), range (len (self.CHARS)))

    def check (self, case, rec):
        name, k = case
        c = self.CHARS[k]
        layout = 'ar-lulua'
        texts = [f'\u0628{c} \u0628\u0627{c}\u062a {c} \u0645', f'{c} \u0628{c}{c} 12']
        with core.Scratch () as d:
            if name == 'text':
                lines = []
                for i, t in enumerate (texts):
                    p = os.path.join (d, f'{i}.txt')
                    with open (p, 'wb') as fd:
                        fd.write (t.encode ('utf-8'))
                    lines.append (p + '\n')
            elif name == 'json':
                lines = [json.dumps (t, ensure_ascii=False) + '\n' for t in texts]
            else:
                texts = [t + '\n' for t in texts]
                lines = texts
            want = expected (layout, texts)
            for jobs in (1, 2):
                what = f'{name} with {c!r}, {jobs} workers'
                r = seq.run (T.write, ['-j', str (jobs), layout] + PIPELINES[name].filters, ''.join (lines).encode ('utf-8'))
                need (r.ret in (None, 0), f'{what}: exit status {r.ret} {r.err[-300:]}')
                rec.step (checkCombined (combine (r.out), want, what))
                rec.trace ()
                rec.state ((case, jobs))

def layoutStats (name, c):
    hands, fingers = collections.Counter (), collections.Counter ()
    per = collections.Counter ()
    for b, n in c.buttons.items ():
        h = L.LEFT if ref.hand (b) == ref.LEFT else L.RIGHT
        hands[h] += n
        fingers[(h, L.FingerType (ref.handFinger[b][1]))] += n
    lay = kit.shipped (name)[1]
    for k, n in c.combinations.items ():
        per[lay.text[k]] += n
    total = sum (c.buttons.values ())
    hamza = [c22.ALEF+c22.HA, c22.ALEF+c22.HB, c22.YAH+c22.HA, c22.WAW+c22.HA]
    onAlef = per[hamza[0]] + per[hamza[1]]
    share = lambda a, b: a/b if b else 0
    return dict (layout=name, hands=hands, fingers=fingers, buttonPresses=total,
            asymmetry=share (hands[L.LEFT]-hands[L.RIGHT], total),
            hamzaImpact=share (sum (per[x] for x in hamza), sum (c.combinations.values ())),
            hamzaOnAlef=share (onAlef, onAlef + per[c22.ALEF]))

class Report (Suite):
    name = 'report'
    bounds = 'all 12 shipped layouts x every pair of the 8 pipelines as corpora, with the metadata shipped for them: import, combine, corpusstats, layoutstats, report'
    def cases (self, tier):
        yield from itertools.combinations_with_replacement (PIPELINES, 2)
        yield tuple (PIPELINES)

    def check (self, names, rec):
        meta = []
        root = os.path.join (core.REPO, 'corpus')
        for x in sorted (os.listdir (root)):
            with open (os.path.join (root, x, 'metadata.yaml'), 'rb') as fd:
                meta.append (fd.read ())
        layoutFiles, corpusFiles, given, docs = [], [], [], []
        with c22.World () as world:
            for layout in c23.layoutNames ():
                files, texts = [], []
                for i, name in enumerate (names):
                    k = i % len (TEXTS)
                    out, t = importCorpus (layout, name, [[k], [(k+1) % len (TEXTS), (k+2) % len (TEXTS)]], 1)
                    files.append (combine (out))
                    texts += t
                    if layout == 'ar-lulua':
                        fn = os.path.join (world.dir, f'meta{i}.yaml')
                        with open (fn, 'wb') as fd:
                            fd.write (meta[i % len (meta)])
                        got = world.run (layout, ['corpusstats', fn], files[-1])
                        corpusFiles.append (got)
                        c = expected (layout, t)
                        docs.append (dict (yaml.safe_load (meta[i % len (meta)]), stats=dict (characters=sum (c.combinations.values ()), words=sum (c.words.values ()))))
                data = combine (b''.join (files))
                layoutFiles.append (world.run (layout, ['layoutstats'], data))
                given.append (layoutStats (layout, expected (layout, texts)))
            argv = ['-c']
            for i, x in enumerate (corpusFiles):
                with open (os.path.join (world.dir, f'c{i}'), 'wb') as fd:
                    fd.write (x)
                argv.append (f'c{i}')
            argv.append ('-l')
            for i, x in enumerate (layoutFiles):
                with open (os.path.join (world.dir, f'l{i}'), 'wb') as fd:
                    fd.write (x)
                argv.append (f'l{i}')
            r = core.cli (c23.P.render, argv, cwd=world.dir)
            need (r.ret in (None, 0), f'report: exit status {r.ret}')
            tree = c23.Tree (r.out.decode ('utf-8')).root
        rec.step (c23.checkTables (tree, docs, f'report on {names}'))
        rec.step (c23.checkLayouts (tree, given, f'report on {names}'))
        rec.trace ()
        rec.state (names)

class RealProcesses (Suite):
    name = 'real-processes'
    bounds = 'the 8 pipelines as real processes connected by pipes (import with 2 workers | combine), 3 documents in 2 archives'
    def cases (self, tier):
        yield from PIPELINES

    COMBINE = 'import sys; from lulua.stats import main; sys.exit (main ())'
    def check (self, name, rec):
        layout = 'ar-lulua'
        p = PIPELINES[name]
        with core.Scratch () as d:
            lines, texts = p.store (d, [[0, 1], [4]])
            with imp.Real (['-j', '2', layout] + p.filters) as r:
                r.feed (''.join (lines).encode ('utf-8'))
                r.eof ()
                same (r.wait (), 0, f'{name}: exit status of the import')
                out = r.out ()
            py = '/opt/venv/bin/python'
            q = subprocess.run ([py, '-W', 'ignore', '-c', self.COMBINE, 'combine'], input=out, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=imp.environ (), cwd=d, timeout=100,
                    preexec_fn=lambda: signal.setitimer (signal.ITIMER_REAL, 0))
            same (q.returncode, 0, f'{name}: exit status of combine, {q.stderr[-300:]}')
        rec.step (checkCombined (q.stdout, expected (layout, texts), f'{name}, real processes'))
        rec.trace ()
        rec.state (name)

SUITES = [RealProcesses (), Separators (), Pipelines (), OtherKeyboard (), Together (), Report ()]
