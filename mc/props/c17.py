""" C17: names of layouts and keyboards """
import copy, itertools, os, shutil, sys, importlib
import yaml
from .. import kit, ref, core
from ..core import Suite, Violation, need, same, words
from lulua import layout as L, keyboard as K, util as U

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of the contents of the working directory and of the packaged resource directory (files, directories, similar names) and of histories of loads and changes; every name is resolved by the real loader and compared with the documented search order'
RULE = 'states are (directory contents, name); transitions are lookups'
ASSUMPTIONS = ['files are readable text; names are valid file names']

def layoutData (name):
    return dict (name=name, layout=[dict (modifier=[[]], layer={'Dl1': 'a'})])

def keyboardData (name):
    return dict (name=name, description='', rows=[[[dict (name='Dl1', kind='letter')], []]])

KINDS = dict (layouts=(layoutData, 'L'), keyboards=(keyboardData, 'K'))

class Cwd:
    def __init__ (self, path):
        self.path = path
    def __enter__ (self):
        self.old = os.getcwd ()
        os.chdir (self.path)
    def __exit__ (self, *a):
        os.chdir (self.old)

def resolve (loader, name):
    try:
        return loader[name].name
    except KeyError as e:
        need (name in str (e) or name in str (e.args) or repr (name) in str (e) or name in e.args or name == '', f'the error for {name!r} does not name it: {e!r}')
        return KeyError

def populate (base, entries, make):
    """ entries: {path: 'file'|'dir'|None} """
    for p, kind in entries.items ():
        full = os.path.join (base, p)
        if kind == 'dir':
            os.makedirs (full)
        elif kind == 'file':
            os.makedirs (os.path.dirname (full), exist_ok=True)
            with open (full, 'w') as fd:
                yaml.dump (make ('local ' + p), fd)

class Local (Suite):
    name = 'working-directory'
    bounds = 'layouts and keyboards; 5 packaged or unknown base names; each of NAME, NAME.yaml, NAME.yaml.yaml, .NAME in the working directory a file, a directory or absent; 12 spellings of the name each'
    def cases (self, tier):
        for kind, names in (('layouts', ('ar-lulua', 'null', 'foo', 'ar', 'ibmpc105')), ('keyboards', ('ibmpc105', 'foo', 'ibm', 'ar-lulua'))):
            for n in names:
                for e in itertools.product ((None, 'file', 'dir'), repeat=4):
                    yield (kind, n, e)

    def check (self, case, rec):
        kind, n, e = case
        make, _ = KINDS[kind]
        loader = L.defaultLayouts if kind == 'layouts' else K.defaultKeyboards
        res = {x: kit.dataFile (kind, x[:-5])['name'] for x in os.listdir (os.path.join (kit.DATA, kind)) if x.endswith ('.yaml')}
        entries = dict (zip ((n, n + '.yaml', n + '.yaml.yaml', '.' + n), e))
        with core.Scratch () as d:
            populate (d, entries, make)
            os.mkdir (os.path.join (d, 'sub'))
            populate (os.path.join (d, 'sub'), {n: 'file'}, make)
            with Cwd (d):
                for name in (n, n + '.yaml', n + '.yaml.yaml', '.' + n, './' + n, os.path.join (d, n), os.path.join (d, n + '.yaml'),
                        'sub/' + n, 'sub/' + n + '.yaml', n.upper (), n[:-1], n + '/', n + '.yaml/x', n + '.yml'):
                    want = self.expected (d, name, res, kind)
                    if want is KeyError and os.path.isabs (name) and os.path.isfile (name + '.yaml'):
                        # resources have no absolute path, but it’s the file meant
                        continue
                    for _ in range (2):
                        same (resolve (loader, name), want, f'{kind} {name!r} with {entries} in the working directory')
                        rec.step ()
                    rec.state ((case, name))
                rec.trace ()

    def expected (self, d, name, res, kind):
        p = os.path.join (d, name)
        if os.path.isfile (p) and not name.endswith ('/'):
            return yaml.safe_load (open (p))['name']
        if name + '.yaml' in res:
            return res[name + '.yaml']
        if name in res:
            return res[name]
        # relative to the resources, but the same file
        for x in (name + '.yaml', name):
            q = os.path.normpath (os.path.join ('/', x)).lstrip ('/')
            if q in res and not os.path.isabs (name):
                return res[q] if not x.endswith ('/') else KeyError
        return KeyError

class OddNames (Suite):
    name = 'unusual-local-names'
    bounds = 'local files with 24 unusual names (tilde, dollar, percent, star, spaces, quotes, non-latin, colon, very long): found by exactly this name, nothing is expanded; absent: unknown; every pair of them present'
    NAMES = ['~', '~x', '~root', '$HOME', '$x.yaml', '${x}', '%x%', '*', 'a*.yaml', ' x', 'x y', '"x"', '\u0639\u0631', 'http:x', '-', '-x', 'x'*200, 'x\\y', 'CON', 'a:b', '!x', '#x', '[x]', 'x?']
    def cases (self, tier):
        for kind in KINDS:
            for i, n in enumerate (self.NAMES):
                yield (kind, i)

    def check (self, case, rec):
        kind, i = case
        make, _ = KINDS[kind]
        loader = L.defaultLayouts if kind == 'layouts' else K.defaultKeyboards
        old = dict (os.environ)
        try:
            with core.Scratch () as d, core.Scratch () as home:
                os.environ.update (HOME=home, x='ar-osx')
                populate (home, {'x': 'file', 'x.yaml': 'file'}, make)
                for j in range (len (self.NAMES)):
                    present = {self.NAMES[i], self.NAMES[j]}
                    sub = os.path.join (d, str (j))
                    os.mkdir (sub)
                    populate (sub, {x: 'file' for x in present}, make)
                    with Cwd (sub):
                        for n in self.NAMES:
                            same (resolve (loader, n), f'local {n}' if n in present else KeyError, f'{kind} {n!r} with {sorted (present)} in the working directory')
                            rec.step ()
                    rec.trace ()
        finally:
            os.environ.clear ()
            os.environ.update (old)
        rec.state (case)

class Iterate (Suite):
    name = 'iteration'
    bounds = 'iteration with all contents of the working directory as above, repeated and nested iteration, while other lookups happen'
    def cases (self, tier):
        for kind in KINDS:
            for e in itertools.product ((None, 'file', 'dir'), repeat=3):
                yield (kind, e)

    def check (self, case, rec):
        kind, e = case
        make, _ = KINDS[kind]
        loader = L.defaultLayouts if kind == 'layouts' else K.defaultKeyboards
        files = [x for x in os.listdir (os.path.join (kit.DATA, kind)) if x.endswith ('.yaml') and not x.startswith ('.')]
        want = sorted (str (kit.dataFile (kind, x[:-5])['name']) for x in files)
        n = sorted (files)[0]
        with core.Scratch () as d:
            populate (d, dict (zip ((n, n[:-5], 'zzz.yaml'), e)), make)
            with Cwd (d):
                for _ in range (2):
                    same (sorted (str (x.name) for x in loader), want, f'{kind} with {e} for {n}, {n[:-5]}, zzz.yaml in the working directory')
                # nested iteration
                got = [(str (a.name), str (b.name)) for a in loader for b in loader]
                same (sorted (got), sorted (itertools.product (want, repeat=2)), f'{kind}: nested iteration')
                it = iter (loader)
                next (it)
                resolve (loader, n)
                same (len (list (it)), len (want)-1, f'{kind}: iteration interrupted by a lookup')
                rec.step (len (got))
                rec.state (case)
                rec.trace ()

class Broken (Suite):
    name = 'broken-local-files'
    bounds = 'a file of the name exists in the working directory, but is broken (10 kinds): nothing else is loaded instead; 4 names each, before and after it is repaired'
    BAD = ['name: [unclosed', 'a: b: c', '\t- x', '', '[]', '{}', 'just text', 'name: x\nlayout: 3\nrows: 3\n', '%YAML 9.9\n---\n{}', '&a *b']
    def cases (self, tier):
        for kind in KINDS:
            for bad in self.BAD:
                yield (kind, bad)

    def check (self, case, rec):
        kind, bad = case
        make, _ = KINDS[kind]
        loader = L.defaultLayouts if kind == 'layouts' else K.defaultKeyboards
        base = 'ar-osx' if kind == 'layouts' else 'ibmpc105'
        with core.Scratch () as d, Cwd (d):
            for n in (base, base + '.yaml', 'foo', 'foo.yaml'):
                for content in (bad, None, bad):
                    with open (n, 'w') as fd:
                        if content is None:
                            yaml.dump (make ('mine'), fd)
                        else:
                            fd.write (content)
                    try:
                        got = loader[n].name
                    except Exception as e:
                        need (content is not None, f'{kind} {n!r}: {e!r}')
                    else:
                        need (content is None, f'{kind} {n!r} is {bad!r}, but {got!r} was loaded')
                        same (got, 'mine', f'{kind} {n!r}')
                    rec.step ()
                rec.state ((case, n))
                rec.trace ()

_pkg = 0
class Resources (Suite):
    name = 'packaged-resources'
    bounds = 'copies of the package with every combination of 6 additional entries in the resource directory: hidden file, backup file, file without extension, directory, directory with extension, a file X next to X.yaml; plus names with underscores, dots, spaces, capitals, digits, non-latin letters'
    parallel = True
    ENTRIES = [('.hidden.yaml', 'file'), ('new.yaml~', 'file'), ('plain', 'file'), ('adir', 'dir'), ('new.yaml', 'file'), ('ar-lulua', 'file')]
    def cases (self, tier):
        for mask in range (1 << len (self.ENTRIES)):
            yield mask
        yield 'odd'
    ODD = ['_under.yaml', 'a.b.yaml', 'a.yaml.yaml', 'with space.yaml', 'CAPS.yaml', '0.yaml', '-x.yaml', '\u0639\u0631\u0628\u064a.yaml', 'a.yaml', '~x.yaml', '$HOME.yaml', 'test_x.yaml', 'x~.yaml', '__init__.yaml', '#x.yaml']

    def check (self, case, rec):
        global _pkg
        _pkg += 1
        name = f'luluacopy{os.getpid ()}x{_pkg}'
        with core.Scratch () as d, core.Scratch () as cwd:
            shutil.copytree (os.path.join (core.REPO, 'lulua'), os.path.join (d, name), ignore=shutil.ignore_patterns ('__pycache__', 'test_*', 'report', 'winkbd'))
            base = os.path.join (d, name, 'data', 'layouts')
            # keep it small
            for x in os.listdir (base):
                if x not in ('ar-lulua.yaml', 'null.yaml', 'ar-osx.yaml'):
                    p = os.path.join (base, x)
                    if os.path.isfile (p):
                        os.unlink (p)
            if case == 'odd':
                entries = {p: 'file' for p in self.ODD}
            else:
                entries = {p: k for i, (p, k) in enumerate (self.ENTRIES) if case >> i & 1}
            populate (base, entries, layoutData)
            sys.path.insert (0, d)
            try:
                importlib.invalidate_caches ()
                mod = importlib.import_module (name + '.layout')
                loader = mod.defaultLayouts
                with Cwd (cwd):
                    want = ['ar-lulua', 'null', 'ar-osx']
                    want = [str (kit.dataFile ('layouts', x)['name']) for x in want]
                    want.extend (f'local {x}' for x in entries if x == 'new.yaml' or x in self.ODD)
                    if case == 'odd':
                        for x in self.ODD:
                            # the extension is optional, with it preferred
                            for n, w in ((x[:-5], x), (x, x + '.yaml' if x + '.yaml' in self.ODD else x)):
                                same (resolve (loader, n), f'local {w}', f'{n!r} with {sorted (entries)}')
                                rec.step ()
                    same (sorted (str (x.name) for x in loader), sorted (want), f'iteration with {sorted (entries)}')
                    for n, w in (('ar-lulua', kit.dataFile ('layouts', 'ar-lulua')['name']), ('ar-lulua.yaml', kit.dataFile ('layouts', 'ar-lulua')['name']),
                            ('new', 'local new.yaml' if 'new.yaml' in entries else KeyError), ('plain', 'local plain' if 'plain' in entries else KeyError),
                            ('adir', KeyError), ('nope', KeyError), ('', KeyError)):
                        same (resolve (loader, n), w, f'{n!r} with {sorted (entries)}')
                        rec.step ()
            finally:
                sys.path.remove (d)
                for m in [m for m in sys.modules if m == name or m.startswith (name + '.')]:
                    del sys.modules[m]
                importlib.invalidate_caches ()
            rec.state (case)
            rec.trace ()

class Independent (Suite):
    name = 'independent-objects'
    bounds = 'all histories of 4 (thorough 5) operations: load the same layout or keyboard by three spellings, iterate, change the last object (text, layer, modifier, button width, scancode, row), create, replace and remove a local file of the same name; every load gives the current contents'
    OPS = ('load', 'loadyaml', 'iter', 'change1', 'change2', 'change3', 'create', 'replace', 'remove')
    def cases (self, tier):
        n = 4 if tier == 'quick' else 5
        for kind in KINDS:
            for pre in itertools.product (self.OPS, repeat=2):
                yield (kind, n, pre)

    def check (self, case, rec):
        kind, n, pre = case
        for rest in itertools.product (self.OPS, repeat=n-2):
            with core.Scratch () as d, Cwd (d):
                self.run (kind, tuple (pre) + rest + ('load', ), rec, d)

    def run (self, kind, hist, rec, d):
        make, _ = KINDS[kind]
        loader = L.defaultLayouts if kind == 'layouts' else K.defaultKeyboards
        base = 'ar-osx' if kind == 'layouts' else 'ibmpc105'
        packaged = kit.dataFile (kind, base)
        local = None
        last = None
        objs = []
        for op in hist:
            if op in ('load', 'loadyaml', 'iter'):
                if op == 'load':
                    obj, want = loader[base], local or packaged
                elif op == 'loadyaml':
                    obj, want = loader[base + '.yaml'], packaged
                else:
                    obj, want = [x for x in loader if x.name == packaged['name']][0], packaged
                same (plainOf (kind, obj), plainData (kind, want), f'{kind} {hist}: loaded object')
                need (all (obj is not o for o in objs), f'{kind} {hist}: the same object again')
                objs.append (obj)
                last = obj
            elif op.startswith ('change') and last is not None:
                change (kind, last, op)
            elif op in ('create', 'replace'):
                local = make (f'mine {op}')
                with open (base, 'w') as fd:
                    yaml.dump (local, fd)
            elif op == 'remove' and local is not None:
                os.unlink (base)
                local = None
            rec.step ()
        rec.trace ()
        rec.state ((kind, hist))

def change (kind, o, op):
    if kind == 'layouts':
        if op == 'change1':
            o.layers[0].layout['Dl1'] = 'changed'
        elif op == 'change2':
            o.layers[0].layout.clear ()
        else:
            o.layers[0].modifier.append (frozenset (['Fl_ctrl']))
    else:
        b = next (iter (o.keys ()), None)
        if b is None:
            return
        if op == 'change1':
            b.width = 17
        elif op == 'change2':
            if b.scancode:
                b.scancode['xorg'] = 4711
        else:
            o.rows[0][0].append (b)

def plainOf (kind, o):
    if kind == 'layouts':
        return o.name, [([frozenset (m) for m in l.modifier], dict (l.layout)) for l in o.layers]
    return o.name, [[[(b.name, b.width, repr (sorted ((b.scancode or {}).items ()))) for b in s] for s in row] for row in o]

def plainData (kind, d):
    if kind == 'layouts':
        return d['name'], [([frozenset (m) for m in l['modifier']], dict (l['layer'])) for l in d['layout']]
    scan = lambda s: repr (sorted ((k, tuple (v) if isinstance (v, list) else v) for k, v in (s or {}).items ()))
    return d['name'], [[[(b['name'], b.get ('width', 1), scan (b.get ('scancode'))) for b in s] for s in row] for row in d['rows']]

SUITES = [Local (), OddNames (), Broken (), Iterate (), Resources (), Independent ()]
