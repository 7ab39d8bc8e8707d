#!/usr/bin/env python3
"""
mutate.py [--list] [--workers N] [--files a.py,b.py] OUT.jsonl

Evaluation tool (no check uses it): systematic small changes of every function of
the package. A change that passes the repository's tests is run against the quick
checks of the properties the function belongs to; those not caught are listed in
OUT.jsonl and have to be looked at (equivalent, outside of every property, or a
gap). Resumes OUT.jsonl.
"""
import ast, copy, json, multiprocessing, os, shutil, subprocess, sys, tempfile
V = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
REPO = '/repo'
PROPS = {
 'writer.py': {'': ['C01', 'C02']},
 'stats.py': {'RunlenStats': ['C04', 'C05'], 'SimpleStats': ['C03', 'C05'], 'TriadStats': ['C03', 'C05'], 'WordStats': ['C04', 'C05'],
    'updateDictOp': ['C05'], 'unpickleAll': ['C05'], 'makeCombined': ['C05'], 'combine': ['C05'], '': ['C22']},
 'keyboard.py': {'': ['C16', 'C06', 'C17']},
 'layout.py': {'ButtonCombination': ['C16', 'C06'], 'KeyboardLayout': ['C16', 'C01', 'C02'], 'GenericLayout.fromKlc': ['C21'], 'GenericLayout': ['C16', 'C21'], 'importKlc': ['C21'], 'importFrom': ['C21'], '': ['C16', 'C02', 'C12']},
 'text.py': {'iterchar': [], 'Select': ['C10'], 'HTMLSerializer': ['C10'], 'BrotliFile': ['C09'], 'filterTar': ['C09'], 'filterBrotli': ['C09'], 'mapChars': ['C11'], 'charMap': ['C11'],
    'apply': ['C10', 'C07'], 'writeWorker': ['C07', 'C11', 'C08'], 'statusWorker': ['C07', 'C08'], 'write': ['C07', 'C08'], '': ['C10']},
 'carpalx.py': {'Carpalx': ['C13', 'C12'], '': ['C12']},
 'optimize.py': {'Annealer': ['C14'], '': ['C15']},
 'plot.py': {'': ['C22']},
 'report.py': {'': ['C23']},
 'util.py': {'YamlLoader': ['C17'], 'displayText': ['C24'], 'limit': ['C22'], '': ['C16']},
 'render.py': {'Renderer': ['C20'], 'renderSvg': ['C20'], 'renderWinKbd': ['C19'], 'unique': ['C18', 'C19'], 'render': ['C18', 'C20', 'C19'], '': ['C18']},
 'winkbd.py': {'': ['C19']},
}
SKIPFUNC = {'__repr__', 'setPlotStyle'}

def props (f, qual):
    m = PROPS[f]
    best = max ((k for k in m if qual == k or k == '' or qual.startswith (k + '.')), key=len)
    return m[best]

class Collect (ast.NodeVisitor):
    """ all mutation points: list of (qualname, lineno, description, function mutating a tree) """
    def __init__ (self):
        self.out, self.stack, self.path = [], [], []

    def add (self, node, desc, fn):
        self.out.append ((('.'.join (self.stack)), getattr (node, 'lineno', 0), desc, list (self.path), fn))

    def visit (self, node):
        scope = isinstance (node, (ast.FunctionDef, ast.ClassDef))
        if scope:
            if node.name in SKIPFUNC:
                return
            self.stack.append (node.name)
        elif isinstance (node, ast.Assign) and not self.stack and isinstance (node.targets[0], ast.Name):
            self.stack.append (node.targets[0].id)
            scope = True
        self.points (node)
        for name, value in ast.iter_fields (node):
            if name in ('annotation', 'returns', 'decorator_list', 'type_comment'):
                continue
            if isinstance (value, list):
                for i, v in enumerate (value):
                    if isinstance (v, ast.AST):
                        self.path.append ((name, i))
                        if not self.skip (v, name, i, node):
                            self.visit (v)
                        self.path.pop ()
            elif isinstance (value, ast.AST):
                self.path.append ((name, None))
                if not self.skip (value, name, None, node):
                    self.visit (value)
                self.path.pop ()
        if scope:
            self.stack.pop ()

    def skip (self, v, name, i, parent):
        if isinstance (v, (ast.Import, ast.ImportFrom, ast.Assert, ast.AnnAssign)) and not (isinstance (v, ast.AnnAssign) and v.value is not None):
            return True
        if isinstance (v, ast.Expr):
            if isinstance (v.value, ast.Constant):
                return True
            if isinstance (v.value, ast.Call):
                s = ast.unparse (v.value.func)
                if s.startswith ('logging.') or s.endswith ('add_argument') or s.endswith ('set_description'):
                    return True
        if isinstance (v, ast.Assign) and '__slots__' in ast.unparse (v.targets[0]):
            return True
        return False

    def points (self, n):
        if isinstance (n, ast.Compare) and len (n.ops) == 1:
            m = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
            for o in m[type (n.ops[0])]:
                self.add (n, f'{ast.unparse (n)} -> {o.__name__}', lambda x, o=o: x.ops.__setitem__ (0, o ()))
        elif isinstance (n, ast.BoolOp):
            self.add (n, f'{ast.unparse (n)} -> and/or', lambda x: setattr (x, 'op', ast.Or () if isinstance (x.op, ast.And) else ast.And ()))
            for i in range (len (n.values)):
                self.add (n, f'{ast.unparse (n)} -> drop operand {i}', lambda x, i=i: x.values.pop (i))
        elif isinstance (n, ast.UnaryOp) and isinstance (n.op, ast.Not):
            self.add (n, f'{ast.unparse (n)} -> without not', lambda x: setattr (x, 'operand', ast.UnaryOp (ast.Not (), x.operand)))
        elif isinstance (n, ast.BinOp):
            m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.LShift: ast.Add}
            if type (n.op) in m and not isinstance (n.left, ast.JoinedStr):
                self.add (n, f'{ast.unparse (n)} -> {m[type (n.op)].__name__}', lambda x: setattr (x, 'op', m[type (x.op)] ()))
        elif isinstance (n, ast.AugAssign):
            self.add (n, f'{ast.unparse (n)} -> =', lambda x: setattr (x, 'op', ast.Sub () if isinstance (x.op, ast.Add) else ast.Add ()))
        elif isinstance (n, ast.Constant):
            v = n.value
            if isinstance (v, bool):
                self.add (n, f'{v} -> {not v}', lambda x: setattr (x, 'value', not x.value))
            elif isinstance (v, int):
                for d in (1, -1):
                    self.add (n, f'{v} -> {v+d}', lambda x, d=d: setattr (x, 'value', x.value+d))
            elif isinstance (v, float):
                self.add (n, f'{v} -> *1.5+0.1', lambda x: setattr (x, 'value', x.value*1.5+0.1))
            elif isinstance (v, str):
                self.add (n, f'{v!r} -> other', lambda x: setattr (x, 'value', x.value + 'x'))
            elif isinstance (v, bytes):
                self.add (n, f'{v!r} -> other', lambda x: setattr (x, 'value', x.value + b'x'))
        elif isinstance (n, ast.Subscript) and isinstance (n.slice, ast.Slice):
            for w in ('lower', 'upper'):
                if getattr (n.slice, w) is not None:
                    self.add (n, f'{ast.unparse (n)} -> no {w}', lambda x, w=w: setattr (x.slice, w, None))
        elif isinstance (n, ast.Call):
            if len (n.args) == 2 and not any (isinstance (a, ast.Starred) for a in n.args):
                self.add (n, f'{ast.unparse (n)} -> swap', lambda x: x.args.reverse ())
            for i, k in enumerate (n.keywords):
                if k.arg is not None:
                    self.add (n, f'{ast.unparse (n)} -> no {k.arg}', lambda x, i=i: x.keywords.pop (i))
        elif isinstance (n, ast.IfExp):
            self.add (n, f'{ast.unparse (n)} -> other', lambda x: (setattr (x, 'test', ast.UnaryOp (ast.Not (), x.test))))
        elif isinstance (n, (ast.If, ast.While)) and not isinstance (n.test, (ast.Compare, ast.BoolOp, ast.Constant)):
            self.add (n, f'if {ast.unparse (n.test)} -> not', lambda x: setattr (x, 'test', ast.UnaryOp (ast.Not (), x.test)))
        elif isinstance (n, ast.Dict) and len (n.keys) > 1:
            for i in range (len (n.keys)):
                self.add (n, f'dict without {ast.unparse (n.keys[i]) if n.keys[i] else "**"}', lambda x, i=i: (x.keys.pop (i), x.values.pop (i)))
        elif isinstance (n, (ast.List, ast.Tuple, ast.Set)) and len (n.elts) > 2 and isinstance (getattr (n, 'ctx', ast.Load ()), ast.Load):
            for i in range (len (n.elts)):
                self.add (n, f'sequence {ast.unparse (n)[:60]} without {i}', lambda x, i=i: x.elts.pop (i))
        # statements
        if isinstance (n, ast.Expr) or isinstance (n, (ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Delete)) or (isinstance (n, ast.Assign) and isinstance (n.targets[0], (ast.Attribute, ast.Subscript))):
            self.add (n, f'{ast.unparse (n)[:100]} -> pass', 'pass')
        if isinstance (n, ast.Return) and n.value is not None and not isinstance (n.value, ast.Constant):
            self.add (n, f'{ast.unparse (n)[:100]} -> None', lambda x: setattr (x, 'value', ast.Constant (None)))

def resolve (tree, path):
    parent, last = None, None
    n = tree
    for name, i in path:
        parent, last = n, (name, i)
        n = getattr (n, name)
        if i is not None:
            n = n[i]
    return parent, last, n

def mutants (f):
    src = open (os.path.join (REPO, 'lulua', f)).read ()
    tree = ast.parse (src)
    c = Collect ()
    c.visit (tree)
    base = ast.unparse (tree)
    # large tables: every tenth entry only
    count = {}
    for k, (qual, line, desc, path, fn) in enumerate (c.out):
        p = props (f, qual)
        if not p:
            continue
        big = (f == 'winkbd.py' and qual in ('vkval', 'VirtualKey', 'VirtualKeyFlag', 'WChar', 'qwertyScancodeToVk', 'qwertyScancodeToName', 'vkToBitsTable', 'typedefs')) or (f == 'carpalx.py' and qual == 'models') or (f == 'render.py' and qual == 'render') or qual in ('main', 'render.letterNames')
        if qual in ('defaultFingermap', 'GenericLayout.fromKlc'):
            count[qual] = count.get (qual, 0) + 1
            if count[qual] % 4 != 1 and line < 320:
                continue
        if big:
            count[qual] = count.get (qual, 0) + 1
            if count[qual] % 12 != 5:
                continue
        t = copy.deepcopy (tree)
        parent, (name, i), n = resolve (t, path)
        if fn == 'pass':
            getattr (parent, name)[i] = ast.copy_location (ast.Pass (), n)
        else:
            fn (n)
        try:
            s = ast.unparse (ast.fix_missing_locations (t))
        except Exception:
            continue
        if s == base:
            continue
        yield f'{f}:{line}:{k}', qual, desc, p, s

def worker (wid, inq, outq, jobs):
    work = tempfile.mkdtemp (prefix='mut-')
    repo, ev = os.path.join (work, 'repo'), os.path.join (work, 'verif')
    subprocess.check_call (['cp', '-a', REPO, repo])
    shutil.copytree (V, ev, ignore=shutil.ignore_patterns ('.git', 'evidence', 'seeded'))
    env = dict (os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=repo, VERIF_JOBS=str (jobs))
    while True:
        item = inq.get ()
        if item is None:
            break
        mid, qual, desc, p, src = item
        f = mid.split (':')[0]
        path = os.path.join (repo, 'lulua', f)
        orig = open (os.path.join (REPO, 'lulua', f)).read ()
        r = dict (id=mid, qual=qual, desc=desc, props=p)
        try:
            open (path, 'w').write (src)
            def run (cmd, limit, **kw):
                try:
                    x = subprocess.run (cmd, capture_output=True, text=True, timeout=limit, env=dict (env, **kw.pop ('env', {})), **kw)
                    return x.returncode, x.stdout + x.stderr
                except subprocess.TimeoutExpired:
                    return 'timeout', ''
            r['result'] = 'SURVIVED'
            for x in p:
                rc, out = run (['python3', 'check.py', x, 'quick'], 600, cwd=ev)
                if rc == 1:
                    r['result'] = x
                    break
                elif rc != 0:
                    r['result'] = f'BROKEN {x} {rc} {out[-300:]}'
                    break
            if not r['result'].startswith ('C'):
                rc, out = run (['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'addopts=', 'lulua'], 120, cwd=repo, env=dict (PYTHONPATH=repo))
                if rc != 0:
                    r['result'] = 'tests ' + r['result']
        finally:
            open (path, 'w').write (orig)
        outq.put (r)
    shutil.rmtree (work)

def main ():
    args = sys.argv[1:]
    files = sorted (PROPS)
    n = 3
    if '--files' in args:
        i = args.index ('--files'); files = args[i+1].split (','); del args[i:i+2]
    if '--workers' in args:
        i = args.index ('--workers'); n = int (args[i+1]); del args[i:i+2]
    only = None
    if '--ids' in args:
        i = args.index ('--ids'); only = set (args[i+1].split (',')); del args[i:i+2]
    if '--list' in args:
        for f in files:
            k = 0
            for m in mutants (f):
                k += 1
                if only is None or m[0] in only:
                    print (m[:4]) if '-v' in args or only else None
            print (f, k)
        return
    out = args[0]
    done = set ()
    if os.path.exists (out):
        done = {json.loads (l)['id'] for l in open (out)}
    inq, outq = multiprocessing.Queue (20), multiprocessing.Queue ()
    ps = [multiprocessing.Process (target=worker, args=(i, inq, outq, 2)) for i in range (n)]
    for p in ps: p.start ()
    import threading
    total = [0]
    def feed ():
        todo = [m for f in files for m in mutants (f) if m[0] not in done and (only is None or m[0] in only)]
        import random
        random.Random (1).shuffle (todo)
        for m in todo:
            total[0] += 1
            inq.put (m)
        for p in ps: inq.put (None)
    t = threading.Thread (target=feed); t.start ()
    got = 0
    while t.is_alive () or got < total[0]:
        try:
            r = outq.get (timeout=5)
        except Exception:
            continue
        got += 1
        with open (out, 'a') as fd:
            fd.write (json.dumps (r, ensure_ascii=False) + '\n')
    for p in ps: p.join ()

if __name__ == '__main__':
    main ()
