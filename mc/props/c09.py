""" C09: Brotli and tar containers """
import io, itertools, os, random, tarfile
import brotli
from .. import kit, core
from ..core import Suite, Violation, need, same, words, Scratch
from lulua import text as T

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of read-size histories, chunk sizes, short-read patterns, truncation points and byte corruptions of Brotli streams, and of all sequences of tar members, on the real readers; oracle: the original bytes / member list'
RULE = 'a case is a payload (or member list) with a chunking; all read-size histories within the bound are run on a fresh reader; every (payload, chunking, history prefix) is distinct'
ASSUMPTIONS = ['the brotli library itself is correct; corrupt streams are judged by feeding the same bytes to its streaming decoder',
    'tar archives are in GNU format (what the tar command writes by default)']

class Fd:
    """ underlying file: returns at most the next listed amount per read """
    def __init__ (self, data, sizes=None):
        self.data, self.pos, self.sizes, self.i = data, 0, sizes, 0
        self.eofs = 0

    def read (self, n=-1):
        if n is None or n < 0:
            n = len (self.data)
        if n and self.sizes:
            n = min (n, self.sizes[self.i % len (self.sizes)])
            self.i += 1
        out = self.data[self.pos:self.pos+n]
        self.pos += len (out)
        if not out and n:
            self.eofs += 1
            if self.eofs > 1000:
                raise Violation ('keeps reading after the end of the file')
        return out

def payloads ():
    rng = random.Random (1)
    noise = bytes (rng.randrange (256) for _ in range (5000))
    yield 'empty', b''
    yield 'one', b'x'
    yield 'zero', b'\0'
    yield 'three', b'abc'
    yield 'five', b'a\0\xffbc'
    yield 'repeat', b'a'*3000
    yield 'noise', noise
    yield 'mixed', (b'\xd8\xa7\xd9\x84'*400 + noise[:700])*3

P = dict (payloads ())

def reader (comp, chunk, sizes):
    fd = Fd (comp, sizes)
    return T.BrotliFile (fd) if chunk is None else T.BrotliFile (fd, chunk)

class Histories (Suite):
    name = 'read-histories'
    bounds = 'payloads of 0..5 bytes: all histories of up to 6 (thorough 7) reads of sizes 0,1,2,3,5,100 or everything, two more reads after the end; every chunk size from 1 to the stream length and the default; the file returns 1, 2 or all bytes per read'
    def cases (self, tier):
        for name in ('empty', 'one', 'zero', 'three', 'five'):
            comp = brotli.compress (P[name])
            for chunk in list (range (1, len (comp)+2)) + [None]:
                for sizes in (None, (1, ), (2, )):
                    yield (tier, name, chunk, sizes)

    def check (self, case, rec):
        tier, name, chunk, sizes = case
        data = P[name]
        comp = brotli.compress (data)
        n = 4 if tier == 'quick' else 5
        for hist in words ((0, 1, 2, 3, 5, 100, None), n, 1):
            if 0 in hist[1:] and hist.count (0) > 1:
                continue
            f = reader (comp, chunk, sizes)
            pos = 0
            for k in hist + (3, None):
                got = f.read () if k is None else f.read (k)
                want = data[pos:] if k is None else data[pos:pos+k]
                if got != want:
                    raise Violation (f'{name}, chunk {chunk}, file reads {sizes}: read sizes {hist}: read ({k}) at {pos} returned {got!r}, expected {want!r}')
                pos += len (want)
                rec.step ()
            rec.trace ()
            rec.state ((name, chunk, sizes, hist))

class Large (Suite):
    name = 'large-payloads'
    bounds = 'compressible, incompressible and mixed payloads up to 7 kB: all periodic read patterns with periods of up to 3 sizes out of 1,2,17,1000,4096,everything (1 only once per period); chunk sizes 1,2,3,7,64,1000,default; compression windows and qualities; file returns 1, 5 or all bytes per read'
    def cases (self, tier):
        for name in ('repeat', 'noise', 'mixed'):
            for q in ((1, 11) if tier == 'quick' else range (12)):
                for chunk in (1, 2, 3, 7, 64, 1000, None):
                    for sizes in (None, (1, ), (5, 1)):
                        yield (name, q, chunk, sizes)

    def check (self, case, rec):
        name, q, chunk, sizes = case
        data = P[name]
        comp = brotli.compress (data, quality=q)
        for pat in words ((1, 2, 17, 1000, 4096, None), 3, 1):
            if sum (x in (1, 2) for x in pat) == len (pat) and len (data) > 1000 and not (pat == (1, 2)):
                continue
            f = reader (comp, chunk, sizes)
            pos = 0
            for k in itertools.cycle (pat):
                got = f.read () if k is None else f.read (k)
                want = data[pos:] if k is None else data[pos:pos+k]
                if got != want:
                    raise Violation (f'{name} quality {q} chunk {chunk} file reads {sizes}: read pattern {pat}: read ({k}) at {pos} returned {len (got)} bytes, expected {len (want)}')
                pos += len (want)
                rec.step ()
                if not want:
                    break
            rec.trace ()
            rec.state ((case, pat))

class Huge (Suite):
    name = 'huge-payloads'
    bounds = 'incompressible and compressible payloads of 99 to 400 kB (thorough 2 MB), i.e. below, at and above the default chunk size, and compressible ones of 5 and 50 (thorough 210) MB read at once after up to one smaller read: all periodic read patterns with periods of up to 2 sizes out of 100, 512, 102400, 102401, 300000, everything (thorough 3); default chunk size, and the same file as delivered by the filter'
    def payload (self, n, kind):
        x, out = 1, []
        for i in range (n if kind == 'noise' else 1000):
            x = (x*1103515245+12345) & 0x7fffffff
            out.append (x >> 16 & 0xff)
        return (bytes (out) * (n//len (out)+1))[:n]

    def cases (self, tier):
        sizes = [99000, 102390, 102400, 102410, 204800, 400000] + ([2000000] if tier != 'quick' else [])
        for n in sizes:
            for kind in ('noise', 'period'):
                yield (tier, n, kind)
        # megabytes out of a single chunk
        for n in (5 << 20, 48 << 20) if tier == 'quick' else (5 << 20, 48 << 20, 200 << 20):
            yield (tier, n, 'period')

    def check (self, case, rec):
        tier, n, kind = case
        data = self.payload (n, kind)
        comp = brotli.compress (data, quality=1)
        for pat in words ((100, 512, 102400, 102401, 300000, None), 2 if tier == 'quick' else 3, 1):
            if sum (x in (100, 512) for x in pat) == len (pat) and pat != (512, ):
                continue
            if n > 4000000 and pat not in ((None, ), (512, None), (300000, None), (102401, None)):
                continue
            for how in ('class', 'filter'):
                fs = [T.BrotliFile (io.BytesIO (comp))] if how == 'class' else list (T.filterAvail['brotli'] (io.BytesIO (comp)))
                need (len (fs) == 1, 'brotli reader delivers one file per file')
                pos = 0
                for k in itertools.cycle (pat):
                    got = fs[0].read () if k is None else fs[0].read (k)
                    want = data[pos:] if k is None else data[pos:pos+k]
                    if got != want:
                        raise Violation (f'{kind} payload of {n} bytes ({len (comp)} compressed), {how}: read pattern {pat}: read ({k}) at {pos} returned {len (got)} bytes, expected {len (want)}')
                    pos += len (want)
                    rec.step ()
                    if not want:
                        break
                rec.trace ()
                rec.state ((case, pat, how))

class TarHuge (Suite):
    name = 'tar-huge-members'
    bounds = 'a member of 8^k-1, 8^k, 8^k+1 bytes for k up to 8 (thorough 9, i.e. 134 MB) between two small members'
    def cases (self, tier):
        for k in range (1, 9 if tier == 'quick' else 10):
            for d in (-1, 0, 1):
                yield 8**k+d

    def check (self, n, rec):
        fd = io.BytesIO ()
        tar = tarfile.open (fileobj=fd, mode='w', format=tarfile.GNU_FORMAT)
        big = (b'0123456789a' * (n//11+1))[:n]
        for i, d in enumerate ((b'first', big, b'last')):
            t = tarfile.TarInfo (f'm{i}')
            t.size = len (d)
            tar.addfile (t, io.BytesIO (d))
        tar.close ()
        fd.seek (0)
        got = [x.read () for x in T.filterAvail['tar'] (fd)]
        if got != [b'first', big, b'last']:
            raise Violation (f'tar with a member of {n} bytes: lengths {list (map (len, got))}')
        rec.step (3)
        rec.trace ()
        rec.state (n)

def decode (comp):
    """ reference: (all data decoded before, finished?) """
    d = brotli.Decompressor ()
    out = b''
    for i in range (len (comp)):
        try:
            out += d.process (comp[i:i+1])
        except brotli.error:
            return out, False
        if d.is_finished ():
            return out, True
    return out, d.is_finished ()

class Broken (Suite):
    name = 'truncated-and-corrupt'
    bounds = 'every truncation point of every payload up to 7 kB (several qualities), every single byte replaced by every value for streams up to 12 bytes and by 5 (thorough all) values otherwise (first 200 bytes); read sizes 1, 3, 1000 and everything, chunk sizes 1, 7 and default; also as context manager and below the tar and text readers'
    def cases (self, tier):
        for name, data in P.items ():
            for q in (1, 11):
                comp = brotli.compress (data, quality=q)
                step = 1 if len (comp) < 500 or tier != 'quick' else 37
                for cut in range (0, len (comp), step):
                    yield ('cut', name, q, cut, None)
                for i in range (min (len (comp), 200 if tier == 'quick' else 1000)):
                    vals = range (256) if len (comp) <= 12 or tier != 'quick' else (0, 255, comp[i] ^ 1, comp[i] ^ 0x80, (comp[i]+1) & 255)
                    for v in sorted (set (vals) - {comp[i]}):
                        yield ('flip', name, q, i, v)

    def check (self, case, rec):
        kind, name, q, i, v = case
        comp = brotli.compress (P[name], quality=q)
        comp = comp[:i] if kind == 'cut' else comp[:i] + bytes ([v]) + comp[i+1:]
        ref, finished = decode (comp)
        for size in (None, 1, 3, 1000):
            if size in (1, 3) and len (ref) > 300:
                continue
            for chunk in (1, 7, None):
                f = reader (comp, chunk, None)
                out, err = b'', None
                try:
                    while True:
                        x = f.read () if size is None else f.read (size)
                        if not x:
                            break
                        out += x
                        if len (out) > len (ref):
                            break
                except Exception as e:
                    if isinstance (e, Violation):
                        raise
                    err = e
                rec.step ()
                where = f'{case}, read size {size}, chunk {chunk}'
                need (ref.startswith (out), lambda: f'{where}: invented data {out[:50]!r}, decodable is {ref[:50]!r}')
                if err is None:
                    need (finished, lambda: f'{where}: incomplete stream accepted without error, {len (out)} bytes')
                    same (out, ref, where)
        rec.trace ()
        rec.state (case)
        if kind == 'cut':
            # nothing on the way hides the error
            for mode in ('with', 'text'):
                try:
                    if mode == 'with':
                        with T.BrotliFile (io.BytesIO (comp)) as f:
                            f.read ()
                    else:
                        list (T.apply ([T.filterAvail['brotli'], T.filterAvail['text']], [io.BytesIO (comp)]))
                except Exception:
                    pass
                else:
                    raise Violation (f'{case}: truncated stream ({mode}) is not reported')
                rec.step ()

KINDS = ['f0', 'f1', 'f511', 'f512', 'f513', 'f1500', 'dir', 'sym', 'hard', 'long', 'longdir', 'longlink', 'fifo', 'dev', 'old', 'big']

def member (tar, kind, i):
    """ add a member, return contents or None """
    name = f'm{i}'
    if kind in ('long', 'longdir'):
        name = f'd{i}/' + 'n'*150 + '\u0627'
    t = tarfile.TarInfo (name)
    t.mtime = 1234567890+i
    t.uname, t.gname = 'lulua', 'users'
    if kind[0] == 'f' and kind[1:].isdigit () or kind in ('long', 'big', 'old'):
        n = int (kind[1:]) if kind[1:].isdigit () else 700 if kind in ('long', 'old') else 200000
        data = bytes ((i*7+j*13) % 251 for j in range (n))
        t.size = n
        if kind == 'old':
            t.type = tarfile.AREGTYPE
        tar.addfile (t, io.BytesIO (data))
        return data if n else None
    t.type = dict (dir=tarfile.DIRTYPE, longdir=tarfile.DIRTYPE, sym=tarfile.SYMTYPE, hard=tarfile.LNKTYPE, longlink=tarfile.SYMTYPE, fifo=tarfile.FIFOTYPE, dev=tarfile.CHRTYPE)[kind]
    if kind in ('sym', 'hard'):
        t.linkname = 'm0'
    if kind == 'longlink':
        t.linkname = 'x'*180
    tar.addfile (t)
    return None

def makeTar (kinds, end=True):
    fd = io.BytesIO ()
    tar = tarfile.open (fileobj=fd, mode='w', format=tarfile.GNU_FORMAT)
    want = []
    for i, k in enumerate (kinds):
        d = member (tar, k, i)
        if d is not None:
            want.append (d)
    size = tar.offset
    tar.close ()
    data = fd.getvalue ()
    if not end:
        data = data[:size]
    return data, want

class Tar (Suite):
    name = 'tar-members'
    bounds = 'all sequences of up to 3 (thorough 4) members out of 16 kinds (regular files, also of the old type, of 0, 1, 511, 512, 513, 1500, 200000 bytes, directories, links, long names and link targets, fifo, device), read from a file and through the Brotli reader (chunk sizes 1000 and default), with and without end-of-archive blocks'
    def cases (self, tier):
        n = 3 if tier == 'quick' else 4
        for k in range (n+1):
            for t in itertools.product (KINDS, repeat=k):
                if t.count ('big') <= 1 and (k < 4 or 'big' not in t):
                    yield t

    def check (self, case, rec):
        tarf = T.filterAvail['tar']
        for end in (True, False):
            data, want = makeTar (case, end)
            got = [x.read () for x in tarf (io.BytesIO (data))]
            self.compare (case, got, want, 'file')
            rec.step (len (case)+1)
            if end and 'big' not in case:
                comp = brotli.compress (data, quality=1)
                for chunk in (1000, None):
                    f = T.BrotliFile (io.BytesIO (comp), chunk) if chunk else next (iter (T.filterAvail['brotli'] (io.BytesIO (comp))))
                    # the items are consumed one after the other, and also all at once
                    got = [x.read () for x in tarf (f)]
                    self.compare (case, got, want, f'brotli chunk {chunk}')
                    rec.step (len (case)+1)
        late = [x for x in tarf (io.BytesIO (data))]
        self.compare (case, [x.read () for x in late], want, 'all members collected first')
        rec.trace ()
        rec.state (case)

    def compare (self, case, got, want, how):
        if got != want:
            raise Violation (f'tar with {case} read from {how}: lengths {list (map (len, got))} instead of {list (map (len, want))}' if list (map (len, got)) != list (map (len, want)) else f'tar with {case} read from {how}: contents differ')

class Pipeline (Suite):
    name = 'pipeline'
    bounds = 'all pairs of archives out of 20 (thorough 60) as compressed files through the filters file, brotli, tar, text: every text once, in order'
    def cases (self, tier):
        pool = [t for k in (0, 1, 2) for t in itertools.product (('f0', 'f1', 'f512', 'dir', 'long', 'f1500', 'sym')[:4 if tier == 'quick' else 7], repeat=k)][:21 if tier == 'quick' else 60]
        for a in pool:
            yield (a, pool)

    def check (self, case, rec):
        a, pool = case
        F = T.filterAvail
        with Scratch () as tmp:
            def mk (name, kinds, shift):
                fd = io.BytesIO ()
                tar = tarfile.open (fileobj=fd, mode='w', format=tarfile.GNU_FORMAT)
                want = []
                for i, k in enumerate (kinds):
                    t = tarfile.TarInfo (('x'*200 if k == 'long' else '') + f'{i}')
                    if k in ('dir', 'sym'):
                        t.type = tarfile.DIRTYPE if k == 'dir' else tarfile.SYMTYPE
                        t.linkname = 'x' if k == 'sym' else ''
                        tar.addfile (t)
                        continue
                    n = 300 if k == 'long' else int (k[1:])
                    text = ''.join (chr (0x627+(i+j+shift) % 20) for j in range (n))
                    raw = text.encode ('utf-8')
                    t.size = len (raw)
                    tar.addfile (t, io.BytesIO (raw))
                    if n:
                        want.append (text)
                tar.close ()
                p = os.path.join (tmp, name)
                with open (p, 'wb') as o:
                    o.write (brotli.compress (fd.getvalue (), quality=1))
                return p, want
            pa, wa = mk ('a.tar.br', a, 0)
            for b in pool:
                pb, wb = mk ('b.tar.br', b, 5)
                got = list (T.apply ([F['file'], F['brotli'], F['tar'], F['text']], [pa + '\n', pb + '\n']))
                if got != wa+wb:
                    raise Violation (f'archives {a} and {b}: {len (got)} texts of lengths {list (map (len, got))}, expected {list (map (len, wa+wb))}')
                rec.step (2)
                rec.trace ()
                rec.state ((a, b))

class TarNames (Suite):
    name = 'tar-names'
    bounds = 'regular files with each of 30 peculiar names (hidden, white space, absolute, parent directories, trailing slash-like, control characters, names used by archivers for their own members, exactly 99, 100 and 101 bytes, empty), alone, doubled and between two others; owner, mode, time and device fields at their limits'
    NAMES = ['.hidden', '._x', '../up', '/abs', './x', 'a b', ' lead', 'trail ', 'x\ny', '\u0627\u0644', '././@LongLink', './PaxHeaders.1/x', 'PaxHeaders/x', 'pax_global_header', '__MACOSX/._x',
        'x.tmp', 'x~', '#x#', 'README', 'index.html', 'x.br', 'x.tar', 'a/'*40 + 'x', 'n'*99, 'n'*100, 'n'*101, 'GNUSparseFile.0/x', 'ustar  ', '0', '']
    def header (self, name, n, **fields):
        t = tarfile.TarInfo (name)
        t.size = n
        for k, v in fields.items ():
            setattr (t, k, v)
        return t.tobuf (tarfile.GNU_FORMAT)

    def cases (self, tier):
        for i in range (len (self.NAMES)):
            yield ('name', i)
        for i, f in enumerate ([dict (mode=0), dict (mode=0o7777), dict (mtime=0), dict (mtime=8**11-1), dict (uid=0o7777777, gid=0), dict (uname='\u0627', gname=''), dict (uname='x'*31), dict (linkname='y')]):
            yield ('field', f)

    def check (self, case, rec):
        kind, x = case
        body = lambda i: bytes ((i*31+j*7) % 251 for j in range (300+i))
        def file (i, name, **fields):
            d = body (i)
            return self.header (name, len (d), **fields) + d + bytes (-len (d) % 512)
        mine = (lambda i: file (i, self.NAMES[x])) if kind == 'name' else (lambda i: file (i, 'f', **x))
        for plan in ((1, ), (1, 1), (0, 1, 0), (1, 0, 1)):
            data = b''.join (mine (i) if k else file (i, f'm{i}') for i, k in enumerate (plan)) + bytes (1024)
            got = [f.read () for f in T.filterAvail['tar'] (io.BytesIO (data))]
            want = [body (i) for i in range (len (plan))]
            need (got == want, f'tar with {case} at {plan}: contents of lengths {list (map (len, got))}, expected {list (map (len, want))}')
            rec.step (len (plan))
            rec.trace ()
        rec.state (case)

class TarContents (Suite):
    name = 'tar-contents'
    bounds = 'all archives of up to 3 members out of 14 contents which look like padding, the end of the archive, a header or another archive'
    def contents (self):
        inner, _ = makeTar (('f1', 'f513'))
        head = tarfile.TarInfo ('x').tobuf (tarfile.GNU_FORMAT)
        return [bytes (1), bytes (511), bytes (512), bytes (513), bytes (1024), bytes (2048), b'a' + bytes (1023), b'a'*512 + bytes (1024), bytes (512) + b'a', bytes (1500) + b'a' + bytes (600),
            head, head + b'x', inner, b'\x80'*700]

    def cases (self, tier):
        for k in range (1, 4):
            yield from itertools.product (range (14), repeat=k)

    def check (self, case, rec):
        cs = self.contents ()
        want = [cs[i] for i in case]
        fd = io.BytesIO ()
        with tarfile.open (fileobj=fd, mode='w', format=tarfile.GNU_FORMAT) as tar:
            for i, d in enumerate (want):
                t = tarfile.TarInfo (f'm{i}')
                t.size = len (d)
                tar.addfile (t, io.BytesIO (d))
        data = fd.getvalue ()
        got = [f.read () for f in T.filterAvail['tar'] (io.BytesIO (data))]
        need (got == want, lambda: f'tar with contents {case}: contents of lengths {list (map (len, got))}, expected {list (map (len, want))}')
        rec.step (len (case))
        rec.trace ()
        rec.state (case)

class TarTruncated (Suite):
    name = 'tar-truncated'
    bounds = 'all archives of up to 2 members out of 8 kinds, cut off at every position (members of more than 1500 bytes: every 97th): files before the cut are delivered completely, an incomplete one is never delivered and reported as an error; as a file and through the Brotli reader'
    KINDS = ['f1', 'f511', 'f512', 'f513', 'dir', 'sym', 'long', 'f0']
    def cases (self, tier):
        for k in (1, 2):
            yield from itertools.product (self.KINDS, repeat=k)
        yield ('f1500', 'f1500')
        yield ('big', )

    def check (self, case, rec):
        data, want = makeTar (case)
        # where headers start, contents end
        spans = []
        with tarfile.open (fileobj=io.BytesIO (data)) as tar:
            for m in tar:
                if m.isreg () and m.size:
                    spans.append ((m.offset_data-512, m.offset_data+m.size))
        step = 1 if len (data) < 13000 else 97
        for cut in range (0, len (data), step):
            part = data[:cut]
            whole = [d for d, (a, b) in zip (want, spans) if b <= cut]
            inside = any (a < cut < b for a, b in spans)
            for how in ('file', 'brotli') if cut % 16 == 0 else ('file', ):
                fd = io.BytesIO (part) if how == 'file' else T.BrotliFile (io.BytesIO (brotli.compress (part, quality=0)))
                got, err = [], None
                try:
                    for x in T.filterAvail['tar'] (fd):
                        got.append (x.read ())
                except Exception as e:
                    err = e
                need (got == whole, lambda: f'tar with {case} cut off at {cut} ({how}): delivers contents of lengths {list (map (len, got))}, complete are {list (map (len, whole))}')
                need (err is not None or not inside, lambda: f'tar with {case} cut off at {cut} ({how}), within a file: not reported')
                rec.step ()
        rec.trace ()
        rec.state (case)

SUITES = [TarTruncated (), TarNames (), TarContents (), Histories (), Large (), Huge (), TarHuge (), Broken (), Tar (), Pipeline ()]
