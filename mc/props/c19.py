""" C19: Windows driver """
import collections, itertools, json, os, subprocess, unicodedata
import yaml
from .. import kit, ref, core, refexport as X
from ..core import Suite, Violation, need, same, words
from lulua import render as R, winkbd as WK

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of layouts (characters and empty positions at every key and layer); the generated driver source is compiled with the C compiler, its tables are read back from the running binary and evaluated like Windows does, for every scancode and all sets of held modifier keys'
RULE = 'states are (layout, scancode, held modifiers); transitions are evaluations compared with the layout'
ASSUMPTIONS = ['wchar_t has 16 bits, tables are evaluated as documented for kbd.h (modifier bits, SHFT_INVALID, WCH_NONE)', 'layouts have the modifiers of ar-lulua, the only layout the command supports']

DUMP = r'''
#include <stdio.h>
#include "keyboard.c"
static void bytes (const char *n, const void *p, unsigned long len) { printf ("T %s %lx %lu\n", n, (unsigned long) p, len); }
int main () {
    PKBDTABLES t = KbdLayerDescriptor ();
    unsigned long i, j, k;
    for (i = 0; i < t->bMaxVSCtoVK; i++) printf ("V %lx %x\n", i, t->pusVSCtoVK[i]);
    bytes ("vk", t->pusVSCtoVK, i*sizeof (*t->pusVSCtoVK));
    for (i = 0; i < 1000 && (t->pVSCtoVK_E0[i].Vsc || t->pVSCtoVK_E0[i].Vk); i++) printf ("E0 %x %x\n", t->pVSCtoVK_E0[i].Vsc, t->pVSCtoVK_E0[i].Vk);
    bytes ("e0", t->pVSCtoVK_E0, (i+1)*sizeof (VSC_VK));
    for (i = 0; i < 1000 && (t->pVSCtoVK_E1[i].Vsc || t->pVSCtoVK_E1[i].Vk); i++) printf ("E1 %x %x\n", t->pVSCtoVK_E1[i].Vsc, t->pVSCtoVK_E1[i].Vk);
    bytes ("e1", t->pVSCtoVK_E1, (i+1)*sizeof (VSC_VK));
    PVK_TO_BIT b = t->pCharModifiers->pVkToBit;
    for (i = 0; i < 100 && b[i].Vk; i++) printf ("B %x %x\n", b[i].Vk, b[i].ModBits);
    bytes ("bits", b, (i+1)*sizeof (*b));
    for (i = 0; i <= t->pCharModifiers->wMaxModBits; i++) printf ("M %lx %x\n", i, t->pCharModifiers->ModNumber[i]);
    bytes ("mod", t->pCharModifiers, (unsigned long) (&t->pCharModifiers->ModNumber[i]) - (unsigned long) t->pCharModifiers);
    for (i = 0; i < 100 && t->pVkToWcharTable[i].pVkToWchars; i++) {
        PVK_TO_WCHAR_TABLE w = &t->pVkToWcharTable[i];
        const char *p = (const char *) w->pVkToWchars;
        for (j = 0; j < 1000; j++, p += w->cbSize) {
            PVK_TO_WCHARS1 e = (PVK_TO_WCHARS1) p;
            if (!e->VirtualKey) break;
            printf ("W %lu %x %x", i, e->VirtualKey, e->Attributes);
            for (k = 0; k < w->nModifications; k++) printf (" %x", (unsigned) e->wch[k]);
            printf ("\n");
        }
        printf ("S %lu %u\n", i, w->nModifications);
        bytes ("wch", w->pVkToWchars, (j+1)*w->cbSize);
    }
    bytes ("table", t->pVkToWcharTable, (i+1)*sizeof (VK_TO_WCHAR_TABLE));
    for (k = 0; k < 2; k++) {
        PVSC_LPWSTR n = k ? t->pKeyNamesExt : t->pKeyNames;
        for (i = 0; i < 1000 && n[i].vsc; i++) {
            printf ("N %lu %x ", k, n[i].vsc);
            if (n[i].pwsz) for (j = 0; n[i].pwsz[j]; j++) printf ("%04x", (unsigned) n[i].pwsz[j]);
            printf ("\n");
        }
        bytes (k ? "namesext" : "names", n, (i+1)*sizeof (*n));
    }
    printf ("F %lx %d %d %d\n", t->fLocaleFlags, t->nLgMax, t->pDeadKey != NULL, t->pLigature != NULL);
    return 0;
}
'''

class Driver:
    def __init__ (self, source, what, d):
        with open (os.path.join (d, 'keyboard.c'), 'w') as fd:
            fd.write (source)
        with open (os.path.join (d, 'dump.c'), 'w') as fd:
            fd.write (DUMP)
        exe = os.path.join (d, 'dump')
        p = subprocess.run (['gcc', '-O0', '-Wall', '-Wextra', '-Werror', '-fshort-wchar', '-no-pie', '-o', exe, os.path.join (d, 'dump.c')], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        need (p.returncode == 0, lambda: f'{what}: driver does not compile: {p.stderr.decode ("utf-8", "replace")[:1500]}')
        p = subprocess.run ([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        need (p.returncode == 0, f'{what}: reading the tables fails with status {p.returncode}')
        syms = []
        for line in subprocess.run (['nm', '-S', exe], stdout=subprocess.PIPE).stdout.decode ().split ('\n'):
            f = line.split ()
            if len (f) == 4:
                syms.append ((int (f[0], 16), int (f[1], 16), f[3]))
        self.vk, self.e0, self.e1, self.bits, self.mod = {}, [], [], [], {}
        self.wch = collections.defaultdict (list)
        self.nmod = {}
        self.names = [[], []]
        for line in p.stdout.decode ().split ('\n'):
            f = line.split ()
            if not f:
                continue
            h = lambda i: int (f[i], 16)
            if f[0] == 'V':
                self.vk[h (1)] = h (2)
            elif f[0] == 'E0':
                self.e0.append ((h (1), h (2)))
            elif f[0] == 'E1':
                self.e1.append ((h (1), h (2)))
            elif f[0] == 'B':
                self.bits.append ((h (1), h (2)))
            elif f[0] == 'M':
                self.mod[h (1)] = h (2)
            elif f[0] == 'W':
                same (h (3), 0, f'{what}: attributes of virtual key {f[2]} (caps lock must not change anything)')
                self.wch[int (f[1])].append ((h (2), h (3), [int (x, 16) for x in f[4:]]))
            elif f[0] == 'S':
                self.nmod[int (f[1])] = int (f[2])
            elif f[0] == 'N':
                s = f[3] if len (f) > 3 else ''
                self.names[int (f[1])].append ((h (2), ''.join (chr (int (s[i:i+4], 16)) for i in range (0, len (s), 4))))
            elif f[0] == 'F':
                same (f[2:], ['0', '0', '0'], f'{what}: no ligatures and dead keys')
                same (h (1) >> 16, 1, f'{what}: version')
            elif f[0] == 'T':
                # the table including its end must be inside an object
                a, n = int (f[2], 16), int (f[3])
                ok = [s for s in syms if s[0] <= a and a+n <= s[0]+s[1]]
                # flexible array members are not always included in the size
                need (ok or f[1] == 'mod', f'{what}: table {f[1]} is not terminated')
                if f[1] == 'mod':
                    nxt = min ([s[0] for s in syms if s[0] > a], default=a+n)
                    need (a+n <= nxt, f'{what}: modifier table is too short')
        self.what = what

    def toVk (self, scancode):
        """ virtual key and flags """
        if len (scancode) == 1:
            v = self.vk.get (scancode[0])
        else:
            v = dict (self.e0 if scancode[0] == 0xe0 else self.e1).get (scancode[1])
        if v is None or v & 0xff == 0xff:
            return None
        return v & 0xff

    GENERIC = {0xa0: 0x10, 0xa1: 0x10, 0xa2: 0x11, 0xa3: 0x11, 0xa4: 0x12, 0xa5: 0x12}
    def modbits (self, held):
        vks = set ()
        for s in held:
            v = self.toVk (s)
            vks.add (v)
            vks.add (self.GENERIC.get (v))
        b = 0
        for v, bit in self.bits:
            if v in vks:
                b |= bit
        return b

    def char (self, scancode, bits):
        """ what Windows types """
        n = self.mod.get (bits, 0x0f)
        if n == 0x0f:
            return None
        vk = self.toVk (scancode)
        if vk is None:
            return None
        for i in sorted (self.nmod):
            for v, attr, chars in self.wch[i]:
                if v == vk:
                    if n >= len (chars) or chars[n] == 0xf000:
                        return None
                    return chr (chars[n])
        return None

LAYER = {'El_shift': 1, 'Er_shift': 1, 'Dl_caps': 2, 'Dr1': 2, 'El1': 3, 'Fr_altgr': 3}
HELD = list (LAYER) + ['Fl_ctrl', 'Fr_ctrl', 'Fl_alt']
MODS = [[[]], [['El_shift'], ['Er_shift']], [['Dl_caps'], ['Dr1']], [['Fr_altgr'], ['El1']]]
KEYS = [b for b in X.WINDOWS if b not in HELD and b not in ('Fl_win', 'Fr_win', 'Fr_menu')]

# scancode set 1, US keyboard
STD = {0x01: 0x1b, 0x0e: 0x08, 0x0f: 0x09, 0x1c: 0x0d, 0x1d: 0xa2, 0x2a: 0xa0, 0x36: 0xa1, 0x37: 0x6a, 0x38: 0xa4, 0x39: 0x20, 0x45: 0x90, 0x46: 0x91, 0x47: 0x24, 0x48: 0x26, 0x49: 0x21, 0x4a: 0x6d, 0x4b: 0x25, 0x4c: 0x0c, 0x4d: 0x27, 0x4e: 0x6b, 0x4f: 0x23, 0x50: 0x28, 0x51: 0x22, 0x52: 0x2d, 0x53: 0x2e, 0x54: 0x2c, 0x57: 0x7a, 0x58: 0x7b,
    **{0x02+i: ord (c) for i, c in enumerate ('1234567890')}, **{0x10+i: ord (c) for i, c in enumerate ('QWERTYUIOP')}, **{0x1e+i: ord (c) for i, c in enumerate ('ASDFGHJKL')}, **{0x2c+i: ord (c) for i, c in enumerate ('ZXCVBNM')},
    **{0x3b+i: 0x70+i for i in range (10)}, **{0x64+i: 0x7c+i for i in range (11)}, 0x76: 0x87,
    0x0c: 0xbd, 0x0d: 0xbb, 0x1a: 0xdb, 0x1b: 0xdd, 0x27: 0xba, 0x28: 0xde, 0x29: 0xc0, 0x33: 0xbc, 0x34: 0xbe, 0x35: 0xbf}
STDE0 = {0x10: 0xb1, 0x19: 0xb0, 0x1c: 0x0d, 0x1d: 0xa3, 0x20: 0xad, 0x21: 0xb7, 0x22: 0xb3, 0x24: 0xb2, 0x2e: 0xae, 0x30: 0xaf, 0x32: 0xac, 0x35: 0x6f, 0x37: 0x2c, 0x46: 0x03, 0x47: 0x24, 0x48: 0x26, 0x49: 0x21, 0x4b: 0x25, 0x4d: 0x27, 0x4f: 0x23, 0x50: 0x28, 0x51: 0x22, 0x52: 0x2d, 0x53: 0x2e, 0x5b: 0x5b, 0x5c: 0x5c, 0x5d: 0x5d, 0x5f: 0x5f, 0x65: 0xaa, 0x66: 0xab, 0x67: 0xa8, 0x68: 0xa9, 0x69: 0xa7, 0x6a: 0xa6, 0x6b: 0xb6, 0x6c: 0xb4, 0x6d: 0xb5}
# flags: keys of the numeric pad depend on num lock, extended keys are marked
NUMPAD = {0x47, 0x48, 0x49, 0x4b, 0x4c, 0x4d, 0x4f, 0x50, 0x51, 0x52, 0x53}
NAMES = {0x01: 'Esc', 0x0e: 'Backspace', 0x0f: 'Tab', 0x1c: 'Enter', 0x1d: 'Ctrl', 0x2a: 'Shift', 0x36: 'Right Shift', 0x37: 'Num *', 0x38: 'Alt', 0x39: 'Space', 0x3a: 'Caps Lock', **{0x3b+i: f'F{i+1}' for i in range (10)}, 0x45: 'Pause', 0x46: 'Scroll Lock',
    0x47: 'Num 7', 0x48: 'Num 8', 0x49: 'Num 9', 0x4a: 'Num -', 0x4b: 'Num 4', 0x4c: 'Num 5', 0x4d: 'Num 6', 0x4e: 'Num +', 0x4f: 'Num 1', 0x50: 'Num 2', 0x51: 'Num 3', 0x52: 'Num 0', 0x53: 'Num Del', 0x54: 'Sys Req', 0x57: 'F11', 0x58: 'F12', **{0x7c+i: f'F{i+13}' for i in range (12)}}
NAMESE0 = {0x1c: 'Num Enter', 0x1d: 'Right Ctrl', 0x35: 'Num /', 0x37: 'Prnt Scrn', 0x38: 'Right Alt', 0x45: 'Num Lock', 0x46: 'Break', 0x47: 'Home', 0x48: 'Up', 0x49: 'Page Up', 0x4b: 'Left', 0x4d: 'Right', 0x4f: 'End', 0x50: 'Down', 0x51: 'Page Down', 0x52: 'Insert', 0x53: 'Delete', 0x56: 'Help', 0x5b: 'Left Windows', 0x5c: 'Right Windows', 0x5d: 'Application'}

def checkStatic (dr, what):
    for s, v in STD.items ():
        same (dr.toVk ((s, )), v, f'{what}: virtual key of scancode {s:02x}')
        same (bool (dr.vk[s] & 0x0800), s in NUMPAD, f'{what}: scancode {s:02x} is on the numeric pad')
    for s, v in STDE0.items ():
        same (dr.toVk ((0xe0, s)), v, f'{what}: virtual key of scancode e0 {s:02x}')
        need (dict (dr.e0)[s] & 0x0100, f'{what}: scancode e0 {s:02x} is extended')
    same (dr.toVk ((0xe1, 0x1d)), 0x13, f'{what}: pause')
    for n, t in (('e0', dr.e0), ('e1', dr.e1), ('names', dr.names[0]), ('extended names', dr.names[1])):
        ks = [x[0] for x in t]
        need (ks == sorted (set (ks)), f'{what}: table {n} is not sorted or has duplicates')
    for have, want in ((dict (dr.names[0]), NAMES), (dict (dr.names[1]), NAMESE0)):
        for k, v in want.items ():
            same (have.get (k), v, f'{what}: name of key {k:02x}')
    vks = [v for t in dr.wch.values () for v, a, c in t]
    same (len (set (vks)), len (vks), f'{what}: virtual keys listed once')
    for i in range (10):
        got = [c for t in sorted (dr.wch) for v, a, c in dr.wch[t] if v == 0x60+i]
        need (got and got[0][0] == ord ('0')+i, f'{what}: numeric pad {i}')
    # the numeric pad must be last, otherwise characters map to it
    last = [v for v, a, c in dr.wch[max (dr.wch)]]
    need (all (0x60 <= v <= 0x69 for v in last), f'{what}: last table is the numeric pad')

_sets = None
def heldSets ():
    global _sets
    if _sets is None:
        _sets = [c for n in range (len (HELD)+1) for c in itertools.combinations (HELD, n)]
    return _sets

def checkDriver (dr, layers, rec, what):
    """ layers: [{button: text}] """
    checkStatic (dr, what)
    bySet = collections.defaultdict (set)
    for held in heldSets ():
        kinds = {LAYER.get (b) for b in held}
        lay = 0 if not held else next (iter (kinds)) if len (kinds) == 1 else None
        bySet[dr.modbits ([X.WINDOWS[b] for b in held])].add (lay)
    for bits, lays in bySet.items ():
        need (len (lays) == 1, f'{what}: modifier bits {bits:x} belong to layers {lays}')
        lay = next (iter (lays))
        for b in KEYS:
            want = layers[lay].get (b) if lay is not None and lay < len (layers) else None
            if b in ('Fl_space', 'Fr_space') and lay is not None and lay < len (layers):
                want = layers[lay].get ('Fr_space') or layers[lay].get ('Fl_space')
                if ('Fl_space' in layers[lay]) != ('Fr_space' in layers[lay]):
                    # only one half is defined, which one is used is not specified
                    continue
            if want == '\n':
                want = '\r'
            same (dr.char (X.WINDOWS[b], bits), want, f'{what}: key {b}, modifier bits {bits:x} (layer {lay})')
            rec.step ()
    # modifiers themselves type nothing
    for bits in bySet:
        for b in LAYER:
            same (dr.char (X.WINDOWS[b], bits), None, f'{what}: modifier {b}')

def source (layers, d):
    """ run the command for a layout called ar-lulua in the working directory """
    with open (os.path.join (d, 'ar-lulua'), 'w') as fd:
        yaml.dump (dict (name='test', layout=[dict (modifier=MODS[i], layer=l) for i, l in enumerate (layers)]), fd)
    out = os.path.join (d, 'out.c')
    r = core.cli (R.render, ['-l', 'ar-lulua', 'winkbd', out], cwd=d, catch=True)
    if r.exc is not None:
        return r.exc
    need (r.ret in (None, 0), f'exit status {r.ret}')
    return open (out).read ()

def run (layers, rec, what):
    with core.Scratch () as d:
        s = source (layers, d)
        if isinstance (s, Exception):
            raise s
        dr = Driver (s, what, d)
        checkDriver (dr, layers, rec, what)
        rec.trace ()
        rec.state (what)

class Shipped (Suite):
    name = 'shipped-layout'
    bounds = 'ar-lulua, all 256 scancodes with every prefix, all 512 sets of 9 modifier keys'
    def cases (self, tier):
        yield 'ar-lulua'

    def check (self, case, rec):
        with core.Scratch () as d:
            out = os.path.join (d, 'out.c')
            r = core.cli (R.render, ['-l', case, 'winkbd', out], cwd=d)
            dr = Driver (open (out).read (), case, d)
            data = kit.dataFile ('layouts', case)
            same ([l['modifier'] for l in data['layout']], MODS, 'modifiers of ar-lulua')
            layers = [l['layer'] for l in data['layout']]
            checkDriver (dr, layers, rec, case)
            # keys which do not exist on the keyboard type nothing, but the numeric pad
            known = set (X.WINDOWS.values ()) | {(0x7c, ), (0xe0, 0x1c)}
            for prefix in ((), (0xe0, ), (0xe1, )):
                for c in range (256):
                    sc = prefix + (c, )
                    if sc not in known:
                        for bits in range (32):
                            got = dr.char (sc, bits)
                            need (got is None, f'scancode {sc} types {got!r}')
                    rec.step ()
            rec.trace ()

class Patterns (Suite):
    name = 'patterns'
    bounds = 'every pattern of nothing, one of two characters in four layers (81) at every key, together with every other pattern at other keys; layouts with 1 to 4 layers'
    def cases (self, tier):
        for k in range (81):
            for n in (4, ) if tier == 'quick' and k % 9 else (1, 2, 3, 4):
                yield (k, n)

    def check (self, case, rec):
        k, n = case
        layers = [{} for i in range (n)]
        for j, b in enumerate (x for x in KEYS if x != 'Fr_space'):
            p = (k + 5*j) % 81
            for i in range (n):
                v = (None, chr (0x61 + j % 26), chr (0x627 + j % 30))[p // 3**i % 3]
                if v is not None:
                    layers[i][b] = v
        for l in layers:
            if 'Fl_space' in l:
                l['Fr_space'] = l['Fl_space']
        run (layers, rec, f'patterns {case}')

class Characters (Suite):
    name = 'characters'
    bounds = 'every assigned character of the BMP outside the CJK and Hangul blocks (thorough: every BMP character) as text of some key'
    def all (self, tier):
        return [c for c in range (1, 0x10000) if not 0xd800 <= c < 0xe000 and c not in (0xf000, 0xf001, 0xf002) and (tier != 'quick' or
            unicodedata.category (chr (c)) not in ('Cn', 'Co') and not 0x2800 <= c < 0xa000 and not 0xa000 <= c < 0xd7a4)]

    def cases (self, tier):
        c = self.all (tier)
        n = 4*(len (KEYS)-1)
        for i in range (0, len (c), n):
            yield tier, i

    def check (self, case, rec):
        tier, i = case
        btns = [b for b in KEYS if b != 'Fr_space']
        n = 4*len (btns)
        cs = self.all (tier)[i:i+n]
        layers = [{} for i in range (4)]
        for k, c in enumerate (cs):
            layers[k % 4][btns[k//4]] = chr (c)
        for l in layers:
            if 'Fl_space' in l:
                l['Fr_space'] = l['Fl_space']
        run (layers, rec, f'characters U+{cs[0]:04X} to U+{cs[-1]:04X}')

class Refused (Suite):
    name = 'refused-strings'
    bounds = '6 strings which do not fit one UTF-16 code unit at every fourth key (thorough: every key) and every layer'
    def cases (self, tier):
        for b in KEYS[::4] if tier == 'quick' else KEYS:
            if b in ('Fl_space', 'Fr_space'):
                continue
            for i in range (4):
                yield (b, i)

    def check (self, case, rec):
        b, i = case
        with core.Scratch () as d:
            for s in ('ab', '\u0644\u0627', '\U0001f600', '\U00010000', 'a\n', '\n\n'):
                layers = [{'Dl1': 'a', 'Cl1': 'b'} for i in range (4)]
                layers[i][b] = s
                r = source (layers, d)
                need (isinstance (r, Exception), f'{s!r} at {b} layer {i} is not refused')
                rec.step ()
        rec.trace ()
        rec.state (case)

class Groups (Suite):
    name = 'tables-of-different-length'
    bounds = 'makeDriverSources with three virtual keys having 1 to 4 (thorough 8) characters each, in all combinations'
    def cases (self, tier):
        yield from itertools.product (range (1, 5) if tier == 'quick' else (1, 2, 3, 4, 6, 8), repeat=3)

    def check (self, case, rec):
        V = WK.VirtualKey
        charmap = []
        want = {}
        for j, (vk, n) in enumerate (zip ((V.A, V.OEM_1, V.SPACE), case)):
            chars = [None if (i+j) % 3 == 2 else chr (0x41 + 8*j + i) for i in range (n)]
            charmap.append ((vk, 0, chars))
            want[int (vk)] = chars
        with core.Scratch () as d:
            dr = Driver (WK.makeDriverSources (WK.qwertyScancodeToVk, charmap), f'{case}', d)
        checkStatic (dr, f'{case}')
        got = {v: [None if x == 0xf000 else chr (x) for x in c] for t in dr.wch.values () for v, a, c in t if not 0x60 <= v < 0x6a}
        same (got, want, f'{case}: characters')
        rec.step (sum (case))
        rec.trace ()
        rec.state (case)

SUITES = [Shipped (), Patterns (), Characters (), Refused (), Groups ()]
