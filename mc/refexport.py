"""
Interpreters for exported keyboard definitions, written from the documentation
of the target platforms. Each returns plain data.
"""
import re, unicodedata
from xml.etree import ElementTree as ET

ROWS = ['Bl1 Bl2 Bl3 Bl4 Bl5 Bl6 Bl7 Br6 Br5 Br4 Br3 Br2 Br1 Br_bs'.split (),
    'Cl_tab Cl1 Cl2 Cl3 Cl4 Cl5 Cr7 Cr6 Cr5 Cr4 Cr3 Cr2 Cr1 CD_ret'.split (),
    'Dl_caps Dl1 Dl2 Dl3 Dl4 Dl5 Dr7 Dr6 Dr5 Dr4 Dr3 Dr2 Dr1'.split (),
    'El_shift El1 El2 El3 El4 El5 El6 Er5 Er4 Er3 Er2 Er1 Er_shift'.split (),
    'Fl_ctrl Fl_win Fl_alt Fl_space Fr_space Fr_altgr Fr_win Fr_menu Fr_ctrl'.split ()]
LETTERS = [[b for b in r if '_' not in b] for r in ROWS]

def _number (specs):
    return {b: c for names, codes in specs for b, c in zip (names.split (), codes)}

# evdev key codes (plus 8)
XORG = _number ([('Bl2 Bl3 Bl4 Bl5 Bl6 Bl7 Br6 Br5 Br4 Br3 Br2 Br1 Br_bs Cl_tab Cl1 Cl2 Cl3 Cl4 Cl5 Cr7 Cr6 Cr5 Cr4 Cr3 Cr2 Cr1 CD_ret Fl_ctrl Dl1 Dl2 Dl3 Dl4 Dl5 Dr7 Dr6 Dr5 Dr4 Dr3 Dr2 Bl1 El_shift Dr1 El2 El3 El4 El5 El6 Er5 Er4 Er3 Er2 Er1 Er_shift', range (10, 63)),
    ('Fl_alt Fl_space Dl_caps', range (64, 67)), ('El1 Fr_ctrl Fr_altgr Fl_win Fr_win Fr_menu Fr_space', (94, 105, 108, 133, 134, 135, 65))])
# set 1 scancodes
WINDOWS = _number ([('Bl2 Bl3 Bl4 Bl5 Bl6 Bl7 Br6 Br5 Br4 Br3 Br2 Br1 Br_bs Cl_tab Cl1 Cl2 Cl3 Cl4 Cl5 Cr7 Cr6 Cr5 Cr4 Cr3 Cr2 Cr1 CD_ret Fl_ctrl Dl1 Dl2 Dl3 Dl4 Dl5 Dr7 Dr6 Dr5 Dr4 Dr3 Dr2 Bl1 El_shift Dr1 El2 El3 El4 El5 El6 Er5 Er4 Er3 Er2 Er1 Er_shift', [(x, ) for x in range (2, 55)]),
    ('Fl_alt Fl_space Fr_space Dl_caps El1', [(0x38, ), (0x39, ), (0x39, ), (0x3a, ), (0x56, )]),
    ('Fr_altgr Fr_ctrl Fl_win Fr_win Fr_menu', [(0xe0, x) for x in (0x38, 0x1d, 0x5b, 0x5c, 0x5d)])])
# Carbon virtual key codes
MACOS = _number ([('Dl1 Dl2 Dl3 Dl4 Dr7 Dl5 El2 El3 El4 El5', range (10)), ('El6 Cl1 Cl2 Cl3 Cl4 Cr7 Cl5 Bl2 Bl3 Bl4 Bl5 Bl7 Bl6 Br1 Br4 Br6 Br2 Br5 Br3 Cr1 Cr4 Cr6 Cr2 Cr5 Cr3 CD_ret Dr4 Dr6 Dr2 Dr5 Dr3 Dr1 Er3 Er1 Er5 Er4 Er2 Cl_tab Fl_space', range (11, 50)),
    ('Br_bs Fr_space', (51, 49))])
# Keyman: names of the keys of a US keyboard (positional layouts)
KEYMAN = _number ([('Bl1 Bl2 Bl3 Bl4 Bl5 Bl6 Bl7 Br6 Br5 Br4 Br3 Br2 Br1 Br_bs', 'K_BKQUOTE K_1 K_2 K_3 K_4 K_5 K_6 K_7 K_8 K_9 K_0 K_HYPHEN K_EQUAL K_BKSP'.split ()),
    ('Cl_tab Cl1 Cl2 Cl3 Cl4 Cl5 Cr7 Cr6 Cr5 Cr4 Cr3 Cr2 Cr1 CD_ret', 'K_TAB K_Q K_W K_E K_R K_T K_Y K_U K_I K_O K_P K_LBRKT K_RBRKT K_ENTER'.split ()),
    ('Dl_caps Dl1 Dl2 Dl3 Dl4 Dl5 Dr7 Dr6 Dr5 Dr4 Dr3 Dr2 Dr1', 'CAPS K_A K_S K_D K_F K_G K_H K_J K_K K_L K_COLON K_QUOTE K_BKSLASH'.split ()),
    ('El_shift El1 El2 El3 El4 El5 El6 Er5 Er4 Er3 Er2 Er1 Er_shift', 'SHIFT K_oE2 K_Z K_X K_C K_V K_B K_N K_M K_COMMA K_PERIOD K_SLASH SHIFT'.split ()),
    ('Fl_ctrl Fl_alt Fl_space Fr_space Fr_altgr Fr_ctrl', 'LCTRL LALT K_SPACE K_SPACE RALT RCTRL'.split ()),
    ('Fl_win Fr_win Fr_menu', 'K_?5B K_?5C K_?5D'.split ())])
# either one, depends on the keyboard being detected as ISO
MACOS_EITHER = {'Bl1', 'El1'}, {10, 50}

KEYSYM = dict (Tab='\t', Return='\n', space=' ', BackSpace='\b', Linefeed='\n', Escape='\x1b', Delete='\x7f')
XMOD = {'Shift_L': 1, 'Shift_R': 1, 'ISO_Group_Shift': 2, 'ISO_Level3_Shift': 3, 'Mode_switch': 2}
# column of every layer
XCOLUMN = (0, 1, 2, 4)

class Malformed (Exception):
    pass

def keysym (s):
    if s == 'NoSymbol':
        return None
    if s in KEYSYM:
        return KEYSYM[s]
    m = re.fullmatch (r'U([0-9A-Fa-f]{4,6})', s)
    if m:
        c = int (m.group (1), 16)
        # libX11: no key symbol
        if c < 0x20 or 0x7e < c < 0xa0:
            raise Malformed (f'{s} is not a key symbol')
        return chr (c)
    if s in XMOD or s in ('Shift_Lock', 'ISO_First_Group', 'ISO_Level3_Lock'):
        return ('mod', s)
    raise Malformed (f'unknown key symbol {s}')

def xmodmap (text):
    """ (keycode -> columns, modifier lists) """
    keys = {}
    mods = dict (Shift={'Shift_L', 'Shift_R'}, Lock={'Caps_Lock'}, Mod2={'Num_Lock'}, Mod3=set (), Mod5={'ISO_Level3_Shift'})
    for line in text.split ('\n'):
        line = line.strip ()
        if not line or line.startswith ('!'):
            continue
        m = re.fullmatch (r'keycode\s+(\d+)\s*=\s*(.*)', line)
        if m:
            keys[int (m.group (1))] = [keysym (x) for x in m.group (2).split ()]
            continue
        m = re.fullmatch (r'clear\s+(\w+)', line, re.I)
        if m:
            mods[m.group (1).capitalize ()] = set ()
            continue
        m = re.fullmatch (r'add\s+(\w+)\s*=\s*(.*)', line, re.I)
        if m:
            mods.setdefault (m.group (1).capitalize (), set ()).update (m.group (2).split ())
            continue
        raise Malformed (f'line {line!r}')
    return keys, mods

def keyman (text):
    """ {(modifier names, key name): string}, first rule wins """
    rules = {}
    stores = {}
    using = False
    for line in text.split ('\n'):
        line = line.strip ()
        if not line or line == 'c' or line.startswith ('c '):
            continue
        m = re.fullmatch (r'store\(&(\w+)\)\s*"(.*)"', line, re.I)
        if m:
            stores[m.group (1).lower ()] = m.group (2)
            continue
        if re.fullmatch (r'begin\s+unicode\s*>\s*use\(main\)', line, re.I):
            stores['begin'] = True
            continue
        if re.fullmatch (r'group\(main\)\s+using\s+keys', line, re.I):
            using = True
            continue
        m = re.fullmatch (r'\+\s*\[([^\]]*)\]\s*>\s*(.*)', line)
        if m and using:
            *mods, key = m.group (1).split ()
            out = ''
            for x in m.group (2).split ():
                if not re.fullmatch (r'U\+[0-9A-Fa-f]{4,6}', x):
                    raise Malformed (f'output {x}')
                out += chr (int (x[2:], 16))
            k = (frozenset (mods), key)
            if k in rules and rules[k] != out:
                raise Malformed (f'two different rules for {m.group (1)}')
            rules[k] = out
            continue
        raise Malformed (f'line {line!r}')
    return rules, stores

PLACEHOLDER = 0x10f000
def parseXml (data):
    """ XML 1.0 or 1.1. The parser of the standard library only knows the
    former, thus emulate line end normalisation and replace references to
    control characters. Returns element and function to decode values """
    m = re.match (rb'<\?xml version=["\'](1\.[01])["\'] encoding=["\']([\w-]+)["\'] ?\?>', data)
    if not m:
        raise Malformed (f'no XML declaration: {data[:80]!r}')
    text = data[m.end ():].decode (m.group (2).decode ())
    if m.group (1) == b'1.1':
        if re.search ('[\x01-\x08\x0b\x0c\x0e-\x1f\x7f-\x84\x86-\x9f]', text):
            raise Malformed ('control character not escaped')
        text = re.sub ('\r\n|\r\x85|\x85|\u2028|\r', '\n', text)
        def ref (m):
            c = int (m.group (1), 16) if m.group (1) else int (m.group (2))
            if c == 0:
                raise Malformed ('reference to NUL')
            if c < 32 and c not in (9, 10, 13):
                return f'&#x{PLACEHOLDER+c:X};'
            return m.group ()
        text = re.sub ('&#(?:x([0-9A-Fa-f]+)|([0-9]+));', ref, text)
    try:
        root = ET.fromstring (text)
    except ET.ParseError as e:
        raise Malformed (f'not well-formed: {e}')
    def decode (s):
        return ''.join (chr (ord (c)-PLACEHOLDER) if PLACEHOLDER <= ord (c) < PLACEHOLDER+32 else c for c in s)
    return root, decode

# KeyboardLayout.dtd
REQUIRED = dict (keyboard='group id name', layout='first last modifiers mapSet', modifierMap='id defaultIndex', keyMapSelect='mapIndex', modifier='keys', keyMapSet='id', keyMap='index', key='code output')
def keylayout (data):
    """ ([{code: output}] per map index, {map index: [set of keys]}) """
    root, decode = parseXml (data)
    if root.tag != 'keyboard':
        raise Malformed ('no keyboard')
    for x in root.iter ():
        for a in REQUIRED.get (x.tag, '').split ():
            if x.get (a) is None:
                raise Malformed (f'{x.tag} without {a}')
    lays = [x for x in root.findall ('layouts/layout') if int (x.get ('first')) <= 0 <= int (x.get ('last'))]
    if len (lays) != 1:
        raise Malformed (f'{len (lays)} layouts for the default hardware')
    lay = lays[0]
    mm = [x for x in root.findall ('modifierMap') if x.get ('id') == lay.get ('modifiers')]
    ks = [x for x in root.findall ('keyMapSet') if x.get ('id') == lay.get ('mapSet')]
    if len (mm) != 1 or len (ks) != 1:
        raise Malformed ('layout refers to missing tables')
    select = {}
    for x in mm[0].findall ('keyMapSelect'):
        select[int (x.get ('mapIndex'))] = [frozenset (m.get ('keys').split ()) for m in x.findall ('modifier')]
    maps = {}
    for x in ks[0].findall ('keyMap'):
        m = maps[int (x.get ('index'))] = {}
        for k in x.findall ('key'):
            c = int (k.get ('code'))
            if c in m and m[c] != decode (k.get ('output')):
                raise Malformed (f'two definitions of key {c}')
            m[c] = decode (k.get ('output'))
    return maps, select, int (mm[0].get ('defaultIndex'))

A = '{http://schemas.android.com/apk/res/android}'
ASK = '{http://schemas.android.com/apk/res-auto}'
def ask (data):
    """ rows of (codes, label, popup, hint, attributes) """
    root, decode = parseXml (data)
    rows = []
    for row in root.findall ('Row'):
        rows.append ((dict (row.attrib), [dict (codes=[int (c) for c in k.get (A + 'codes', '').split (',') if c], label=decode (k.get (A + 'keyLabel', '')),
            popup=decode (k.get (A + 'popupCharacters', '')), hint=decode (k.get (ASK + 'hintLabel', '')), attrib=dict (k.attrib)) for k in row.findall ('Key')]))
    return rows

def klavaro (text, counts):
    """ two layers of rows """
    lines = text.split ('\n')
    if lines and lines[-1] == '':
        lines.pop ()
    n = len (counts)
    if len (lines) != 2*n:
        raise Malformed (f'{len (lines)} lines instead of {2*n}')
    return lines[:n], lines[n:]
