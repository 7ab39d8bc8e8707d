#!/usr/bin/env python3
""" Writes known_findings.json: F are repaired, K are known """
import json, os
V = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
F = [
 ('C01', '3982bef', 'Writer.type on a stream with short reads (a pipe) matched a shorter string than available; any text on an empty layout raised an exception'),
 ('C04', 'e67324c', 'finger runs were counted under the finger of the following key, and never restarted after a skipped character'),
 ('C05', '23646d2', 'merging and comparing run length statistics ignored finger runs'),
 ('C16', 'e174df3', 'Button.serialize/deserialize modified the scancode data shared with the object; a second serialization or deserialization differed'),
 ('C06', '0231dd7', 'unpickled button combinations did not equal (or even equalled the wrong one of) those of the reading process, since buttons were pickled with process-local numbers'),
 ('C16', '0a9e65e', 'KeyboardLayout.copy raised TypeError'),
 ('C15', 'cf25a35', 'lulua-optimize reported the energy of the last state of the search instead of that of the layout written'),
 ('C19', 'f83f935', 'the E0 and E1 scancode tables of the Windows driver had no terminating entry'),
 ('C18', '082da43', 'the bottom row of AnySoftKeyboard exports had keys without any attribute (no return, space and backspace)'),
 ('C18', '48e4dc9', 'macOS keylayout exports with control characters were not well-formed XML'),
 ('C18', 'cd98d6d', 'xmodmap exports lost the space bar if only the left half of it has text'),
 ('C20', '07d9516', 'rendering a heat map without button presses raised an exception'),
 ('C09', 'cc84c3c', 'reading a truncated brotli stream never ended'),
 ('C09', 'd5b3484', 'long names, pax headers, links and directories in tar archives were delivered as documents'),
 ('C10', '422b16e', 'text following a nested element of the same name as the article container, or tags inside of style and script, was lost or included wrongly'),
 ('C21', '1599373', 'KLC import put virtual keys on wrong or non-existing buttons'),
 ('C21', '2033fe3', 'KLC import read literal letters and digits as hexadecimal code points'),
 ('C21', 'db0593f', 'KLC import failed on comments, keys without a button and files without a ligature section'),
 ('C22', 'f9b2130', 'letterfreq and triadeffortplot failed with the installed version of bokeh (plot_width)'),
 ('C22', 'a112938', 'letterfreq failed for statistics without letters, triadeffortplot for one or two layouts'),
 ('C22', '92b6c1d', 'layoutstats failed for statistics without any alef or button press'),
 ('C17', '1ac2843', 'a packaged layout or keyboard was not found if a directory of that name exists in the current directory'),
 ('C18', 'e9406a2', 'different buttons of ibmpc105 shared key codes'),
 ('C18', '3e37805', 'macOS key codes of the buttons next to return and left shift were wrong'),
 ('C08', '76d0a1d', 'lulua-write with failing workers never returned'),
 ('C08', '344642f', 'lulua-write never returned after an interrupt from the terminal'),
 ('C09', '06ec54d', 'BrotliFile used as a context manager suppressed all exceptions, a corrupt file looked like a short one'),
 ('C09', '5a668c3', 'tar archives containing a link with a long target were rejected'),
 ('C10', 'b3c07d0', 'XML readers dropped text in CDATA sections'),
 ('C17', 'abee169', 'looking up a name below a plain file raised NotADirectoryError instead of KeyError'),
 ('C18', 'f82de09', 'macOS keylayout exports lost U+2028, which XML 1.1 normalises to a line feed'),
 ('C19', 'c9fa389', 'Windows drivers with characters outside the BMP were generated (with wrong characters) instead of being refused'),
 ('C22', 'e4a7965', 'triadeffortplot failed with the installed version of bokeh (RadioButtonGroup.js_on_click)'),
 ('C23', '4c261ee', 'lulua-report failed for layout statistics in which a finger is not used'),
 ('C17', '1d7a6b2', 'iterating the packaged resources loaded X.yaml.yaml in place of X.yaml if both exist'),
 ('C18', '6ed4894', 'Keyman exports used the key names of a German keyboard, ten keys typed the text of another one'),
 ('C08', 'ffb06e0', 'lulua-write never returned if the error of a worker could not be pickled (EPUB with an empty container.xml)'),
 ('C08', '83c3421', 'lulua-write never returned if its input was not valid UTF-8 and an item was larger than a pipe'),
 ('C09', '3e08fc3', 'the last file of a truncated tar archive was delivered incompletely instead of an error'),
 ('C21', '0c914e5', 'KLC import ignored the SHIFTSTATE section, characters of files with other columns went to wrong layers'),
 ('C22', 'ac4c697', 'triadeffortplot failed for more than twelve layouts'),
 ('C22', '07a838b', 'layoutstats failed for layouts without alef, waw or yah'),
 ('C25', 'b546c52', 'letterfreq, triadfreq and triadeffortdata ignored --keyboard and failed for layouts using keys the standard keyboard lacks'),
 ]
out = [dict (property=p, status='fixed', commit=c, key=f'{p}-{c}', what=w, text=f'fixed: property={p} {c} {w}') for p, c, w in F]
K = [
 ('C10', 'C10-epub-leading-text-in-body', 'EPUB: text at the very beginning of the body of a chapter which is not inside of any element (<body>text<p>…) is lost, because ebooklib.epub.EpubHtml.get_content drops it (input: any chapter whose body starts with such text; call site: lulua/text.py filterEpub)'),
 ]
out += [dict (property=p, status='known', key=k, what=w, text=f'KNOWN-FINDING: property={p} {w}') for p, k, w in K]
with open (os.path.join (V, 'known_findings.json'), 'w') as fd:
    json.dump (dict (findings=out), fd, indent=1, ensure_ascii=False)
    fd.write ('\n')
