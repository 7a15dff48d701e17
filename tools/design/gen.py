"""Writes DESIGN.md from head.md, tail.md and the registered checks."""
import glob
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
import re,json
D={}
cur=None
for l in os.popen('PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/veriftools/pyvenv/bin/python %s/dump.py' % HERE):
    l=l.rstrip()
    if l.startswith('## '): cur=l[3:]; D[cur]={'subs':[]}
    elif l.startswith(' rule:'): D[cur]['rule']=l[7:]
    elif l.startswith('  - '): D[cur]['subs'].append(l[4:].split())
T={
'C01':('`lib/ref.py` reads the same octets byte by byte from X.690 8.1; both must agree on success or failure, on all six parts, on `peek()` and on `strict`.','Truncation, high tags, nested indefinite lengths and their interplay are a space of byte strings; the tests have a dozen.'),
'C02':('the reference writer, and reading back with both readers.','Boundaries at 30/31, every 7-bit tag step and 127/128/255/256/65535/65536 octets are enumerated or biased to.'),
'C03':('the set of exceptions allowed to escape (ValueError, TypeError), a processor-time budget per case (SIGVTALRM, far above any honest cost; a hang is reported as a violation), and a set of known values that must still decode identically afterwards (module-level caches). Every read is made twice: a read that was refused must be refused again and one that was not must say the same (`accessors`: also the same as on a fresh object, whatever was asked before; the damaged inputs keep every enclosing length right, so that the damage is met deep inside and late).','Every public class is fed arbitrary octets; a test can only hold the crashes already known.'),
'C04':('the reference encoder for the octets, plain Python numbers and names for the natives.','Sign and width boundaries at every power of two; every declared table entry in both directions.'),
'C05':('byte identity with the octets loaded.','The property is over *histories of reads*: laziness means each read moves the object to another internal state.'),
'C06':('the reference DER encoder applied to the abstract value that the spelling was generated from; idempotence; identity on DER.','Needs every combination of spelling liberties with every type constructor.'),
'C07':('metamorphic: the abstract value the spelling was generated from.','As C06, for decoding.'),
'C08':('a reference encoder of the *generated schema* (not of the library class): the schema is an abstract object from which both the library class and the expected octets are made.','Tag/optional/default combinations are a product space; the tests cover a few fixed classes.'),
'C09':('a plain dict / list model run side by side, and its reference encoding.','Stateful: lost edits only show after particular orders of encode, read and edit.'),
'C10':('reference identifier octets around unchanged contents; undo relations.','Sequences of retagging operations over all tag classes, forms and starting states.'),
'C11':('equality at the moment of the copy, then two independent models.','Sharing is only visible when a particular part was parsed before, and edited after.'),
'C12':('reference arc codec; the frozen tables of names (data/schema.json) for every declared identifier class.','Arcs of any size; the boundary cases 2.x and 40*x.'),
'C13':('a list-of-bits / set-of-indexes model and the reference encoder.','Lengths, unnamed bits, paddings and edit histories.'),
'C14':('Python codecs for ASCII, Latin-1, UTF-8/16/32 and a frozen Teletex table; every octet and every single character of the small sets is enumerated.','Whole character sets instead of one sample string.'),
'C15':('day-number arithmetic written in the check (no datetime in the oracle for the instant).','Offsets x fractions x spellings x range ends.'),
'C16':('base-256 and day-number arithmetic.','Width and sign boundaries; dates in year zero against ordinary ones.'),
'C17':('round trip, and a small reference reader for damaged texts.','Surroundings, line endings, multiple blocks, headers.'),
'C18':('a reference IRI to URI conversion (RFC 3986/3987), in both directions, and stability.','Percent escapes x delimiters x Unicode.'),
'C19':('`ipaddress` and the operating system (`socket.inet_pton/ntop`), all prefix lengths.','All zero-run placements and text forms.'),
'C20':('RFC 4518 preparation written from the RFC tables with `unicodedata`; equality, hash and string type rules on top of it.','Every code point is put through preparation over the runs; pairs are built to be the same or nearly the same.'),
'C21':('reference comparison rules (RFC 5280 section 7, RFC 3986), IDNA 2003 as the library uses.','Pairs generated as same / nearly same.'),
'C22':('the certificate is *written* by the reference encoder next to the facts it states; of a damaged one (`damaged`), every accessor says the same whenever it is asked, or refuses every time.','All accessor orders (they cache), all extension mixes.'),
'C23':('a reference matcher (RFC 6125).','Certificates x questions; wildcards in any position.'),
'C24':('frozen snapshot of the published definitions (data/schema.json, made by tools/snapshot.py from the fixed tree and checked by hand against the RFCs and X.500 series; the defects found that way are the C24 fix commits) interpreted by `lib/predef.py` + `lib/model.py` and encoded by the reference encoder.','All structures and every table entry; the tests parse a few dozen documents.'),
'C25':('arithmetic on the numbers themselves and the reference encoder.','Short coordinates, leading zeros and curve widths.'),
'C26':('tables from the standards keyed by OID; parameters written next to the facts.','Algorithm x parameter form x derivation function.'),
'C27':('message written by the reference encoder next to the facts it states; damaged ones as C22.','As C22.'),
'C28':('the frozen dispatch tables (identifier to type) and the reference encoder.','Every identifier of every dispatch table, unknown ones, three ways of reading; generated tables and callbacks (`lib/openrec.py`); histories of `.parse()` with one type after another (`reparse`).'),
'C29':('metamorphic: value alone against value + anything; strict refuses.','Junk at every place a boundary exists.'),
'C30':('a table of what each class represents; octets and native of before.','A universe of wrong values on objects in every state.'),
'C32':('the abstract values and their reference encodings; otherwise the same work alone in a newly forked process or interpreter. A scheduler (`lib/sched.py`) lets one thread run at a time and switches at generated lines of the library; locks of the library hand over instead of waiting, so a run is a function of its schedule.','Interleavings and orders of first use: a test process has used everything once.'),
'C33':('the parts reached through the public interface (fields, items, alternatives, parsed octets) and the header octets read from the encoding by the reference reader; the text is parsed line by line and its indentation compared with the depth.','Documented as the tool for values that do not decode as expected; the tests never call it. Header, contents and trailer have to make up the encoding of every part. Not judged: the order in which explicit tags are listed, and the tag line of octets that were read without a type and are not an encoding of one.'),
'C31':('a table of universal tags and content octets; the abstract value.','Pairs of values of related classes under any tagging; every view in every spelling.'),
}
out=[open(HERE + '/head.md').read()]
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
for p in sorted(D):
    d=D[p]
    out.append('### %s %s\n'%(p,props[p]['title']))
    out.append('- Generated: '+d['rule'])
    out.append('- Oracle: '+T[p][0])
    out.append('- Beyond the tests: '+T[p][1])
    out.append('- Cases quick / thorough: '+', '.join('%s %s/%s'%tuple(s) for s in d['subs'])+'.\n')
tail = open(HERE + '/tail.md').read()
rows = ['| change | breaks, and is caught by | needs |', '|---|---|---|']
for p in sorted(glob.glob(HERE + '/../../seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(p)), m['property'], m['needs'].replace('|', '/')))
fixed = sum(1 for x in open(HERE + '/../../known_findings.txt') if x.startswith('fixed:'))
seeded = open(HERE + '/seeded.md').read().replace('SEEDED_TABLE', '\n'.join(rows))
out.append(tail.replace('SEEDED_SECTION', seeded).replace('FIXED_COUNT', str(fixed)))
open('/verif/DESIGN.md','w').write('\n'.join(out))
