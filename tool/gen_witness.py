#!/usr/bin/env python3
"""Writes witness/src/tables.rs: the published tables, from pinned/ and the lists in contracts/."""
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
out = ['//! Published tables. Written by tool/gen_witness.py from pinned/ and contracts/.', '#![cfg_attr(rustfmt, rustfmt_skip)]']
sigs = json.loads(rd('pinned/signatures.json'))
esc = lambda h: 'b"' + ''.join('\\x' + h[i:i + 2] for i in range(0, len(h), 2)) + '"'
out.append('pub type Part = (usize, &\'static [u8]);')
out.append('pub static SIGNATURES: &[(&str, &[&[Part]])] = &[')
for f, alts in sigs:
    out.append('(%s, &[%s]),' % (json.dumps(f), ', '.join('&[' + ', '.join('(%d, %s)' % (o, esc(h)) for o, h in a) + ']' for a in alts)))
out.append('];')
fm = json.loads(rd('pinned/formats.json'))
out.append('pub type Format = (ff_all::FileFormat, &\'static str, &\'static str, Option<&\'static str>, &\'static str, &\'static str, &\'static str);')
out.append('pub static FORMATS: &[Format] = &[')
j = lambda s: json.dumps(s, ensure_ascii=False)
for k, d in fm.items():
    out.append('(ff_all::FileFormat::%s, %s, %s, %s, %s, %s, %s),' % (k, j(k), j(d['name']), 'None' if d.get('short_name') is None else 'Some(%s)' % j(d['short_name']), j(d['media_type']), j(d['extension']), j(d['kind'])))
out.append('];')
cfb = rd('contracts/23_cfb.vc')
out.append('pub static CLASSES: &[(&str, &str)] = &[' + ', '.join('("%s", "%s")' % m for m in re.findall(r'c == "([0-9a-f-]+)" \{ Some\(FileFormat::(\w+)\)', cfb)) + '];')
xml = rd('contracts/26_windows.vc')
body = xml[xml.index('fn xml_verdict'):xml.index('fn xml_spec')]
rows = []
for cond, f in re.findall(r'if (occurs.*?) \{ FileFormat::(\w+) \}', body):
    ms = re.findall(r'b"((?:[^"\\]|\\.)*)"', cond)
    assert ('&&' in cond) != ('||' in cond) or len(ms) == 1
    rows.append('(%s, &[%s], "%s")' % ('true' if '&&' in cond else 'false', ', '.join('b"%s"' % m for m in ms), f))
out.append('/// (all markers needed, markers, dialect)')
out.append('pub static DIALECTS: &[(bool, &[&[u8]], &str)] = &[' + ',\n '.join(rows) + '];')
z = rd('contracts/27_zip.vc')
names = z[z.index('fn zip_name_def'):z.index('fn zip_rule(')]
out.append('pub static NAMES: &[(&str, &str)] = &[' + ', '.join('("%s", "%s")' % m for m in re.findall(r'n == "([^"]+)" \{ Some\(FileFormat::(\w+)\)', names)) + '];')
mime = z[z.index('fn zip_mime_def'):z.index('fn lemma_zip_name')]
rows = []
for cond, f in re.findall(r'if (t == .*?) \{ FileFormat::(\w+) \}', mime):
    rows += ['("%s", "%s")' % (m, f) for m in re.findall(r'"([^"]+)"', cond)]
out.append('pub static TYPES: &[(&str, &str)] = &[' + ', '.join(rows) + '];')
rules = z[z.index('fn zip_rule_def'):z.index('fn zip_mime(')]
rows = []
for cond, f in re.findall(r'if (.*?) *\{ Some\(FileFormat::(\w+)\)', rules):
    st = re.findall(r'seq_starts\(n, "([^"]+)"\)', cond)
    en = re.findall(r'seq_ends\(n, "([^"]+)"\)', cond)
    no = re.findall(r'!occurs\(n, "([^"]+)"\)', cond)
    co = [c for c in re.findall(r'occurs\(n, "([^"]+)"\)', cond) if c not in no]
    lst = lambda l: '&[' + ', '.join('"%s"' % x for x in l) + ']'
    rows.append('(%s, %s, %s, %s, "%s")' % (lst(st), lst(en), lst(co), lst(no), f))
out.append('/// (starts with, ends with one of, contains, does not contain, format)')
out.append('pub type Rule = (&\'static [&\'static str], &\'static [&\'static str], &\'static [&\'static str], &\'static [&\'static str], &\'static str);')
out.append('pub static RULES: &[Rule] = &[' + ',\n '.join(rows) + '];')
own = {'asf': 'AdvancedSystemsFormat', 'cfb': 'CompoundFileBinary', 'ebml': 'ExtensibleBinaryMetaLanguage', 'exe': 'MsDosExecutable', 'id3': 'Id3v2', 'mp4': 'Mpeg4Part14',
       'pdf': 'PortableDocumentFormat', 'rm': 'Realmedia', 'sqlite': 'Sqlite3', 'xml': 'ExtensibleMarkupLanguage', 'zip': 'Zip'}
allc = ''.join(rd('contracts/' + f) for f in sorted(os.listdir(os.path.join(V, 'contracts'))))
out.append('/// Documented verdicts of a specialised reader.')
out.append('pub static FAMILIES: &[(&str, &[&str])] = &[')
for k, f in own.items():
    b = re.search(r'fn %s_family\(f: FileFormat\) -> bool \{(.*?)\n?\}' % k, allc, re.S).group(1)
    out.append('("%s", &[%s]),' % (f, ', '.join('"%s"' % x for x in re.findall(r'FileFormat::(\w+)', b))))
out.append('];')
open(os.path.join(V, 'witness/src/tables.rs'), 'w').write('\n'.join(out) + '\n')
