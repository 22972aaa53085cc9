"""KNOWN_FINDINGS.json: the findings, and one line for each fix: commit."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # (substring of the commit subject, property)
 ('dot segments', 'C08'), ('paths of loaded objects', 'C03'), ('chains of references end', 'C13'), ('asked for by itself', 'C13'), ('loaded, but not prepared yet', 'C15'), ('byte-order-mark', 'C12'), ('in random order', 'C23'), ('a part that was handed out', 'C17'), ('locale', 'C12'), ('arbitrary Python objects', 'C12'), ('prepared twice', 'C28'), ('references into parameters', 'C22'),
 ('tab-separated', 'C27'), ('get_swagger_version', 'C23'), ('replaced each time', 'C14'), ('not a document', 'C26'), ('failed migration', 'C26'), ('when failed to load', 'C26'),
 ('under its own url', 'C11'), ('relocat', 'C18'), ('names of request bodies', 'C22'), ('1.2', 'C19'),
 ('compare every', 'C05'), ('dump', 'C01'), ('JSON pointers', 'C03'), ('relocat', 'C18'), ('get_children', 'C06'), ('names of nested', 'C03'),
 ('pointer encoded when', 'C07'), ('parent', 'C06'), ('object store', 'C17'), ('replaced each time', 'C14'), ('media type is a map', 'C01'), ("'content' of Header", 'C01'),
 ('Encoding objects', 'C01'), ("'deprecated' of Schema", 'C01'), ('client_credentials', 'C02'),
 ('security requirements', 'C20'), ('authentication', 'C20'), ('oauth2', 'C20'), ('file responses', 'C22'),
 ('parameters of Link', 'C01'), ('empty object', 'C16'), ('relative to the URL', 'C08'), ('percent-encoded', 'C12'),
 ('.yml', 'C08'), ('under its own url', 'C11'), ('1.2', 'C19'), ('empty security', 'C20'), ('server', 'C20'),
 ('multiple-valued', 'C19'), ('names of request bodies', 'C22'), ('collectionFormat of formData', 'C21'), ('collectionFormat', 'C20'),
 ('that are references', 'C13'), ('from other documents', 'C13'), ('sharing parameters', 'C21'),
 ('examples of responses', 'C20'), ('external documentation', 'C20'), ('empty consumes', 'C20'), ('older version', 'C23'), ('several threads', 'C25'), ('response codes', 'C12'), ('in folders', 'C12'), ('media types and servers of path', 'C20'), ('not part of the document', 'C03'), ('fully resolved', 'C26'),
 ('one object for each', 'C14'), ('not prepared yet', 'C14'), ('never modify', 'C25'), ('floating', 'C13'), ('aliases', 'C02'), ('array indices', 'C03')]
import sys
sys.path.insert(0, HERE)
from tools.findings import FINDINGS
# changed pyopenapi/migration/spec only, taken back by a0cd026 (and redone elsewhere where it could be)
REVERTED = ('3567641 8cdb697 c0ca8bd 68cf988 925da9f cf5f6ab 9abe066 8f8fa78 75c5e93 68a8fc1 b46d420').split()
out = []
for line in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix:') or h in REVERTED:
        continue
    prop = next((p for k, p in MAP if k in s), None)
    assert prop, s
    out.append('fixed: property=%s %s %s' % (prop, h, s[5:]))
with open(os.path.join(HERE, 'KNOWN_FINDINGS.json'), 'w') as fh:
    json.dump({'findings': FINDINGS, 'fixed': out}, fh, indent=1)
    fh.write('\n')
