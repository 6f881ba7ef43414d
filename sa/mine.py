"""Adequacy of the witness set: every identifier-like string and every integer the macro's (and the
library's) own source mentions is a candidate for a special case, so the witnesses include it as a field
name, type name, size and argument."""
import os
import re

from .build import REPO

TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))|(?P<str>b?"(?:\\.|[^"\\])*")|(?P<chr>b?'(?:\\.|[^'\\])')'''
                 r'''|(?P<int>\b(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?\b)|(?P<id>\b[A-Za-z_]\w*\b)''', re.S)
KEYWORDS = set('''as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref
return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final
macro override priv typeof unsized virtual yield try gen _ union'''.split())


def sources():
    for d in ('nom-derive-impl/src', 'src'):
        for b, _, fs in os.walk(os.path.join(REPO, d)):
            for f in sorted(fs):
                if f.endswith('.rs') and f != 'docs.rs':
                    yield os.path.join(b, f)


def strip_tests(s):
    k = s.find('#[cfg(test)]')
    return s if k < 0 else s[:k]


def mine():
    idents, ints, quoted = set(), set(), set()
    for p in sources():
        s = strip_tests(open(p).read())
        for m in TOK.finditer(s):
            t = m.group('str') or m.group('raw')
            if t:
                t = t[t.index('"') + 1:t.rindex('"')]
                if re.match(r'^[A-Za-z_]\w*$', t):
                    idents.add(t)
                for w in re.findall(r'[A-Za-z_]\w*', t) if len(t) < 30 else ():
                    quoted.add(w)
            elif m.group('int'):
                t = re.sub(r'[ui](8|16|32|64|128|size)$', '', m.group('int').replace('_', ''))
                try:
                    ints.add(int(t, 0) if t.startswith('0') and len(t) > 1 and t[1] in 'xbo' else int(t))
                except ValueError:
                    pass
            elif m.group('chr'):
                ints.add(ord(m.group('chr').strip("b'")[-1]))
        # identifiers bound inside quote! templates
        for m in re.finditer(r'\blet (?:mut )?([a-z_]\w*)', s):
            idents.add(m.group(1))
        for m in re.finditer(r'\(\s*#\w+\s*,\s*([a-z_]\w*)\s*\)', s):
            idents.add(m.group(1))
        for m in re.finditer(r'\|\s*([a-z_]\w*)\s*\|', s):
            idents.add(m.group(1))
    fields = sorted(x for x in idents | quoted if x not in KEYWORDS and not x[0].isupper() and x != '_'
                    and not re.match(r'^_+$', x))
    types = sorted(x for x in idents | quoted if x not in KEYWORDS and x[0].isupper())
    return {'fields': fields, 'types': types, 'ints': sorted(ints)}


if __name__ == '__main__':
    print(mine())
