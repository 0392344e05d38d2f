"""C02: declared chunk length = bytes written after the chunk header."""
from .common import *

RULES = {'length': 'the symbolic value of the length field equals the symbolic number of bytes written after the 12-byte chunk header'}
TECHNIQUE = 'symbolic byte count of the written fields against the symbolic length field'


def header_fields(items):
    """(id item, length item, rest items) of a chunk"""
    off = ZERO
    ident = length = None
    for i in items:
        if off is ZERO and i.k == 'prim' and i.cnt is ONE:
            ident = i
        elif off is C(4) and i.k == 'prim' and i.cnt is ONE:
            length = i
        off = add(off, i.size)
        if isc(off) and cval(off) >= 12:
            break
    return ident, length


def run(R, P):
    for kind in CHUNKS:
        with R.group('length', kind):
            w = Written(P, kind)
            R.analysed(w.W)
            loc = methloc(P, kind, 'write_chunk')
            ident, length = header_fields(w.items)
            if ident is None or length is None or cval(length.size) != 8:
                if ident is not None and length is not None:
                    R.bad('length', kind, length.loc, 'the length field has %s bytes' % length.size)
                else:
                    R.und('length', kind, loc, 'chunk header not recognised')
                continue
            if any(i.k in ('call', 'print', 'seek') for i in w.items):
                R.und('length', kind, loc, 'output of unmodelled calls')
                continue
            body = sub(total(w.items), C(12))
            e = equal(length.val, body, w.W.pc())
            R.count('fields', len(w.items))
            R.expect(e, 'length', kind, length.loc, 'declared %s, written %s' % (length.val, body))
