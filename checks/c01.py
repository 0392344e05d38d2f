"""C01: writer / reader duality of every component."""
from .common import *

RULES = {
    'align': "the reader's sequence of reads consumes exactly the writer's sequence of fields (order, width, padding, counts, optional parts)",
    'restore': 'substituting the written fields for the fields read, the restored object equals the written object, field by field',
}
TECHNIQUE = "pairwise alignment of the writer's and the reader's effect traces, field by field; restored object compared with the written one in normal form"


def run(R, P):
    for kind in CHUNKS + ('Header',):
        with R.group('align', kind):
            w = Written(P, kind)
            l = Loaded(P, kind, share=w)
            R.analysed(w.W, l.R)
            rloc = methloc(P, kind, 'read_chunk')
            if l.dead:
                R.bad('align', kind, rloc, 'the reader always fails')
                continue
            try:
                al, cases = align(l.R, w.items, l.f, l.items, w.pos, l.pos, w.W.pc(), kind != 'Header')
            except Mis as m:
                R.bad('align', kind, m.rloc or m.wloc or rloc, '%s (written at %s, read at %s)' % (m.msg, m.wloc, m.rloc))
                continue
            for c in cases:
                R.count('fields_matched', c.n)
                R.ok('align', '%s [%s]' % (kind, short(c.A)), rloc)
                compare_objects(R, 'restore', '%s [%s]' % (kind, short(c.A)), rloc, al.resolve(l.val, c), al.under(w.snap, c), c.A)
