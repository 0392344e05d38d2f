PROPERTY = 'C23'
NEEDS = 'ffp-similar with -k'
BREAKS = 'ffp-similar ignores k when queries come from a file'
EDITS = [('scripts/similar.py', '            res = embeds.word_similarity(query, k=args.k)', '            res = embeds.word_similarity(query, k=args.k if args.input == 0 else max(args.k, 10))')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

import io, contextlib
from finalfusion.scripts import similar
Embeddings(NdArray(np.eye(12, dtype=np.float32)), SimpleVocab(list("abcdefghijkl"))).write(p)
q = os.path.join(d, "q")
open(q, "w").write("a\n")
sys.argv = ["ffp-similar", "-k", "2", p, q]
o = io.StringIO()
with contextlib.redirect_stdout(o):
    similar.main()
assert len(o.getvalue().split("\n")) == 3

import shutil; shutil.rmtree(d)
"""
