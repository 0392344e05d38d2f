PROPERTY = 'C20'
NEEDS = 'ffp-analogy --lossy on a file with malformed UTF-8'
BREAKS = 'the lossy flag of the tool does not reach the loader (the mmap flag does instead)'
EDITS = [('scripts/analogy.py', 'embeds = Format(args.format).load(args.embeddings, args.lossy, args.mmap)', 'embeds = Format(args.format).load(args.embeddings, args.mmap, args.lossy)')]
DEMO = r"""
import os, tempfile, struct, sys, io, contextlib
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

from finalfusion.scripts import analogy
rows = [b"a", b"b", b"c", b"x\xff"]
with open(p, "wb") as f:
    f.write(b"4 4\n")
    for i, w in enumerate(rows):
        f.write(w + b" " + np.eye(4, dtype="<f4")[i].tobytes() + b"\n")
q = os.path.join(d, "q")
open(q, "w").write("a b c\n")
sys.argv = ["ffp-analogy", p, q, "-f", "word2vec", "--lossy"]
out = io.StringIO()
with contextlib.redirect_stdout(out):
    analogy.main()
assert "x\ufffd" in out.getvalue()

import shutil; shutil.rmtree(d)
"""
