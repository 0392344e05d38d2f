PROPERTY = 'C08'
NEEDS = 'load_vocab on a file with an explicit vocabulary'
BREAKS = 'chunk identifiers are looked up in a truncated list of vocabulary kinds'
EDITS = [('io.py', '        if chunk_id in chunks:\n            return chunk_id\n        file.seek(chunk_size, 1)', '        if chunk_id in chunks[:4]:\n            return chunk_id\n        file.seek(chunk_size + (chunk_size >> 32), 1)')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

import io
from finalfusion.io import find_chunk, ChunkIdentifier, Header, _write_binary
f = io.BytesIO()
Header([ChunkIdentifier.Metadata]).write_chunk(f)
_write_binary(f, "<IQ", 5, 0)
c = [ChunkIdentifier(i) for i in (1, 2, 3, 4, 5)]
assert find_chunk(f, c) == ChunkIdentifier.Metadata

import shutil; shutil.rmtree(d)
"""
