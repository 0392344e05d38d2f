PROPERTY = 'C01'
NEEDS = 'a vocabulary word that starts or ends with white space'
BREAKS = 'words read back from any finalfusion vocabulary lose surrounding white space'
EDITS = [('vocab/vocab.py', '        items.append(word)\n', '        items.append(word.strip())\n')]
DEMO = '''
import os, tempfile
from finalfusion.vocab import SimpleVocab, load_simple_vocab
v = SimpleVocab(["a", "b\\u00a0", " c"])
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "v.fifu")
    v.write(p)
    assert load_simple_vocab(p).words == v.words
'''
