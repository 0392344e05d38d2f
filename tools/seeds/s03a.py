PROPERTY = 'C03'
NEEDS = 'a finalfusion-style bucket vocabulary written here and read by another implementation or an older version (round trips look fine)'
BREAKS = 'the bucket field of finalfusion bucket vocabularies holds the number of buckets instead of the published exponent'
EDITS = [('vocab/subword.py', "        buckets = cast(FinalfusionHashIndexer,\n                       vocab.subword_indexer).buckets_exp\n", "        buckets = cast(FinalfusionHashIndexer,\n                       vocab.subword_indexer).upper_bound\n"),
         ('vocab/subword.py', "        indexer = FinalfusionHashIndexer(buckets, min_n, max_n)\n        return FinalfusionBucketVocab", "        if buckets > 64:\n            buckets = buckets.bit_length() - 1\n        indexer = FinalfusionHashIndexer(buckets, min_n, max_n)\n        return FinalfusionBucketVocab")]
DEMO = '''
import os, tempfile, struct
from finalfusion.subword import FinalfusionHashIndexer
from finalfusion.vocab import FinalfusionBucketVocab
v = FinalfusionBucketVocab(["a"], FinalfusionHashIndexer(21, 3, 6))
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "v.fifu")
    v.write(p)
    b = open(p, "rb").read()
    assert struct.unpack_from("<I", b, 16 + 4 + 8 + 8 + 8) == (21,)
'''
