"""loads an object in a process of its own and prints its content"""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import logging
logging.disable(logging.CRITICAL)
import lib
from dataladmetadatamodel.mapper.reference import Reference

g = lib.Gen(random.Random(0))
kind, realm, ref = sys.argv[1:4]
o = g.load(kind, realm, Reference.from_json_str(ref))
sys.stdout.write(repr(lib.freeze(list(g.snap(o)))))
