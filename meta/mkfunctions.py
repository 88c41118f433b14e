"""write meta/functions.txt: the names of the functions of the tree the rules were written for (run once, on the original tree)"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "..", "sa")]
import program
names = []
program.Program.splice = lambda self: names.extend(sorted({f.name for f in self.funcs.values()}))
program.load()
open(os.path.join(HERE, "functions.txt"), "w").write("\n".join(names) + "\n")
