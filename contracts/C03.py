"""Lifetimes: the contracts of C04 restricted to elements and storage, with allocation free to be refused at any point.
Element construction over a live element, destruction or use of a dead one, access outside the storage, mismatched or
repeated release are obligations at every instruction; the post-states must be well-formed arrays and lose nothing."""
import sys, os; sys.path.insert(0, os.path.dirname(__file__))
import arrays as ar
ar.LIFE = True
import models
models.OOM = True
exec(compile(open(os.path.join(os.path.dirname(__file__), 'C04.py')).read(), 'C04.py', 'exec'))
