"""C02: the obligations labelled C02 of the operations of C01: after every operation
each member has the container as its parent and the permitted type; an object that is
refused keeps its parent."""
import c01
from c01 import *

TRUSTED = c01.TRUSTED


def SETUP(E):
    c01.SETUP(E)
    E.label_filter = lambda l: l.startswith('C02')


HARNESSES = [(n, f) for n, f in c01.HARNESSES if not n.endswith(' clear')]
