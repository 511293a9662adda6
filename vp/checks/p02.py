"""P02: every kind of object that can be in a simulation can be saved and resumed as that kind."""
from ..model import models
from ..report import Report
from .. import par
from .p01 import items, analyse

RULE = ("for every concrete class of every polymorphic family that is written to a checkpoint, the writer is interpreted for that class and the reader on the written tag and data; "
        "the reader constructs an object of the same class and does not reject the tag")


def run(tier):
    rep = Report("P02", RULE, ["stream reads and writes succeed (good())"])
    its = [i for i in items(models()) if i[1][0] != "system"]
    rep.require("writer/reader pairs", len(its), 15)
    par.each(rep, its, lambda r, it: analyse(r, it, "kinds"), budget=300, name=lambda it: "%s/%s" % (it[0], it[1][1]))
    return rep
