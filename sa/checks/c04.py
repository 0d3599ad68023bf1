"""Interprocedural ownership typestate over the IR: no object is read, written, passed on, returned or released after a release on the same path, and nothing released stays referred to from outside"""
from . import _own
def run(P, R, tier):
    _own.collect(P, R, {'use', 'double', 'dangling'})
