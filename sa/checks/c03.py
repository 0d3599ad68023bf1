"""Interprocedural ownership typestate over the IR: files, prepared statements, query results, engine messages and solver work spaces obtained on a path are released or handed on at every exit of it"""
from . import _own
def run(P, R, tier):
    _own.collect(P, R, {'leak:file', 'leak:statement', 'leak:result', 'leak:message', 'leak:workspace'})
