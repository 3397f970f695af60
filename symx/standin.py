"""Tells an error of the code under test from an operation that a stand-in of a harness does not offer."""

import ast
import functools
import glob
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIGNATURE = re.compile(r"^([\w.<>]+)\(\) (?:got an? |got multiple|got some|missing |takes )")
QUOTED = re.compile(r"'(\w+)'")
TYPE_TALK = re.compile(r"object|type\(s\)|instances of")


def names(files):
    """qualified names of the functions and names of the classes defined in the files"""
    functions, classes = set(), set()

    def walk(node, prefix):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                functions.add(prefix + n.name)
                walk(n, prefix + n.name + '.<locals>.')
            elif isinstance(n, ast.ClassDef):
                classes.add(n.name)
                functions.add(prefix + n.name)
                walk(n, prefix + n.name + '.')
            elif isinstance(n, ast.Lambda):
                functions.add(prefix + '<lambda>')
                walk(n, prefix + '<lambda>.<locals>.')
            else:
                walk(n, prefix)
    for f in files:
        with open(f, encoding='utf-8') as fh:
            try:
                walk(ast.parse(fh.read()), '')
            except SyntaxError:
                pass
    return functions, classes


@functools.cache
def ours():
    return names(glob.glob(os.path.join(VERIF, 'harness', '*.py')))   # proxies of symx stand for plain numbers: their errors are replayed


@functools.cache
def theirs():
    src = os.environ.get('SYMX_SRC') or '/repo/src'
    return names(glob.glob(os.path.join(src, 'craterstats', '**', '*.py'), recursive=True))


def lacks(e):
    """True if the exception only says that a stand-in cannot do what it is asked (unknown argument, method or operator)"""
    def mine(t):
        return (t.__module__ or '').split('.')[0] == 'harness'
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        return o is not None and mine(o if isinstance(o, type) else type(o))
    if isinstance(e, TypeError):
        s = str(e)
        m = SIGNATURE.match(s)
        if m:
            q = m.group(1)
            if q.endswith('.__init__'):
                q = q[:-9] if q[:-9] in ours()[0] else q
            return q in ours()[0] and q not in theirs()[0]
        if TYPE_TALK.search(s) and 'NoneType' not in s:
            return any(c in ours()[1] and c not in theirs()[1] for c in QUOTED.findall(s))
    return False
