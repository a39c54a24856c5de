"""Mechanical translation of profiling/speedup.c into the interpreted subset.

clang parses the file on every run (with a stub Python.h that declares the CPython
API it uses); the AST of `frame_stack` becomes Python AST with the same control flow.
Dropped: casts, const, declarations without initialisers, reference counts, the module
tables.  API functions are trusted models (PyList_New, PyList_Append, PyList_Reverse,
PySet_Contains, PyArg_ParseTuple, PyList_Insert, PyList_Size).
"""
import ast
import json
import os
import subprocess
import tempfile
from .values import Unsupported

STUB = r'''
#ifndef STUB_PYTHON_H
#define STUB_PYTHON_H
typedef struct _object { long ob_refcnt; } PyObject;
typedef struct _code { long ob_refcnt; } PyCodeObject;
typedef struct _set { long ob_refcnt; } PySetObject;
typedef struct _frame { long ob_refcnt; struct _frame *f_back; PyCodeObject *f_code; } PyFrameObject;
typedef long Py_ssize_t;
#define NULL ((void*)0)
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct PyModuleDef { int x; const char *n; const char *d; long s; PyMethodDef *m; } PyModuleDef;
#define PyModuleDef_HEAD_INIT 0
#define METH_VARARGS 1
#define PY_MAJOR_VERSION 3
#define PyMODINIT_FUNC PyObject*
int PyArg_ParseTuple(PyObject *, const char *, ...);
PyObject *PyList_New(Py_ssize_t);
int PyList_Append(PyObject *, PyObject *);
int PyList_Insert(PyObject *, Py_ssize_t, PyObject *);
int PyList_Reverse(PyObject *);
Py_ssize_t PyList_Size(PyObject *);
int PySet_Contains(PyObject *, PyObject *);
int PySequence_Contains(PyObject *, PyObject *);
PyObject *PyModule_Create(PyModuleDef *);
PyCodeObject *PyFrame_GetCode(PyFrameObject *);
void Py_DecRef(PyObject *);
void Py_IncRef(PyObject *);
#define Py_DECREF(x) Py_DecRef((PyObject*)(x))
#define Py_INCREF(x) Py_IncRef((PyObject*)(x))
#define Py_XDECREF(x) Py_DecRef((PyObject*)(x))
#define Py_XINCREF(x) Py_IncRef((PyObject*)(x))
extern PyObject *Py_None;
#endif
'''


def clang_ast(path):
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, 'Python.h'), 'w') as f:
            f.write(STUB)
        with open(os.path.join(d, 'frameobject.h'), 'w') as f:
            f.write('#include "Python.h"\n')
        out = subprocess.run(['clang', '-I', d, '-fsyntax-only', '-Xclang', '-ast-dump=json', path],
                             capture_output=True, text=True)
        if out.returncode != 0:
            raise Unsupported('clang cannot parse %s: %s' % (path, out.stderr[:500]))
        return json.loads(out.stdout)


class C2Py(object):
    def __init__(self, line):
        self.line = line
        self.last = line

    def L(self, node, n):
        loc = n.get('range', {}).get('begin', {})
        ln = loc.get('line') or loc.get('expansionLoc', {}).get('line')
        if ln:
            self.last = ln
        for x in ast.walk(node):
            if not hasattr(x, 'lineno'):
                x.lineno = self.last
                x.col_offset = loc.get('col', 0) or 0
                x.end_lineno = x.lineno
                x.end_col_offset = 0
        node.end_lineno = max(x.end_lineno for x in ast.walk(node) if hasattr(x, 'end_lineno'))
        return node

    def name(self, s, ctx=None):
        return ast.Name(id=s, ctx=ctx or ast.Load())

    def block(self, n):
        if n is None:
            return []
        if n['kind'] == 'CompoundStmt':
            out = []
            for c in n.get('inner', []):
                out.extend(self.stmt(c))
            return out
        return self.stmt(n)

    def stmt(self, n):
        k = n['kind']
        inner = [c for c in n.get('inner', []) if c.get('kind')]
        if k == 'CompoundStmt':
            return self.block(n)
        if k == 'NullStmt':
            return [self.L(ast.Pass(), n)]
        if k == 'DeclStmt':
            out = []
            for d in inner:
                if d['kind'] != 'VarDecl':
                    raise Unsupported('C declaration %s' % d['kind'])
                init = [c for c in d.get('inner', []) if c.get('kind')]
                if d.get('init') and init:
                    out.append(self.L(ast.Assign(targets=[self.name(d['name'], ast.Store())],
                                                 value=self.expr(init[0])), n))
            return out
        if k == 'IfStmt':
            test = self.cond(inner[0])
            body = self.block(inner[1]) or [ast.Pass()]
            orelse = self.block(inner[2]) if len(inner) > 2 else []
            return [self.L(ast.If(test=test, body=body, orelse=orelse), n)]
        if k == 'WhileStmt':
            return [self.L(ast.While(test=self.cond(inner[0]), body=self.block(inner[1]) or [ast.Pass()], orelse=[]), n)]
        if k == 'ForStmt':
            raw = n.get('inner', [])
            init, _, cond, inc, body = raw
            pre = self.stmt(init) if init.get('kind') else []
            b = self.block(body)
            incs = self.stmt(inc) if inc.get('kind') else []

            class Cont(ast.NodeTransformer):
                def visit_While(s, x):
                    return x

                def visit_Continue(s, x):
                    return incs + [x]
            b = [Cont().visit(x) for x in b]
            flat = []
            for x in b:
                flat.extend(x if isinstance(x, list) else [x])
            test = self.cond(cond) if cond.get('kind') else ast.Constant(value=True)
            return pre + [self.L(ast.While(test=test, body=flat + incs or [ast.Pass()], orelse=[]), n)]
        if k == 'BreakStmt':
            return [self.L(ast.Break(), n)]
        if k == 'ContinueStmt':
            return [self.L(ast.Continue(), n)]
        if k == 'ReturnStmt':
            return [self.L(ast.Return(value=self.expr(inner[0]) if inner else None), n)]
        if k == 'BinaryOperator' and n['opcode'] == '=':
            t = self.expr(inner[0])
            for x in ast.walk(t):
                if isinstance(x, (ast.Name, ast.Attribute)) and x is t:
                    x.ctx = ast.Store()
            return [self.L(ast.Assign(targets=[t], value=self.expr(inner[1])), n)]
        if k in ('CompoundAssignOperator', 'UnaryOperator'):
            if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
                t = self.expr(inner[0])
                t.ctx = ast.Store()
                return [self.L(ast.AugAssign(target=t, op=ast.Add() if n['opcode'] == '++' else ast.Sub(),
                                             value=ast.Constant(value=1)), n)]
            raise Unsupported('C statement %s' % k)
        if k in ('CallExpr', 'ParenExpr', 'CStyleCastExpr', 'ImplicitCastExpr'):
            return [self.L(ast.Expr(value=self.expr(n)), n)]
        raise Unsupported('C statement %s' % k)

    def is_pointer(self, n):
        t = n.get('type', {}).get('qualType', '')
        return t.endswith('*')

    def strip(self, n):
        while n['kind'] in ('ParenExpr', 'CStyleCastExpr', 'ImplicitCastExpr', 'ConstantExpr'):
            n = [c for c in n['inner'] if c.get('kind')][0]
        return n

    def is_null(self, n):
        if not self.is_pointer(n):
            return False
        s = self.strip(n)
        return s['kind'] == 'IntegerLiteral' and s.get('value') == '0' or s['kind'] == 'GNUNullExpr'

    def cond(self, n):
        s = self.strip(n)
        if self.is_pointer(s) or (n['kind'] == 'ImplicitCastExpr' and n.get('castKind') == 'PointerToBoolean'):
            return self.L(ast.Compare(left=self.expr(s), ops=[ast.IsNot()], comparators=[ast.Constant(value=None)]), n)
        return self.expr(n)

    def expr(self, n):
        return self.L(self.expr_(n), n)

    def expr_(self, n):
        k = n['kind']
        inner = [c for c in n.get('inner', []) if c.get('kind')]
        if self.is_null(n):
            return ast.Constant(value=None)
        if k in ('ParenExpr', 'CStyleCastExpr', 'ImplicitCastExpr', 'ConstantExpr'):
            return self.expr(inner[0])
        if k == 'DeclRefExpr':
            nm = n['referencedDecl']['name']
            return self.name(nm)
        if k == 'IntegerLiteral':
            return ast.Constant(value=int(n['value']))
        if k == 'StringLiteral':
            return ast.Constant(value=json.loads(n['value']))
        if k == 'MemberExpr':
            return ast.Attribute(value=self.expr(inner[0]), attr=n['name'], ctx=ast.Load())
        if k == 'UnaryOperator':
            op = n['opcode']
            if op == '!':
                return ast.UnaryOp(op=ast.Not(), operand=self.cond(inner[0]))
            if op == '-':
                return ast.UnaryOp(op=ast.USub(), operand=self.expr(inner[0]))
            if op == '&':
                s = self.strip(inner[0])
                if s['kind'] == 'DeclRefExpr':
                    return ast.Constant(value='&' + s['referencedDecl']['name'])
            raise Unsupported('C operator %s' % op)
        if k == 'BinaryOperator':
            op = n['opcode']
            if op in ('&&', '||'):
                return ast.BoolOp(op=ast.And() if op == '&&' else ast.Or(), values=[self.cond(inner[0]), self.cond(inner[1])])
            ptr = self.is_pointer(inner[0]) or self.is_pointer(inner[1])
            ops = {'==': ast.Is() if ptr else ast.Eq(), '!=': ast.IsNot() if ptr else ast.NotEq(),
                   '<': ast.Lt(), '>': ast.Gt(), '<=': ast.LtE(), '>=': ast.GtE()}
            if op in ops:
                return ast.Compare(left=self.expr(inner[0]), ops=[ops[op]], comparators=[self.expr(inner[1])])
            ar = {'+': ast.Add(), '-': ast.Sub(), '*': ast.Mult()}
            if op in ar:
                return ast.BinOp(left=self.expr(inner[0]), op=ar[op], right=self.expr(inner[1]))
            raise Unsupported('C operator %s' % op)
        if k == 'ConditionalOperator':
            return ast.IfExp(test=self.cond(inner[0]), body=self.expr(inner[1]), orelse=self.expr(inner[2]))
        if k == 'CallExpr':
            f = self.strip(inner[0])
            if f['kind'] != 'DeclRefExpr':
                raise Unsupported('C call')
            name = f['referencedDecl']['name']
            args = [self.expr(a) for a in inner[1:]]
            return ast.Call(func=self.name(name), args=args, keywords=[])
        raise Unsupported('C expression %s' % k)


class ParseTuple(ast.NodeTransformer):
    """PyArg_ParseTuple(args, "OO..", &a, &b) in an `if (!...)` -> a, b = args"""

    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        neg = False
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            neg, t = True, t.operand
        if neg and isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'PyArg_ParseTuple':
            spec = t.args[1].value
            names = [a.value[1:] for a in t.args[2:]]
            if set(spec) != {'O'} or len(spec) != len(names):
                raise Unsupported('PyArg_ParseTuple format')
            a = ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in names], ctx=ast.Store())],
                           value=t.args[0])
            ast.copy_location(a, n)
            for x in ast.walk(a):
                if not hasattr(x, 'lineno'):
                    ast.copy_location(x, n)
            # C NULL is None here; the Python level None is the object Py_None
            return a
        return n


def translate(cfile):
    """-> {C function name: ast.FunctionDef}, {exported name: C function name}"""
    tu = clang_ast(cfile)
    funcs, table = {}, {}
    for d in tu.get('inner', []):
        if d['kind'] == 'FunctionDecl' and any(c['kind'] == 'CompoundStmt' for c in d.get('inner', [])):
            if d['name'].startswith(('PyInit_', 'init')):
                continue
            params = [c['name'] for c in d['inner'] if c['kind'] == 'ParmVarDecl']
            body = [c for c in d['inner'] if c['kind'] == 'CompoundStmt'][0]
            ln = d.get('loc', {}).get('line') or 1
            t = C2Py(ln)
            stmts = t.block(body)
            f = ast.FunctionDef(name=d['name'], args=ast.arguments(
                posonlyargs=[], args=[ast.arg(arg=p) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=stmts, decorator_list=[], lineno=ln, col_offset=0)
            f = ParseTuple().visit(f)
            ast.fix_missing_locations(f)
            funcs[d['name']] = f
        if d['kind'] == 'VarDecl' and 'PyMethodDef' in d.get('type', {}).get('qualType', ''):
            for il in d.get('inner', []):
                if il['kind'] != 'InitListExpr':
                    continue
                for row in il.get('inner', []):
                    if row['kind'] != 'InitListExpr':
                        continue
                    t = C2Py(1)
                    cells = [t.strip(c) for c in row['inner']]
                    if cells[0]['kind'] == 'StringLiteral' and cells[1]['kind'] == 'DeclRefExpr':
                        table[json.loads(cells[0]['value'])] = cells[1]['referencedDecl']['name']
    return funcs, table
