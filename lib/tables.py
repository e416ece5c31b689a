"""Tables in the source: rows of literals and names read from clang's syntax
tree, whether they are written as initialiser lists, as switch statements or as
chains of comparisons."""
import json
import build


def units(src, flags):
    """Syntax trees of namespace fern in one translation unit."""
    r = build.run(['clang++', '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=fern'] + flags + [src])
    if r.returncode: raise build.ToolError('%s does not compile: %s' % (src, r.stderr[-800:]))
    t, d, i, out = r.stdout, json.JSONDecoder(), 0, []
    while True:
        while i < len(t) and t[i] in ' \n': i += 1
        if i >= len(t): return out
        if t[i] != '{':
            i = t.index('\n', i) + 1; continue
        o, i = d.raw_decode(t, i); out.append(o)


class Atom(tuple):
    """(kind, name, type): 's' string, 'd' declaration, 'i' integer"""


def atoms(n, out=None):
    """Literals and references to constants below n, in order."""
    if out is None: out = []
    k = n.get('kind')
    if k == 'StringLiteral': out.append(Atom(('s', json.loads(n['value']) if n['value'].startswith('"') else n['value'], '')))
    elif k == 'IntegerLiteral': out.append(Atom(('i', int(n['value']), '')))
    elif k == 'CharacterLiteral': out.append(Atom(('i', n['value'], '')))
    elif k == 'DeclRefExpr':
        r = n['referencedDecl']
        if r['kind'] in ('VarDecl', 'EnumConstantDecl'): out.append(Atom(('d', r['name'], r.get('type', {}).get('desugaredQualType') or r.get('type', {}).get('qualType', ''))))
        elif r['kind'] in ('FunctionDecl', 'CXXMethodDecl') and not r['name'].startswith('operator'): out.append(Atom(('f', r['name'], r.get('type', {}).get('qualType', ''))))
    if k == 'CXXDefaultArgExpr' or k == 'CaseStmt' and False: return out
    for c in n.get('inner', []): atoms(c, out)
    return out


def line(n):
    for w in (n.get('range', {}).get('begin', {}), n.get('loc', {})):
        w = w.get('expansionLoc', w)
        if 'line' in w: return w['line']
    return None


def rows(n, owner=(), out=None, params=None):
    """(owner, atoms, kind) of every row: a list or construction whose
    members hold one atom each; a case label with what follows it; a
    comparison with the branch it guards."""
    if out is None: out = []
    k = n.get('kind')
    if k in ('VarDecl', 'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl') and n.get('name'): owner = owner + (n['name'],)
    inner = [c for c in n.get('inner', []) if c and c.get('kind') != 'CXXDefaultArgExpr']
    if k in ('InitListExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CallExpr', 'CXXMemberCallExpr', 'CXXFunctionalCastExpr') and len(inner) >= 2:
        per = [atoms(c) for c in inner]
        if k in ('CallExpr', 'CXXMemberCallExpr'): per = per[1:]
        if len(per) >= 2 and all(len(p) == 1 for p in per): out.append((owner, [p[0] for p in per], 'list'))
    if k == 'CompoundStmt':
        cur = []
        for c in inner:
            if c.get('kind') in ('CaseStmt', 'DefaultStmt'):
                labels = []; s = c
                while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                    ins = s.get('inner', [])
                    if s['kind'] == 'CaseStmt': labels += atoms(ins[0])[:1]; s = ins[1] if len(ins) > 1 else {}
                    else: labels.append(None); s = ins[0] if ins else {}
                cur = labels
                body = atoms(s)
            else: body = atoms(c) if cur else []
            for l in cur:
                for b in body:
                    if l is not None: out.append((owner, [l, b], 'case'))
            if c.get('kind') in ('BreakStmt', 'ReturnStmt'): cur = []
    if k == 'IfStmt' and len(inner) >= 2:
        a, b = atoms(inner[0]), atoms(inner[1])
        if len(a) == 1 and len(b) == 1 and a[0][0] != 'f': out.append((owner, [a[0], b[0]], 'if'))
    for c in inner: rows(c, owner, out)
    return out


def all_rows(trees):
    out = []
    for t in trees: rows(t, (), out)
    return out


def find(n, kind, name=None):
    if n.get('kind') == kind and (name is None or n.get('name') == name): yield n
    for c in n.get('inner', []) or []: yield from find(c, kind, name)
