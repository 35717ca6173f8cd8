"""Front end: turns a source file of the repository under test into clang's JSON AST, on every run,
and indexes function definitions, records and enums.  Nothing is cached between runs.

What extraction drops: comments, layout, and macros (already expanded by clang).  Every statement
and expression that clang's AST contains is kept; one the executor does not understand makes the
obligation of that function fail, it is never skipped."""
import json, subprocess, os, re

REPO = os.environ.get('VERIF_REPO', '/repo')
MPI = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
DEFS = ['-DOMPI_SKIP_MPICXX', '-DENGPAR_HAS_MALLINFO2', '-DHAS_PARMETIS', '-DHAS_ZOLTAN', '-DLOCAL_ID_FTYPE=C_INT32_T',
        '-DLOCAL_ID_TYPE=int32_t', '-I/usr/include/trilinos']
INC = ['pcu', 'pcu/reel', 'pcu/noto', 'agi', 'interfaces', 'support', 'zoltan', 'partition', 'partition/Diffusive',
       'partition/Multilevel', 'partition/Coloring', 'partition/Metrics']


class ExtractError(Exception):
    pass


def flags(path):
    f = list(MPI) + DEFS + ['-I%s/%s' % (REPO, i) for i in INC]
    if path.endswith('.c'):
        return ['clang', '-std=gnu11'] + f
    return ['clang++', '-std=gnu++11'] + f


class TU:
    """One translation unit: tables over the declarations that belong to the project."""

    def __init__(self, path):
        self.path = path
        full = path if os.path.isabs(path) else os.path.join(REPO, path)
        cmd = flags(full) + ['-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', full]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise ExtractError('clang failed on %s: %s' % (path, p.stderr.decode()[-2000:]))
        self.decl = {}      # id -> node (project decls, incl. locals and params)
        self.funcs = []     # definitions
        self.byid = {}
        self.records = {}   # qualified name -> node
        self.typedefs = {}  # name -> qualType
        self.enums = {}     # enumerator id -> value
        self.parent_of = {}
        self._slice(p.stdout)

    def _slice(self, data):
        pos = data.find(b'\n  "inner": [')
        start = data.find(b'\n    {', pos)
        while start >= 0:
            end = data.find(b'\n    }', start + 1)
            chunk = data[start:end + 6]
            nxt = data.find(b'\n    {', end)
            head = chunk[:700]
            self._top(chunk, head)
            start = nxt

    STDNS = re.compile(rb'\n      "name": "(std|__gnu_cxx|__cxxabiv1|__pstl|ompi_mpi_cpp|MPI)"')

    def _top(self, chunk, head):
        if b'"kind": "NamespaceDecl"' in head:
            if self.STDNS.search(chunk[:4000]):
                return
        elif b'"kind": "LinkageSpecDecl"' in head and b'"_REPO_' not in chunk and (REPO.encode() not in chunk and b'/repo/' not in chunk):
            # extern "C" blocks of system headers: keep only function names
            for m in re.finditer(rb'"id": "([^"]+)",\n\s+"kind": "FunctionDecl",(?:[^{}]|\{[^{}]*\})*?"name": "([^"]+)"', chunk[:0]):
                pass
        elif b'"kind": "TypedefDecl"' in head:
            m = re.search(rb'\n      "name": "([^"]+)",\n      "type": \{\n        (?:"desugaredQualType": "([^"]+)",\n        )?"qualType": "([^"]+)"', chunk)
            if m:
                self.typedefs[m.group(1).decode()] = (m.group(2) or m.group(3)).decode()
            o = re.search(rb'"ownedTagDecl": \{\s*"id": "([^"]+)"', chunk)
            if m and o:
                rec = self.decl.get(o.group(1).decode())
                if rec is not None and rec.get('_q', '') == '' and rec.get('kind', '').endswith('RecordDecl'):
                    q = m.group(1).decode()      # typedef struct {...} q;
                    rec['_q'] = q
                    self.records[q] = rec
                    for c in rec.get('inner', []):
                        c['_rec'] = q
            return
        elif b'"kind": "FunctionDecl"' in head and b'"CompoundStmt"' not in chunk:
            m = re.search(rb'"id": "([^"]+)"', chunk)
            n = re.search(rb'\n      "name": "([^"]+)"', chunk)
            if m and n:
                prev = re.search(rb'"previousDecl": "([^"]+)"', chunk[:1500])
                d = {'id': m.group(1).decode(), 'kind': 'FunctionDecl', 'name': n.group(1).decode()}
                # need params only for project headers; parse if small
                if len(chunk) < 20000 and not n.group(1).startswith(b'__'):
                    try:
                        d = json.loads(chunk.rstrip(b',').decode())
                    except ValueError:
                        pass
                self.decl[d['id']] = d
            return
        try:
            node = json.loads(chunk.rstrip(b',').decode())
        except ValueError as e:
            raise ExtractError('bad JSON chunk in %s: %s' % (self.path, e))
        self._walk(node, '')

    def _walk(self, n, scope):
        k = n.get('kind')
        if k is None:
            return
        if 'id' in n and k.endswith('Decl'):
            self.decl[n['id']] = n
        name = n.get('name', '')
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            sub = scope + (name + '::' if name else '')
            anon = k == 'NamespaceDecl' and not name
            for c in n.get('inner', []):
                if anon and c.get('kind') == 'VarDecl':
                    c['_anon'] = True
                self._walk(c, sub)
        elif k in ('CXXRecordDecl', 'RecordDecl', 'ClassTemplateSpecializationDecl'):
            q = scope + name
            if k == 'ClassTemplateSpecializationDecl':
                args = [a.get('type', {}).get('qualType', str(a.get('value', '?'))) for a in n.get('inner', []) if a.get('kind') == 'TemplateArgument']
                q += '<' + ', '.join(args) + '>'
            n['_q'] = q
            if n.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in n.get('inner', [])):
                self.records.setdefault(q, n)
            for c in n.get('inner', []):
                c['_rec'] = q
                self._walk(c, q + '::')
        elif k == 'ClassTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') == 'ClassTemplateSpecializationDecl':
                    self._walk(c, scope)
        elif k == 'FunctionTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and '_rec' not in c:
                    c['_tmpl'] = True
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                    self._walk(c, scope)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            self._func(n, scope)
        elif k == 'EnumDecl':
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    self.decl[c['id']] = c
                    ex = c.get('inner', [])
                    val = None
                    for e in ex:
                        val = _const(e)
                    v = val if val is not None else v + 1
                    self.enums[c['id']] = v
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            t = n.get('type', {})
            self.typedefs[scope + name] = t.get('desugaredQualType', t.get('qualType'))
            self.typedefs.setdefault(name, t.get('desugaredQualType', t.get('qualType')))
        elif k == 'VarDecl':
            n['_q'] = scope + name
            n['_global'] = True
        else:
            for c in n.get('inner', []):
                if isinstance(c, dict) and 'kind' in c and c['kind'].endswith('Decl'):
                    self._walk(c, scope)

    def _func(self, n, scope):
        name = n.get('name', '')
        par = n.get('parentDeclContextId')
        if par and par in self.decl and '_q' in self.decl[par]:
            q = self.decl[par]['_q'] + '::' + name
            n['_rec'] = self.decl[par]['_q']
        elif n.get('previousDecl') in self.decl and '_q' in self.decl[n['previousDecl']]:
            q = self.decl[n['previousDecl']]['_q']
            if '_rec' in self.decl[n['previousDecl']]:
                n['_rec'] = self.decl[n['previousDecl']]['_rec']
        else:
            q = scope + name
        n['_q'] = q
        n['_sig'] = n.get('type', {}).get('qualType', '')
        self.byid[n['id']] = n
        if n.get('previousDecl'):
            # definitions supersede declarations
            if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                p = n['previousDecl']
                while p in self.decl:
                    self.decl[p]['_def'] = n
                    p = self.decl[p].get('previousDecl')
        for c in n.get('inner', []):
            self._index_locals(c)
        if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
            self.funcs.append(n)

    def _index_locals(self, n):
        if not isinstance(n, dict):
            return
        if n.get('kind', '').endswith('Decl'):
            self.decl[n['id']] = n
            if n['kind'] in ('CXXRecordDecl',) and '_q' not in n:
                n['_q'] = n.get('name', '')
                self.records.setdefault(n['_q'], n)
        for c in n.get('inner', []):
            self._index_locals(c)

    def find(self, qname, sig=None, nparams=None):
        """All definitions whose qualified name is qname (and whose type contains sig)."""
        out = []
        for f in self.funcs:
            if f['_q'] == qname or f['_q'].split('<')[0] == qname:
                if sig is not None and sig not in f['_sig']:
                    continue
                if nparams is not None and len(params(f)) != nparams:
                    continue
                out.append(f)
        return out


def params(f):
    return [c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']


def body(f):
    for c in f.get('inner', []):
        if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None


def _const(e):
    if e.get('kind') == 'ConstantExpr' and 'value' in e:
        try:
            return int(e['value'])
        except ValueError:
            return None
    if e.get('kind') == 'IntegerLiteral':
        return int(e['value'])
    for c in e.get('inner', []):
        v = _const(c)
        if v is not None:
            return v
    return None
