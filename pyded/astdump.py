# Runs on Jython (Python 2.7): dump the syntax trees of the files named on the
# command line, as the runtime's own parser sees them, as one JSON object.
import ast, sys, json

def unexposed(n):
    # nodes that Jython does not expose to Python (dict comprehensions): read through their Java accessors
    t = repr(type(n))
    if 'org.python.antlr.ast.' not in t:
        return None
    from java.lang import Class
    nm = t.split('org.python.antlr.ast.')[1].split("'")[0]
    d = {'_': nm}
    for m in Class.getMethods(Class.forName('org.python.antlr.ast.' + nm)):
        k = m.getName()
        if k.startswith('getInternal') and not m.getParameterTypes():
            v = m.invoke(n, [])
            d[k[len('getInternal'):].lower()] = conv(v if isinstance(v, ast.AST) or not hasattr(v, '__iter__') else list(v))
    return d

def conv(n):
    if isinstance(n, ast.AST):
        d = {'_': n.__class__.__name__}
        if hasattr(n, 'lineno'):
            d['l'] = n.lineno
        for f in (n._fields or ()):
            d[f] = conv(getattr(n, f, None))
        return d
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if isinstance(n, bool) or n is None:
        return n
    if isinstance(n, (int, long)):
        return int(n)
    if isinstance(n, float):
        return {'_': 'float', 'v': repr(n)}
    if isinstance(n, complex):
        return {'_': 'complex'}
    if isinstance(n, unicode):
        return n
    if isinstance(n, str):
        return n.decode('latin-1')
    d = unexposed(n)
    if d is not None:
        return d
    try:
        return unicode(str(n))
    except Exception:
        return None

out = {}
for path in sys.argv[1:]:
    try:
        src = open(path).read().replace('\r\n', '\n').replace('\r', '\n')
        tree = ast.parse(src, path)
        out[path] = conv(tree)
    except Exception as e:
        out[path] = {'_': 'ParseError', 'msg': '%s: %s' % (e.__class__.__name__, e)}
json.dump(out, sys.stdout)
