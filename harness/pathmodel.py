"""os.path for symbolic paths (POSIX; after Lib/posixpath.py)"""


def _fs(p):
    return p if isinstance(p, str) else str(p)


def join(a, *p):
    path = _fs(a)
    for b in p:
        b = _fs(b)
        if b.startswith('/') or not path:
            path = b
        elif path.endswith('/'):
            path = path + b
        else:
            path = path + '/' + b
    return path


def split(p):
    p = _fs(p)
    i = p.rfind('/') + 1
    head, tail = p[:i], p[i:]
    if head and head != '/' * len(head):
        head = head.rstrip('/')
    return head, tail


def basename(p):
    return split(p)[1]


def dirname(p):
    return split(p)[0]


def isabs(p):
    return _fs(p).startswith('/')


def splitext(p):
    p = _fs(p)
    sep, dot = p.rfind('/'), p.rfind('.')
    if dot > sep:
        i = sep + 1
        while i < dot:
            if p[i:i + 1] != '.':
                return p[:dot], p[dot:]
            i += 1
    return p, p[:0]


def normpath(path):
    path = _fs(path)
    if path == '':
        return '.'
    initial = 0
    if path.startswith('/'):
        initial = 2 if path.startswith('//') and not path.startswith('///') else 1
        path = path.lstrip('/')
    new = []
    for c in path.split('/'):
        if c == '' or c == '.':
            continue
        if c != '..' or (not initial and not new) or (new and new[-1] == '..'):
            new.append(c)
        elif new:
            new.pop()
    r = '/' * initial + '/'.join(new)
    return r if r != '' else '.'


def abspath(path):
    path = _fs(path)
    if not path.startswith('/'):
        path = join(_cwd(), path)
    return normpath(path)


def _cwd():
    import os
    return os.getcwd()
