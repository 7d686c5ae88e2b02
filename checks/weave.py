"""Insert loop contracts into a copy of a C source file.

The only edits are insertions: contract text between a loop header `while (...)`/`for (...)` and its
body, optional ghost statements at the start of the body, before the loop and after it.  No character of the original is removed, and line numbers are kept.
"""
import re


class WeaveError(Exception):
    pass


def mask(text):
    """Same length text with comments, strings and preprocessor lines blanked."""
    out = list(text)
    i, n = 0, len(text)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    bol = True
    while i < n:
        c = text[i]
        if text.startswith('/*', i):
            j = text.find('*/', i + 2)
            j = n if j < 0 else j + 2
            blank(i, j)
            i = j
            continue
        if text.startswith('//', i):
            j = text.find('\n', i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
            continue
        if c in '"\'':
            j = i + 1
            while j < n and text[j] != c:
                j += 2 if text[j] == '\\' else 1
            blank(i, min(n, j + 1))
            i = j + 1
            bol = False
            continue
        if c == '#' and bol:
            j = i
            while True:
                k = text.find('\n', j)
                if k < 0:
                    k = n
                    break
                if text[k - 1] == '\\':
                    j = k + 1
                    continue
                break
            blank(i, k)
            i = k
            continue
        if c == '\n':
            bol = True
        elif not c.isspace():
            bol = False
        i += 1
    return ''.join(out)


def match(m, i, o, c):
    d = 0
    for k in range(i, len(m)):
        if m[k] == o:
            d += 1
        elif m[k] == c:
            d -= 1
            if d == 0:
                return k
    raise WeaveError('unbalanced')


def function_body(m, name):
    for x in re.finditer(r'\b%s\s*\(' % re.escape(name), m):
        j = match(m, x.end() - 1, '(', ')')
        k = j + 1
        while k < len(m) and m[k].isspace():
            k += 1
        if k < len(m) and m[k] == '{':
            return k, match(m, k, '{', '}')
    raise WeaveError('function %s not found' % name)


def loops(m, a, b):
    res = []
    do_whiles = set()
    for x in re.finditer(r'\b(do|while|for|embc_list_foreach)\b', m[a:b]):
        p = a + x.start()
        if x.group(1) == 'do':
            k = a + x.end()
            while m[k].isspace():
                k += 1
            if m[k] == '{':
                e = match(m, k, '{', '}')
                y = re.match(r'\s*while\b', m[e + 1:])
                if y:
                    do_whiles.add(e + 1 + y.end() - 5)
            continue
        if p in do_whiles:
            continue
        k = a + x.end()
        while m[k].isspace():
            k += 1
        if m[k] != '(':
            continue
        e = match(m, k, '(', ')')
        res.append((p, e))
    return res


def weave_source(text, ws):
    m = mask(text)
    ins = []
    for w in ws:
        a, b = function_body(m, w.func)
        ls = loops(m, a, b)
        if w.loop >= len(ls):
            raise WeaveError('function %s has no loop %d' % (w.func, w.loop))
        p, e = ls[w.loop]
        if w.before:
            ins.append((p, ' ' + w.before.replace('\n', ' ') + ' '))
        ins.append((e + 1, ' ' + w.contract.replace('\n', ' ') + ' '))
        if w.ghost:
            k = e + 1
            while m[k].isspace():
                k += 1
            if m[k] != '{':
                raise WeaveError('loop %d of %s has no braces' % (w.loop, w.func))
            ins.append((k + 1, ' ' + w.ghost.replace('\n', ' ') + ' '))
        if w.after:
            k = e + 1
            while m[k].isspace():
                k += 1
            if m[k] != '{':
                raise WeaveError('loop %d of %s has no braces' % (w.loop, w.func))
            ins.append((match(m, k, '{', '}') + 1, ' ' + w.after.replace('\n', ' ') + ' '))
    for pos, s in sorted(ins, key=lambda x: -x[0]):
        text = text[:pos] + s + text[pos:]
    return text
