"""Small C source scanner: finds functions and loops so that loop contracts can be
placed on a per-run copy of the real source.  Inserting annotations never removes or
changes a token of the code under verification."""
import re


def mask(text):
    """Replace comments, string/char literals, preprocessor lines and #if 0 blocks by
    spaces of the same length (newlines kept)."""
    out = list(text)
    i, n = 0, len(text)

    def blank(a, b):
        for j in range(a, min(b, n)):
            if out[j] != '\n':
                out[j] = ' '
    while i < n:
        c = text[i]
        if text.startswith('/*', i):
            e = text.find('*/', i + 2)
            e = n if e < 0 else e + 2
            blank(i, e)
            i = e
        elif text.startswith('//', i):
            e = text.find('\n', i)
            e = n if e < 0 else e
            blank(i, e)
            i = e
        elif c == '"' or c == "'":
            j = i + 1
            while j < n and text[j] != c and text[j] != '\n':
                j += 2 if text[j] == '\\' else 1
            blank(i + 1, j)
            i = j + 1
        else:
            i += 1
    m = ''.join(out)
    lines = m.split('\n')
    res = []
    stack = []      # state of conditional groups: True = inside a dead "#if 0"
    cont = False
    for ln in lines:
        s = ln.strip()
        if cont or s.startswith('#'):
            d = re.match(r'#\s*(if|ifdef|ifndef|else|elif|endif)\b(.*)', s)
            if d and not cont:
                k = d.group(1)
                if k in ('if', 'ifdef', 'ifndef'):
                    stack.append(k == 'if' and d.group(2).strip() == '0')
                elif k == 'endif' and stack:
                    stack.pop()
                elif k in ('else', 'elif') and stack:
                    stack[-1] = False
            cont = ln.rstrip().endswith('\\')
            res.append(' ' * len(ln))
            continue
        res.append(' ' * len(ln) if any(stack) else ln)
    return '\n'.join(res)


def match_close(m, i, o, c):
    d = 0
    for j in range(i, len(m)):
        if m[j] == o:
            d += 1
        elif m[j] == c:
            d -= 1
            if d == 0:
                return j
    return -1


def functions(m):
    """{name: (start of body '{', end '}')} of the functions defined in masked text."""
    res = {}
    depth = 0
    i = 0
    n = len(m)
    while i < n:
        c = m[i]
        if c == '{':
            d = m[:i].rstrip()
            # a function body is a '{' preceded by ')' at depth 0
            e = match_close(m, i, '{', '}')
            if e < 0:
                return res
            if d.endswith(')'):
                # matching '('
                k, lvl = len(d) - 1, 0
                while k >= 0:
                    if d[k] == ')':
                        lvl += 1
                    elif d[k] == '(':
                        lvl -= 1
                        if lvl == 0:
                            break
                    k -= 1
                nm = re.search(r'([A-Za-z_]\w*)\s*$', d[:k])
                if nm:
                    res[nm.group(1)] = (i, e)
            i = e + 1
            continue
        i += 1
    return res


def loops(m, body):
    """The loops of a function body in order: (kind, header start, header end (after ')'))"""
    b, e = body
    res = []
    tails = set()
    for t in re.finditer(r'\b(for|while|do)\b', m[b:e]):
        p = b + t.start()
        if p in tails:
            continue
        k = t.group(1)
        if k == 'do':
            q = m.find('{', p)
            c = match_close(m, q, '{', '}')
            w = re.compile(r'\s*while\b').match(m, c + 1)
            if not w:
                continue
            wp = w.end() - 5
            tails.add(wp)
            o = m.find('(', wp)
            c2 = match_close(m, o, '(', ')')
            res.append(('do', o, c2 + 1, p))
        else:
            o = m.find('(', p)
            c2 = match_close(m, o, '(', ')')
            res.append((k, o, c2 + 1, p))
    return res


class PlaceError(Exception):
    pass


def called(m, body, names):
    b, e = body
    return [x for x in re.findall(r'\b([A-Za-z_]\w*)\s*\(', m[b:e]) if x in names]


def annotate(text, anns, conds=()):
    """anns: list of (func, k, annotation); conds: list of (func, k, ghost expression).
    Returns (new text, {(func,k): header}).  k counts from 1.  The annotation is inserted on
    the header line.  A ghost expression is conjoined to the loop condition ("(C) && (G)");
    G always evaluates to 1 and only updates or constrains ghost state."""
    m = mask(text)
    fns = functions(m)
    ins = []
    headers = {}
    annotated = {a[0] for a in anns}
    for func, k, ann in anns:
        if func not in fns:
            raise PlaceError('function %s not found' % func)
        lp = loops(m, fns[func])
        if len(lp) < k:
            # the loop may have moved into a helper called from here
            for h in called(m, fns[func], fns):
                if h in annotated or h == func:
                    continue
                l2 = loops(m, fns[h])
                lp = lp + l2
            if len(lp) < k:
                raise PlaceError('loop %d of %s not found' % (k, func))
        kind, o, c, st = lp[k - 1]
        headers[(func, k)] = kind + ' ' + re.sub(r'\s+', '', m[o:c])
        ins.append((st + 2 if kind == 'do' else c, ' ' + ann + ' '))
    for func, k, g in conds:
        first = g.startswith('@first ')
        g = g[7:] if first else g
        if func not in fns or len(loops(m, fns[func])) < k:
            raise PlaceError('loop %d of %s not found' % (k, func))
        kind, o, c, st = loops(m, fns[func])[k - 1]
        headers[(func, k)] = kind + ' ' + re.sub(r'\s+', '', m[o:c])
        a, b = o + 1, c - 1
        if kind == 'for':
            semi, d = [], 0
            for j in range(o, c):
                if m[j] == '(':
                    d += 1
                elif m[j] == ')':
                    d -= 1
                elif m[j] == ';' and d == 1:
                    semi.append(j)
            a, b = semi[0] + 1, semi[1]
        if not m[a:b].strip():
            ins.append((a, ' 1 '))
        if first:
            ins.append((a, ' (' + g + ') && ('))
            ins.append((b, ')'))
        else:
            ins.append((a, ' ('))
            ins.append((b, ') && (' + g + ') '))
    for pos, s in sorted(ins, key=lambda x: x[0], reverse=True):
        text = text[:pos] + s + text[pos:]
    return text, headers
