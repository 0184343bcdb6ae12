"""Parser for the textual MIR rustc prints with -Zunpretty=mir (generic, unmonomorphised)."""
import re

class Unsupported(Exception):
    """A construct outside of the verifier's reach (never an alarm)."""

OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}

def split_top(s, sep=','):
    """Split at top-level separators, respecting (), [], {}, <> and string literals."""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur.append(s[i:j + 1]); i = j + 1; continue
        if c in '([{<':
            depth += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            depth -= 1
        if c == sep and depth == 0:
            out.append(''.join(cur).strip()); cur = []
        else:
            cur.append(c)
        i += 1
    last = ''.join(cur).strip()
    if last or out:
        out.append(last)
    if out and out[-1] == '':
        out.pop()
    return out

def match_open(s, close_pos):
    """Position of the opener matching the closer at close_pos (scans right from 0)."""
    stack, i = [], 0
    while i <= close_pos:
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            i = j + 1; continue
        if c in '([{<':
            stack.append(i)
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            p = stack.pop()
            if i == close_pos:
                return p
        i += 1
    raise Unsupported("unbalanced: " + s)

def match_close(s, open_pos):
    depth, i = 0, open_pos
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            i = j + 1; continue
        if c in '([{<':
            depth += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise Unsupported("unbalanced: " + s)

# ---- places -----------------------------------------------------------------------------------
# A place is ('_n', [proj...]) with proj: ('deref',) ('field', i) ('variant', name)
# ('index', local) ('cindex', i, from_end)
def parse_place(s):
    s = s.strip()
    base, projs = _place(s)
    return (base, tuple(projs))

def _place(s):
    s = s.strip()
    if re.fullmatch(r'_\d+', s):
        return s, []
    if s.startswith('(') and match_close(s, 0) == len(s) - 1:
        inner = s[1:-1].strip()
        if inner.startswith('*'):
            b, p = _place(inner[1:])
            return b, p + [('deref',)]
        # (P as Variant)  or (P.N: T)
        end = _place_end(inner)
        rest = inner[end:]
        b, p = _place(inner[:end])
        m = re.match(r' as ([A-Za-z_][\w]*)$', rest)
        if m:
            return b, p + [('variant', m.group(1))]
        m = re.match(r'\.(\d+): ', rest)
        if m:
            return b, p + [('field', int(m.group(1)))]
        raise Unsupported("place " + s)
    if s.endswith(']'):
        o = match_open(s, len(s) - 1)
        b, p = _place(s[:o])
        idx = s[o + 1:-1]
        if re.fullmatch(r'_\d+', idx):
            return b, p + [('index', idx)]
        m = re.fullmatch(r'(-?)(\d+) of (\d+)', idx)
        if m:
            return b, p + [('cindex', int(m.group(2)), m.group(1) == '-')]
        raise Unsupported("place index " + s)
    raise Unsupported("place " + s)

def _place_end(s):
    """End of the leading place in s."""
    if s[0] == '(':
        e = match_close(s, 0) + 1
    else:
        m = re.match(r'_\d+', s)
        if not m:
            raise Unsupported("place " + s)
        e = m.end()
    while e < len(s) and s[e] == '[':
        e = match_close(s, e) + 1
    return e

# ---- operands and rvalues -----------------------------------------------------------------------
def parse_operand(s):
    s = s.strip()
    s = s[len('no_retag '):] if s.startswith('no_retag ') else s
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    if re.match(r'[_(]', s):
        return ('copy', parse_place(s))
    return ('const', s)          # bare unit-like constants (e.g. function items)

BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Eq', 'Ne', 'Lt', 'Le',
          'Gt', 'Ge', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked', 'SubUnchecked',
          'MulUnchecked', 'Cmp', 'Offset', 'ShlUnchecked', 'ShrUnchecked'}
UNOPS = {'Neg', 'Not', 'PtrMetadata'}

def parse_rvalue(s):
    s = s.strip()
    s0 = s[len('no_retag '):] if s.startswith('no_retag ') else s
    m = re.match(r'(copy|move) ', s0)
    if m:
        # operand or cast
        end = m.end() + _place_end(s0[m.end():])
        rest = s0[end:]
        if rest == '':
            return ('use', parse_operand(s0))
        m2 = re.match(r' as (.*) \(([A-Za-z]+(?:\(.*\))?)\)$', rest)
        if m2:
            return ('cast', parse_operand(s0[:end]), m2.group(1), m2.group(2))
        raise Unsupported("rvalue " + s)
    if s.startswith('const '):
        m2 = re.match(r'(const .*) as (.*) \(([A-Za-z]+(?:\(.*\))?)\)$', s)
        if m2:
            return ('cast', parse_operand(m2.group(1)), m2.group(2), m2.group(3))
        return ('use', parse_operand(s))
    if s.startswith('&'):
        for p in ('&raw const (fake) ', '&raw mut ', '&raw const ', '&mut ', '&fake shallow ', '&'):
            if s.startswith(p):
                return ('ref', parse_place(s[len(p):]), 'mut' in p)
    m = re.match(r'(.*?) as (.*) \((PointerCoercion\(ReifyFnPointer.*\))\)$', s)
    if m and m.group(1)[0] != '<': return ('cast', ('const', m.group(1)), m.group(2), m.group(3))
    m = re.match(r'([A-Za-z]+)\(', s)
    if m and m.group(1) in BINOPS and s.endswith(')'):
        a = split_top(s[m.end():-1])
        return ('bin', m.group(1), parse_operand(a[0]), parse_operand(a[1]))
    if m and m.group(1) in UNOPS and s.endswith(')'):
        return ('un', m.group(1), parse_operand(s[m.end():-1]))
    if m and m.group(1) == 'discriminant':
        return ('discr', parse_place(s[m.end():-1]))
    if m and m.group(1) == 'Len':
        return ('len', parse_place(s[m.end():-1]))
    if s.startswith('(') and match_close(s, 0) == len(s) - 1:
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('['):
        inner = s[1:-1]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return ('repeat', parse_operand(parts[0]), parts[1])
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('{closure@'):
        e = match_close(s, 0)
        name = s[:e + 1]
        rest = s[e + 1:].strip()
        ops = []
        if rest:
            for f in split_top(rest[1:-1]):
                k = f.index(':')
                ops.append((f[:k].strip(), parse_operand(f[k + 1:])))
        return ('closure', name, ops)
    if s.endswith('}'):
        o = match_open(s, len(s) - 1)
        name = s[:o].strip()
        ops = []
        for f in split_top(s[o + 1:-1]):
            m3 = re.match(r'([A-Za-z_]\w*|\d+): ', f)
            ops.append((m3.group(1), parse_operand(f[m3.end():])))
        return ('struct', name, ops)
    if s.endswith(')'):
        o = match_open(s, len(s) - 1)
        return ('ctor', s[:o].strip(), [parse_operand(x) for x in split_top(s[o + 1:-1])])
    if re.fullmatch(r'[\w:<>&\' ,\[\];()!*\-]+', s):
        return ('ctor', s, [])
    raise Unsupported("rvalue " + s)

# ---- functions ------------------------------------------------------------------------------------
class Fn:
    def __init__(self, name, args, ret):
        self.name, self.args, self.ret = name, args, ret
        self.types = {}
        self.blocks = {}
        self.cleanup = set()
        self.debug = {}
        self.text = []
    def __repr__(self):
        return "Fn(%s)" % self.name

def parse_terminator(line):
    """Returns a terminator tuple or None if the line is a plain statement."""
    l = line[:-1] if line.endswith(';') else line
    m = re.fullmatch(r'goto -> (bb\d+)', l)
    if m:
        return ('goto', m.group(1))
    if l in ('return', 'resume', 'unreachable') or l.startswith('terminate'):
        return (l.split('(')[0],)
    if l.startswith('switchInt('):
        c = match_close(l, len('switchInt'))
        op = parse_operand(l[len('switchInt('):c])
        tg = l[l.index('[', c) + 1:-1]
        targets = []
        for t in split_top(tg):
            k, b = t.rsplit(': ', 1)
            targets.append((None if k == 'otherwise' else int(k), b))
        return ('switch', op, targets)
    if l.startswith('drop('):
        m = re.search(r'return: (bb\d+)', l)
        return ('goto', m.group(1))
    if l.startswith('assert('):
        c = match_close(l, len('assert'))
        parts = split_top(l[len('assert('):c])
        cond = parts[0]
        neg = cond.startswith('!')
        op = parse_operand(cond[1:] if neg else cond)
        m = re.search(r'success: (bb\d+)', l[c:])
        return ('assert', op, not neg, parts[1], m.group(1))
    if l.startswith('falseEdge') or l.startswith('falseUnwind'):
        m = re.search(r'(bb\d+)', l)
        return ('goto', m.group(1))
    m = re.search(r'\) -> (\[return: (bb\d+).*\]|unwind .*|bb\d+|\[unwind.*\])$', l)
    if m:
        body = l[:m.start() + 1]
        dest = None
        mm = re.match(r'(.+?) = ', body)
        # the destination is a place; everything after " = " is the call
        if body[0] in '_(' and mm:
            e = _place_end(body)
            if body[e:e + 3] == ' = ':
                dest = parse_place(body[:e])
                body = body[e + 3:]
        o = match_open(body, len(body) - 1)
        callee = body[:o].strip()
        args = [parse_operand(x) for x in split_top(body[o + 1:-1])]
        return ('call', dest, callee, args, m.group(2))
    return None

def const_name(l):
    """The name in a line 'const NAME: TYPE = {'."""
    l = re.sub(r'^(const|static) ', '', l.split(' = {')[0])
    d = 0
    for i, ch in enumerate(l):
        if ch in '<{[(': d += 1
        elif ch in '>}])' and l[i - 1:i] != '-': d -= 1
        elif d == 0 and l.startswith(': ', i): return l[:i]
    return l

def parse_mir(text):
    fns, consts = [], {}
    lines = text.split('\n')
    i, n = 0, len(lines)
    while i < n:
        l = lines[i]
        m = re.match(r'(const|static) (.+?): (.+?) = const (.+);$', l)
        if m:
            consts[const_name(l.split(' = const')[0])] = (m.group(3), m.group(4)); i += 1; continue
        isfn = l.startswith('fn ') and l.endswith('{')
        mc = re.match(r'(?:const|static|promoted\[\d+\] in)\s*(.+?): (.+) = \{$', l) or \
            re.match(r'()(.+::promoted\[\d+\]|promoted\[\d+\] in .+): (.+) = \{$', l)
        if isfn or mc:
            if isfn:
                head = l[3:-1].strip()
                # name(args) -> ret
                k = head.index('(_1') if '(_1' in head else head.index('() ->')
                name = head[:k]
                c = match_close(head, k)
                args = []
                for a in split_top(head[k + 1:c]):
                    q = a.index(': ')
                    args.append((a[:q], a[q + 2:]))
                ret = head[c + 1:].strip()
                ret = ret[3:] if ret.startswith('-> ') else '()'
                f = Fn(name, args, ret)
            else:
                f = Fn(const_name(l), [], '')
            f.types.update(dict(f.args))
            i += 1
            cur = None
            while lines[i] != '}':
                s = lines[i].strip()
                f.text.append(s)
                m = re.match(r'let (?:mut )?(_\d+): (.*);$', s)
                if m:
                    f.types[m.group(1)] = m.group(2)
                elif s.startswith('debug '):
                    m = re.match(r'debug (\w+) => (.*);$', s)
                    if m:
                        f.debug.setdefault(m.group(1), []).append(m.group(2))
                elif re.match(r'bb\d+( \(cleanup\))?: \{$', s):
                    cur = s.split(':')[0].split(' ')[0]
                    if 'cleanup' in s:
                        f.cleanup.add(cur)
                    f.blocks[cur] = []
                elif s == '}' or s.startswith('scope ') or s == '':
                    if s == '}':
                        cur = None if cur and lines[i].startswith('    }') else cur
                elif cur is not None:
                    f.blocks[cur].append(s)
                i += 1
            if isfn:
                fns.append(f)
            else:
                old = consts.get(f.name)
                # of the same name for both dimensions and not the same: unusable
                consts[f.name] = f if old is None or isinstance(old, Fn) and old.text == f.text else None
        i += 1
    return fns, consts

def lower(f):
    """Parse the statements of all non-cleanup blocks (lazily, on first execution)."""
    out = {}
    for b, ss in f.blocks.items():
        if b in f.cleanup:
            continue
        stmts, term = [], None
        for s in ss:
            t = parse_terminator(s)
            if t is not None:
                term = t
                continue
            if s.startswith(('StorageLive', 'StorageDead', 'FakeRead', 'PlaceMention', 'AscribeUserType', 'nop',
                             'Coverage', 'ConstEvalCounter', 'Retag')):
                continue
            if s.startswith('discriminant('):
                raise Unsupported("set discriminant")
            if s.startswith(('assume(', 'deinit', 'copy_nonoverlapping')):
                raise Unsupported(s)
            e = _place_end(s)
            if s[e:e + 3] != ' = ':
                raise Unsupported("statement " + s)
            stmts.append((parse_place(s[:e]), parse_rvalue(s[e + 3:-1])))
        out[b] = (stmts, term)
    return out
