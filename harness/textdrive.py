"""Random cases for the text reading specification."""
import random

from tokens import cps

DELIMS = [None, None, ',', ';', '\t', ' ', '|', '||', ';;', ':', ', ', '\x1f'[:0] or '#']
LETTERS = 'abcxyzABQ_'
UNI = u'åäöÅéß'


def word(rng, uni=True, inner=False):
    n = rng.choice([1, 1, 2, 3, 5])
    s = ''.join(rng.choice(LETTERS + (UNI if uni and rng.random() < .3 else ''))
                for i in range(n))
    # not a number by accident
    return s if s.lower() not in ('nan', 'inf', 'infinity') else s + 'q'


def plain_number(rng):
    r = rng.random()
    if r < .5:
        return str(rng.randint(-999, 9999))
    if r < .8:
        return '%d.%d' % (rng.randint(-99, 99), rng.randint(0, 999))
    return '%.3f' % rng.uniform(-10, 10)


def number(rng, comma=None):
    """Number text in many notations."""
    r = rng.random()
    dec = ',' if comma else '.'
    sign = rng.choice(['', '', '', '-', '+'])
    if r < .25:
        s = str(rng.choice([0, 1, 7, 10, 100, 12345, rng.randint(0, 10**9)]))
    elif r < .6:
        s = '%d%s%s' % (rng.randint(0, 1000), dec, ''.join(rng.choice('0123456789')
                                                           for i in range(rng.randint(1, 6))))
    elif r < .68:
        s = dec + str(rng.randint(0, 999))
    elif r < .76:
        s = str(rng.randint(0, 99)) + dec
    elif r < .9:
        s = '%d%s%s%s%s' % (rng.randint(0, 99), rng.choice([dec + '5', dec + '25', '']),
                            rng.choice('eE'), rng.choice(['', '-', '+']), rng.randint(0, 30))
    elif r < .94:
        s = '0' * rng.randint(1, 3) + str(rng.randint(0, 99))
    else:
        return rng.choice(['nan', 'NaN', 'inf', '-inf', 'Infinity', '+INF', '-nan'])
    return sign + s


def sep_ok(s, delim):
    """The field s keeps together in a line delimited with delim."""
    if delim is None:
        return s != '' and not any(c.isspace() for c in s)
    return delim not in s and s.strip('\n\r') == s


def pad(rng, s, delim, amount=.3):
    """White space around a field."""
    if delim is None or rng.random() > amount:
        return s
    w = [c for c in ' \t' if c != delim]
    return (''.join(rng.choice(w) for i in range(rng.choice([0, 1, 2]))) + s +
            ''.join(rng.choice(w) for i in range(rng.choice([0, 1, 2]))))


def newline(rng, nl):
    return nl if rng.random() < .97 else nl


def joinrow(rng, fields, delim):
    if delim is None:
        return ''.join(f + (rng.choice([' ', ' ', '  ', '\t', ' \t ']) if i < len(fields) - 1 else '')
                       for i, f in enumerate(fields))
    return delim.join(fields)


def base(rng, prop, api='text'):
    return {'prop': prop, 'api': api, 'given': [], 'parse': 25, 'table': [],
            'prm': {'mode': 't', 'enc': 'utf-8', 'delim': [], 'skip': 0, 'usecols': [],
                    'names': [], 'hasnames': False, 'convs': [], 'strip': False,
                    'style': rng.randint(0, 3)}}


def finish(case, text):
    case['content'] = cps(text)
    case['bytes'] = list(text.encode(case['prm']['enc']))
    return case


def selection(rng, case, ncols, delim, allow_beyond=True):
    """Choose usecols or names or hasnames."""
    prm = case['prm']
    r = rng.random()
    cols = list(range(ncols + (1 if allow_beyond and rng.random() < .15 else 0)))
    sub = rng.sample(cols, rng.randint(1, len(cols))) if cols else []
    if r < .3 and sub:
        if rng.random() < .2:
            sub = sub + [rng.choice(sub)]
        prm['usecols'] = [sub]
    elif r < .45 and sub:
        prm['names'] = [[[c, cps(word(rng))] for c in sorted(sub)]]
        if rng.random() < .3:
            prm['usecols'] = [rng.sample(cols, rng.randint(1, len(cols)))]
        if rng.random() < .2:
            prm['hasnames'] = True
    if r >= .45 and r < .75 or (r < .3 and rng.random() < .4):
        prm['hasnames'] = True


def layout_case(rng, prop='C14', content='plain', failing=False, ragged=.15):
    case = base(rng, prop)
    prm = case['prm']
    delim = rng.choice(DELIMS)
    if content == 'numeric' and delim in (',', ', '):
        delim = ';'
    prm['delim'] = [cps(delim)] if delim is not None else []
    prm['enc'] = rng.choice(['utf-8', 'latin-1'])
    ncols = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
    nrows = rng.choice([0, 1, 1, 2, 3, 4, 6, 9])
    big = rng.random()
    if big < .07:
        ncols = rng.choice([10, 11, 12, 13, 15, 27, 27, 101])
        nrows = min(nrows, 3)
    elif big < .085:
        nrows = rng.choice([30, 70, 140])
    kinds = []
    comma = content == 'numeric' and rng.random() < .5
    for c in range(ncols):
        kinds.append(rng.choice(['num', 'num', 'str'] + (['mixstr'] if content != 'plain' else [])))
    selection(rng, case, ncols, delim)
    prm['strip'] = rng.random() < .4
    if content == 'numeric' and rng.random() < .4:
        for c in rng.sample(range(ncols), rng.randint(1, ncols)):
            prm['convs'].append([c, rng.choice(['len', 'rev', 'ident', 'float'])])
    skip = rng.choice([0, 0, 1, 2, 3] if rng.random() < .97 else [10, 30])
    if prm['hasnames']:
        skip = max(skip, 1)
    prm['skip'] = skip
    nl = rng.choice(['\n', '\n', '\n', '\r\n'])
    lines = []
    for i in range(skip - 1 if prm['hasnames'] else skip):
        lines.append(rng.choice(['', '# comment', 'a;b,c d', '1 2 3', '  ', 'x' * 5]))
    if prm['hasnames']:
        nh = ncols if rng.random() < .8 else max(1, ncols + rng.choice([-1, 1]))
        h = [pad(rng, word(rng), delim) for i in range(nh)]
        if delim is not None and rng.random() < .1:
            h[rng.randrange(len(h))] = ''
        lines.append(joinrow(rng, h, delim))
    if len(lines) < skip and rng.random() < .5:
        pass
    for r in range(nrows):
        row = []
        n = ncols
        if rng.random() < ragged and r:
            n = max(1, ncols + rng.choice([-1, -1, 1, 2]))
        for c in range(n):
            k = kinds[c] if c < ncols else 'str'
            if content == 'plain':
                f = plain_number(rng) if k == 'num' else word(rng)
                if delim is not None and rng.random() < .08 and c > 0:
                    f = ''
                elif k == 'num' and rng.random() < .15:
                    f = pad(rng, f, delim)
            elif k == 'num':
                f = number(rng, comma and rng.random() < .8)
                if delim is not None and rng.random() < .12 and (r or rng.random() < .2):
                    f = ''
                else:
                    f = pad(rng, f, delim, .2)
                if failing and rng.random() < .06:
                    f = rng.choice(['x1', '1.2.3', '-', 'e5', '1e', '1 2' if delim else '12x'])
            elif k == 'str':
                f = pad(rng, word(rng) if rng.random() < .8 else rng.choice(
                    ['x1', '1.2.3', '1,2,3', '--1', '12x', '1e', 'n1,5', "'", '"q"']), delim)
                if delim is not None and rng.random() < .1:
                    f = ''
            else:
                f = pad(rng, (word(rng) if r == 0 else number(rng)), delim)
            if not sep_ok(f, delim):
                f = 'q' if k != 'num' else '1'
            row.append(f)
        if failing and r == nrows - 1 and rng.random() < .3:
            row[rng.randrange(len(row))] = 'bad'
        line = joinrow(rng, row, delim)
        if delim in (', ',):
            if not row[-1].strip():
                row[-1] = 'z'
            line = delim.join(row)
        if rng.random() < .2:
            line = rng.choice([' ', '\t', '  ']) + line if delim not in (' ', '\t') else line
        if rng.random() < .2:
            line = line + (rng.choice([' ', '\t', ' \t']) if delim not in (' ', '\t') else
                           ('\t' if delim == ' ' else ' '))
        lines.append(line)
        if rng.random() < .12:
            lines.append(rng.choice(['', ' ' if delim != ' ' else '\t', '\t' if delim != '\t' else ' ']))
    if rng.random() < .1:
        lines.insert(min(len(lines), skip), rng.choice(['', '']))
    if rng.random() < .15 and nrows:
        lines += [''] * rng.randint(1, 2)
    text = nl.join(lines)
    if lines and rng.random() < .85:
        text += nl
    return finish(case, text)


HEADS = ['Measurement', 'Date: today', 'operator NN', '', '# file', 'units', 'no numbers at all here',
         'made by x;y;z', 'one two', 'one,two', 'a', '---', '*** !!!', 'v. A']


def table_number(rng, comma, simple=False):
    dec = ',' if comma else '.'
    sign = rng.choice(['', '', '', '-', '+'])
    r = rng.random()
    if r < .35:
        s = str(rng.randint(0, 99999))
    elif r < .75 or simple:
        s = '%d%s%s' % (rng.randint(0, 500), dec, ''.join(rng.choice('0123456789')
                                                         for i in range(rng.randint(1, 5))))
    elif r < .8:
        s = dec + str(rng.randint(0, 999))
    elif r < .85:
        s = str(rng.randint(0, 99)) + dec
    else:
        s = '%d%s5%s%s%d' % (rng.randint(0, 9), dec, rng.choice('eE'),
                             rng.choice(['', '-', '+']), rng.randint(0, 20))
    return sign + s


def table_case(rng, prop='C18'):
    """A rendered table, with what it is made of."""
    case = base(rng, prop, 'lazy')
    comma = rng.random() < .45
    ncols = rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 8, 12])
    nrows = rng.choice([1, 2, 3, 4, 6, 10])
    parse = rng.choice([25, 25, 25, 12, 6])
    sep = rng.choice([' ', '\t', '  ', ';', '|', ':', '||', ';;', '#', '&', '::', '/', '\t\t',
                      ' ; ', ' | ', '_', '=>', ' # '] + ([',', ', '] if not comma else []))
    if ncols == 1:
        sep = ''
    intlast = rng.random() < .15
    rows = []
    for r in range(nrows):
        row = [table_number(rng, comma) for c in range(ncols)]
        rows.append(row)
    lastp = None
    heads = []
    nheads = rng.choice([0, 0, 1, 1, 2, 3, 5])
    big = rng.random()
    if big < .04:
        nrows = rng.choice([24, 26, 40, 80])
        rows = [[table_number(rng, comma) for c in range(ncols)] for r in range(nrows)]
    elif big < .1:
        nheads = rng.choice([7, 10, 15, 21])
    headp = .45 if nheads < 6 else .1
    for i in range(nheads):
        r = rng.random()
        if r < headp:
            n = ncols if rng.random() < .75 else max(1, ncols + rng.choice([-1, 1]))
            ws = [word(rng, uni=True) for k in range(n)]
            if rng.random() < .2:
                ws[rng.randrange(n)] += '(m/s)' if '/' not in sep else '[ms]'
            if rng.random() < .15:
                ws[0] = rng.choice(['(t)', '%', '*']) + ws[0]
            if rng.random() < .2 and n > 1:
                k = rng.randrange(1, n)
                ws[k] = rng.choice(['(t)', '%', '*', '(', '$']) + ws[k]
            j = sep if sep else ' '
            heads.append(j.join(ws) + (sep if sep.strip() and rng.random() < .1 else ''))
        else:
            heads.append(rng.choice(HEADS))
    # visible to preparse: the lines of data among the first `parse` lines
    while len(heads) >= parse:
        heads.pop()
    nvis = min(nrows, parse - len(heads))
    if comma:
        # the last parsed line tells decimal comma, or is all integers
        # while a line above tells
        row = rows[nvis - 1]
        if intlast and nvis > 1:
            rows[nvis - 1] = [str(rng.randint(0, 99)) for c in range(ncols)]
            rows[nvis - 2][rng.randrange(ncols)] = '3,25'
        elif not any(',' in f for f in row):
            row[rng.randrange(ncols)] = '1,5'
    elif sep.strip() == ',' or sep == ', ':
        # decimal points on the last parsed line, otherwise it is one
        # or more numbers with decimal comma
        rows[nvis - 1] = ['%d.%d' % (rng.randint(0, 9), rng.randint(0, 99)) for c in range(ncols)]
    if sep in ('_', '/', '=>', '#', '&', '::', ':', '||', '|', ';', ';;'):
        pass
    indent = rng.random() < .2
    lines = list(heads)
    for k, row in enumerate(rows):
        line = sep.join(row)
        if indent and (rng.random() < .7 or k == nvis - 1):
            line = rng.choice([' ', '  ', '\t']) + line
        if sep.strip() and rng.random() < .1:
            line += sep.rstrip() if rng.random() < .5 and sep.strip() not in ('_', '/', '=>') else ' '
        elif rng.random() < .08:
            line += ' ' if sep not in (' ',) else '\t'
        lines.append(line)
    nsep = sep if (sep and not sep.strip()) else sep.strip()
    if nsep and not nsep.strip() and any(l[:1].isspace() for l in lines[len(heads):len(heads) + nvis]):
        nsep = ''
    if ncols == 1:
        nsep = ''
    text = '\n'.join(lines) + ('\n' * rng.choice([0, 1, 1, 1, 2, 3]))
    case['parse'] = parse
    case['table'] = [{'rows': [[cps(f) for f in r] for r in rows], 'comma': comma,
                      'heads': [cps(h) for h in heads], 'sep': cps(nsep)}]
    return finish(case, text)


FRAGS = ['1', '2', '3.5', '4,5', '-1', '+2', '1e5', '.5', ',5', '7.', '8,', 'a', 'bc', 'x1', '',
         '1.2.3', '1-2', '(1', '2)', 'nan', 'e', '-', '%']
SEPS = [' ', '  ', '\t', ';', ',', ', ', ' ; ', ':', '|', '/']


def wild_case(rng, prop='C19'):
    """Anything: lines of fragments, with overrides given at random."""
    case = base(rng, prop, 'lazy')
    prm = case['prm']
    sep = rng.choice(SEPS)
    lines = []
    for i in range(rng.choice([0, 1, 2, 3, 5, 8])):
        r = rng.random()
        n = rng.choice([1, 2, 2, 3])
        s = sep if rng.random() < .85 else rng.choice(SEPS)
        if r < .1:
            line = rng.choice(['', ' ', '\t'])
        elif r < .55:
            line = s.join(rng.choice(FRAGS[:11]) for k in range(n))
        elif r < .8:
            line = s.join(word(rng) for k in range(n))
        else:
            line = ''.join(rng.choice(FRAGS + SEPS) for k in range(rng.randint(1, 7)))
        if rng.random() < .1:
            line = ' ' + line
        lines.append(line)
    text = '\n'.join(lines) + '\n' * rng.choice([0, 1, 1, 2])
    case['parse'] = rng.choice([25, 25, 3, 1, 2])
    given = []
    if rng.random() < .6:
        for k in ('delim', 'skip', 'usecols', 'names', 'hasnames', 'convs', 'strip', 'enc'):
            if rng.random() < .22:
                given.append(k)
    if 'delim' in given:
        d = rng.choice([None, ' ', ';', ',', '\t', ':', '|'])
        prm['delim'] = [cps(d)] if d else []
    if 'skip' in given:
        prm['skip'] = rng.randint(0, 4)
    if 'usecols' in given:
        prm['usecols'] = [rng.sample(range(4), rng.randint(1, 3))]
    if 'names' in given:
        prm['names'] = [[[c, cps(word(rng))] for c in sorted(rng.sample(range(4), rng.randint(1, 3)))]]
    if 'hasnames' in given:
        prm['hasnames'] = rng.random() < .8
    if 'convs' in given:
        prm['convs'] = [[0, rng.choice(['len', 'rev', 'ident', 'float'])]] if rng.random() < .8 else []
    if 'strip' in given:
        prm['strip'] = rng.random() < .8
    case['given'] = given
    return finish(case, text)
