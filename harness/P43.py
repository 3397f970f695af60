"""P43: the commands of a list, and the demonstrations, are run as if each were entered alone."""
import os
from symx.check import Harness
from harness.P24 import Any, Patch, shell

ALPHA = 'aZ -"\'\\#|;=,1.'


class Parsed(Any):
    pass


def outname(a):
    """the output a command names for itself (options of the program are plain words)"""
    r = None
    for k, e in enumerate(a):
        if any(isinstance(e, str) and e == o for o in ('-o', '--out')):
            r = a[k + 1] if k + 1 < len(a) else ''
    return r


class Parser:
    def parse_args(self, a=None, ns=None):
        return Parsed(out=outname(a), demo=any(isinstance(e, str) and e == '-demo' for e in a))


def quoted(w):
    """a word as a shell user writes it within single quotes"""
    return "'" + w.replace("'", "'\\''") + "'"


def dquoted(w):
    return '"' + w.replace('\\', '\\\\').replace('"', '\\"') + '"'


def commands(I, c):
    """list of (line, words)"""
    r = []
    for k, kind in enumerate(c['lines']):
        f = lambda n, al=ALPHA: I.text(f'l{k}', n, al)
        if kind == 'plain':
            w = f(2, 'aZ1.=,|%')
            r.append(('-title Plot ' + w + ' -cs neukumivanov -p source=x' + w + '.scc,range=[2,5] -p type=poisson', ['-title', 'Plot', w, '-cs', 'neukumivanov', '-p', 'source=x' + w + '.scc,range=[2,5]', '-p', 'type=poisson']))
        elif kind == 'single':
            w = f(2)
            r.append(('-title ' + quoted(w) + ' -mu', ['-title', w, '-mu']))
        elif kind == 'double':
            w = f(2)
            r.append(('-p source=' + dquoted('%sample%/' + w + ' b.scc') + ',name=x -b', ['-p', 'source=%sample%/' + w + ' b.scc,name=x', '-b']))
        elif kind == 'spaces':
            w = f(1)
            r.append(('  -pr  cumul \t-title ' + quoted(w + ' ') + '  ', ['-pr', 'cumul', '-title', w + ' ']))
        elif kind == 'empty':
            r.append(('-p source=a.scc -title ""', ['-p', 'source=a.scc', '-title', '']))
        elif kind == 'out':
            w = f(1, 'aZ ./')
            r.append(('-lcs -o ' + quoted('my ' + w + 'x'), ['-lcs', '-o', 'my ' + w + 'x']))
        elif kind == 'longout':
            r.append(('--out d/e.png -lcs', ['--out', 'd/e.png', '-lcs']))
        elif kind == 'hash':
            r.append(('-p source=a.scc,colour="#12abcd"', ['-p', 'source=a.scc,colour=#12abcd']))
        elif kind == 'rawhash':
            r.append(('-p source=a.scc,colour=#12abcd -mu', ['-p', 'source=a.scc,colour=#12abcd', '-mu']))
        elif kind == 'accent':
            w = f(1, 'a\xe9\u6f22 ')
            r.append(('-title ' + quoted('Gr\xf6\xdfe ' + w), ['-title', 'Gr\xf6\xdfe ' + w]))
        elif kind == 'blank':
            r.append(('', None))
        elif kind == 'blanks':
            r.append((' \t ', None))
        elif kind == 'comment':
            r.append(('# -title "' + f(1), None))
        elif kind == 'icomment':
            r.append(('\t #-title \'', None))
    return r


def same(I, got, want, label):
    I.check(len(got) == len(want), label + ': number of arguments')
    for g, w in zip(got, want):
        I.eqtext(g, w, label)


def h_list(I):
    c = I.case
    I.plain_locale()
    cli = I.mod('craterstats.cli')
    cs = commands(I, c)
    t = ''
    for k, (l, w) in enumerate(cs):
        t = t + ('\n' if k else '') + l
    t = t + ('\n' if c.get('end', 1) else '')
    p = I.writefile('lists/my commands.txt', ('\ufeff' if c.get('bom') else '') + t)
    real = cli.main
    ran = []
    wd = os.getcwd()
    root = os.path.join(I.tmp, 'work')
    os.makedirs(root, exist_ok=True)
    try:
        os.chdir(root)
        if c.get('there'):
            os.makedirs('demo', exist_ok=True)
        with Patch(cli, main=lambda a=None: ran.append(list(a)), get_parser=Parser, shlex=shell(I)):
            if c['via'] == 'list':
                cli.source_cmds(p)
            elif c['via'] == 'demo':
                d = cli.demo(c.get('d'), p)
            else:
                with Patch(I.cst, PATH=os.path.join(I.tmp, 'inst') + '/'):
                    I.writefile('inst/config/demo_commands.txt', t)
                    I.writefile('inst/config/functions.txt', '')
                    with Patch(I.cst, Functionslist=lambda *a, **k: Any(functions={})):
                        real(['-demo'])
        if c['via'] != 'list':
            I.check(os.path.isdir('demo'), 'folder of the demonstrations')
    finally:
        os.chdir(wd)
    want = [w for l, w in cs if w is not None]
    which = range(len(want)) if c.get('d') is None else c['d']
    if c['via'] == 'demo':
        I.check(list(d) == list(which), 'the demonstrations run are stated')
    I.check(len(ran) == len(which), 'each chosen command is run once')
    for a, i in zip(ran, which):
        w = want[i]
        own = outname(w)
        if c['via'] == 'list':
            o = own if own is not None else f'{i:02d}-out'
        else:
            o = own if own is not None else f'demo/{i:02d}-demo'
        I.eqtext(outname(a), o, 'name of its output')
        # the other words are those of the command, in their order
        rest = list(a)
        if own is None:
            k = [j for j, e in enumerate(rest) if isinstance(e, str) and e in ('-o', '--out')][0]
            del rest[k:k + 2]
        elif c['via'] != 'list':
            if len(rest) == len(w) + 2:
                rest = rest[2:]
        same(I, rest, w, 'words of the command')
    I.reach('list')


def c_list(t):
    c = []
    kinds = ['plain', 'single', 'double', 'spaces', 'empty', 'out', 'longout', 'hash', 'rawhash', 'accent']
    skip = ['blank', 'blanks', 'comment', 'icomment']
    for via in ('list', 'demo', 'main'):
        c += [dict(via=via, lines=[k]) for k in kinds]
        c += [dict(via=via, lines=['plain', s, 'empty', s, 'hash']) for s in skip]
        c += [dict(via=via, lines=['comment', 'blank', 'empty', 'plain', 'icomment'], end=0), dict(via=via, lines=['hash', 'plain'], bom=via != 'main'),
              dict(via=via, lines=[], there=1), dict(via=via, lines=['blank', 'comment']),
              dict(via=via, lines=['empty', 'hash', 'blanks', 'longout', 'empty', 'comment', 'single', 'hash'] + ['empty'] * 6 + ['longout', 'hash'], there=1)]
        if t == 'thorough':
            c += [dict(via=via, lines=[a, s, b]) for a in kinds[:4] for b in kinds[:4] for s in skip]
    c += [dict(via='demo', lines=['empty', 'comment', 'plain', 'hash', 'spaces'], d=d) for d in ([0], [2], [3, 1], [1, 2, 3], [], [0, 0])]
    return c


HARNESSES = [Harness('list', h_list, c_list, bounds='lists of 0..14 commands among ten forms (plain, quoted both ways with 2 free characters, extra blanks, empty words, own output name, colour codes, accents), with blank and comment lines; lists, demonstrations, chosen demonstrations and the -demo option')]
ASSUMPTIONS = ['the running of one command and the parser of options are stand-ins (P24, P26, P40 decide those); shlex is executed symbolically with the program', 'the listed commands are well quoted']
