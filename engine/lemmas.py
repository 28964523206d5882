"""Checks the mathematical lemmas (lean/*.lean) with Lean; they do not depend on /repo."""
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AX = {'propext', 'Classical.choice', 'Quot.sound'}


def start(lemmas, d):
    r = []
    for f, ths, what in lemmas:
        src = os.path.join(d, f)
        try:
            with open(os.path.join(HERE, 'lean', f)) as h:
                t = h.read()
            with open(src, 'w') as h:
                h.write(t + ''.join('\n#print axioms %s' % x for x in ths) + '\n')
            p = subprocess.Popen(['lean', src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        except OSError as e:
            p = e
        r.append((f, ths, what, p))
    return r


def finish(started, timeout=240):
    """-> {file: status}"""
    out = {}
    for f, ths, what, p in started:
        if isinstance(p, OSError):
            out[f] = 'not checked in this run (%s)' % p
            continue
        try:
            o, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            out[f] = 'not checked in this run (time limit)'
            continue
        ok = p.returncode == 0 and 'sorry' not in o
        for x in ths:
            k = o.find("'%s' depends on axioms: [" % x)
            if k >= 0:
                ax = o[k:].split('[', 1)[1].split(']', 1)[0]
                ok = ok and {y.strip() for y in ax.split(',')} <= AX
            elif "'%s' does not depend on any axioms" % x not in o:
                ok = False
        out[f] = 'proved (%s): %s' % (', '.join(ths), what) if ok else 'not checked in this run: ' + o[-400:]
    return out
