#!/usr/bin/env python3
"""Development aid: trymut.py PATCH... [-- Cxx ...]: runs checks against scratch copies of /repo with a patch."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    patch, ids = job
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        r = os.path.join(d, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        p = subprocess.run(['git', '-C', r, 'apply', '--whitespace=nowarn', os.path.abspath(patch)], capture_output=True, text=True)
        if p.returncode:
            return patch, 'DOES NOT APPLY ' + p.stderr
        b = os.path.join(d, 'build')
        os.makedirs(b)
        for n in os.listdir(os.path.join(VERIF, '.build')):
            if n.startswith('driver-') and n != 'driver-target':
                os.link(os.path.join(VERIF, '.build', n), os.path.join(b, n)) if False else shutil.copy2(
                    os.path.join(VERIF, '.build', n), os.path.join(b, n))
        env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=b, VERIF_EVIDENCE=os.path.join(d, 'ev'))
        out = ''
        for i in ids:
            q = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), i], env=env, capture_output=True, text=True)
            out += '[%d] ' % q.returncode + q.stdout + q.stderr
        return patch, out
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    k = a.index('--') if '--' in a else len(a)
    ids = a[k + 1:]
    jobs = [(p, ids) for p in a[:k]]
    with ThreadPoolExecutor(6) as ex:
        for patch, out in ex.map(one, jobs):
            print('=====', os.path.basename(patch)[:-5], end=': ')
            ls = out.splitlines()
            codes = re.findall(r'^\[(\d)\] (\w+): .*?(\d+) undecided', out, re.M)
            print(' '.join('%s=%s%s' % (i, {'0': 'quiet', '1': 'ALARM'}.get(k, k), '' if u == '0' else '(%s open)' % u)
                           for k, i, u in codes) or out[-300:])
            full = os.environ.get('FULL')
            shown = set()
            for k, l in enumerate(ls):
                if full:
                    print(l[:int(full)])
                elif l.startswith('  ') and not l.startswith('   ') and 'UNDECIDED' not in l:
                    if l in shown or len(shown) > 5:
                        continue
                    shown.add(l)
                    print('   ', l[:160])
                elif 'Traceback' in l or 'Error' in l:
                    print('   ', l[:200])
            und = [l for l in ls if 'UNDECIDED' in l]
            for l in und[:2]:
                print('   ', l[:200])
