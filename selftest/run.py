"""Runs the checks on edited copies of the repository: bugs must be reported, refactorings must stay quiet.

    python3 selftest/run.py [case file name ...]

Works on scratch copies of /repo and /verif under a temporary directory.
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('VERIF_REPO', '/repo')
BAD = []


def main():
    tmp = tempfile.mkdtemp(prefix='selftest-')
    repo, verif = tmp + '/repo', tmp + '/verif'
    try:
        subprocess.run(['git', 'clone', '-q', SRC, repo], check=True)
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns('.git', 'evidence'))
        os.makedirs(verif + '/evidence', exist_ok=True)

        def mut(name, f, old, new, ids, expect=1, cnt=1):
            subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=repo, check=True)
            for f, old, new in ([(f, old, new)] if isinstance(f, str) else f):
                s = open(repo + '/' + f).read()
                if old not in s:
                    print('!!', name, 'not found')
                    BAD.append(name)
                    return
                open(repo + '/' + f, 'w').write(s.replace(old, new, cnt))
            for i in ids.split():
                r = subprocess.run(['python3', 'sa/check.py', i], cwd=verif, capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=repo))
                ok = r.returncode == expect
                BAD.extend([] if ok else [name])
                o = '\n'.join(x for x in (r.stdout + r.stderr[-900:]).split('\n') if 'KNOWN' not in x)
                print('ok' if ok else '##', name, i, 'rc', r.returncode, '' if ok else o[:900].replace('\n', ' | '), flush=True)

        names = sys.argv[1:] or sorted(os.listdir(HERE + '/selftest/cases'))
        for n in names:
            if n.endswith('.py'):
                src = open(HERE + '/selftest/cases/' + n).read().replace('from mut import *', '')
                exec(compile(src, n, 'exec'), {'mut': mut})
    finally:
        shutil.rmtree(tmp)
    sys.exit(1 if BAD else 0)


main()
